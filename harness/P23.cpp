// P23: PID controller.
#include "ref.hpp"
#include <cmath>
#include "spine/core/debugging.hpp"
#include "spine/controller/pid.hpp"
using spn::controller::PID;
using spn::controller::PIDController;
using Ms = int64_t;
struct Gains { float p, i, d; };

struct Spec {
    std::vector<Gains> gains;
    std::vector<std::pair<float, float>> limits;
    std::vector<Ms> intervals, bases{0};
    std::vector<float> readings, setpoints;
    std::vector<Ms> pauses{};
};
// the control law, in double precision
struct Law {
    Gains g{};
    int64_t reverse = 0, on_error = 1;
    double lo = 0, hi = 255, interval = 100, sum = 0, last = 0, out = 0, scale = 0;
    double clamp(double v) const { return v > hi ? hi : v < lo ? lo : v; }
    void limits(double l, double h) {
        lo = l;
        hi = h;
        out = clamp(out);
        sum = clamp(sum);
    }
    void initialize(double reading) {
        sum = clamp(out);
        last = reading;
    }
    void update(double setpoint, double reading) {
        double dir = reverse ? -1 : 1, t = interval / 1000;
        double error = setpoint - reading, delta = reading - last;
        double p = dir * g.p * (on_error ? error : -delta), i = dir * g.i * t * error, d = -dir * g.d / t * delta;
        double before = sum;
        sum += i;
        if (!on_error) sum += p;
        sum = clamp(sum);
        out = clamp((on_error ? p : 0) + sum + d);
        last = reading;
        if (before != sum && (sum == lo || sum == hi)) mc::cover("integral limited");
        if (out == lo || out == hi) mc::cover("output limited");
        else mc::cover("output inside its limits");
        scale = std::max({scale, std::fabs(before), std::fabs(i), std::fabs(p), std::fabs(d), 1.0});
    }
    bool near(double got) const { return std::fabs(got - out) <= 2e-5 * scale; }
};
struct Base : mc::Model {
    const Spec* s;
    Law law;
    Ms now, computed = 0;
    double setpoint = 0, reading = 0;
    float last_response = 0;
    float outside = NAN; // an output that was not computed
    explicit Base(const Spec* sp) : s(sp) {
        now = mc::pick(s->bases);
        HAL::delay_ms(k_time_ms(now));
    }
    void ready(Ms interval) { // the first reading comes an interval later at the earliest
        HAL::delay_ms(k_time_ms(interval));
        computed = now;
        now += interval;
        law.interval = (double)interval;
    }
    void judge(float out, bool recomputed) {
        mc::observe(out);
        if (out == outside) return;
        if (!(out >= (float)law.lo && out <= (float)law.hi)) mc::fail("response %g outside %g to %g", out, law.lo, law.hi);
        if (!recomputed) mc::eq(out, last_response, "response without a new computation");
        else if (!law.near(out)) mc::fail("response: got %g, expected %g", out, law.out);
        last_response = out;
    }
    void advance() {
        Ms i = (Ms)law.interval;
        int k = mc::choose(4 + (int)s->pauses.size());
        Ms a = k == 0 ? 1 : k < 4 ? i - 2 + k : s->pauses[(size_t)k - 4];
        mc::label("time passes: %lld ms", (long long)a);
        HAL::delay_ms(k_time_ms(a));
        now += a;
    }
    bool due() {
        if (now - computed < (Ms)law.interval) {
            mc::cover("reading too early");
            return false;
        }
        computed = now;
        return true;
    }
};
struct Pid : Base {
    std::unique_ptr<PID> pid;
    explicit Pid(const Spec* sp) : Base(sp) {
        Gains g = mc::pick(s->gains);
        auto l = mc::pick(s->limits);
        Ms i = mc::pick(s->intervals);
        law.on_error = mc::flip();
        law.reverse = mc::flip();
        mc::label("gains %g %g %g, limits %g to %g, interval %lld ms, proportional on %s%s", g.p, g.i, g.d, l.first, l.second,
                  (long long)i, law.on_error ? "error" : "measurement", law.reverse ? ", reverse" : "");
        bool plain = s->gains.size() == 2 && mc::flip(); // the configuration as it comes
        if (plain) g = {20, 0.3f, 0.1f}, l = {0, 255}, i = 100, law.on_error = 1, law.reverse = 0;
        PID::Config c{{g.p, g.i, g.d}, l.first, l.second, k_time_ms(i),
                      law.on_error ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT,
                      law.reverse ? PID::Direction::REVERSE : PID::Direction::FORWARD};
        if (plain) {
            c = PID::Config{};
            mc::label("default configuration");
        }
        pid = mc::flip() ? std::make_unique<PID>(c) : std::make_unique<PID>(std::move(c));
        pid->initialize();
        law.g = g;
        law.limits(l.first, l.second);
        law.initialize(0);
        ready(i);
        last_response = pid->response();
        judge(last_response, true);
    }
    void step() override {
        switch (mc::choose(5)) {
        case 0: return advance();
        case 1: {
            float v = mc::pick(s->readings);
            mc::label("reading %g", v);
            reading = v;
            bool c = due();
            if (c) law.update(setpoint, reading);
            if (mc::flip()) pid->new_reading(v);
            else pid->new_reading(v, k_time_ms(now));
            judge(pid->response(), c);
            break;
        }
        case 2: {
            float v = mc::pick(s->setpoints);
            mc::label("setpoint %g", v);
            setpoint = v;
            pid->set_target_setpoint(v);
            break;
        }
        case 3: {
            Gains g = mc::pick(s->gains);
            int mode = mc::choose(3);
            mc::label("gains %g %g %g, mode %d", g.p, g.i, g.d, mode);
            law.g = g;
            law.on_error = mode != 1;
            if (mode == 0) pid->set_tunings({g.p, g.i, g.d});
            else pid->set_tunings({g.p, g.i, g.d}, mode == 1 ? PID::Proportionality::ON_MEASUREMENT : PID::Proportionality::ON_ERROR);
            break;
        }
        case 4:
            mc::label("initialise again");
            law.initialize(reading);
            pid->initialize();
            break;
        }
        judge(pid->response(), false);
        auto t = pid->tunings();
        mc::eq(t.Kp, law.g.p, "proportional gain");
        mc::eq(t.Ki, law.g.i, "integral gain");
        mc::eq(t.Kd, law.g.d, "derivative gain");
        mc::eq((double)pid->setpoint(), setpoint, "setpoint");
        mc::eq(pid->error(), std::fabs((float)(setpoint - reading)), "error");
    }
};
struct Controller : Base {
    float in = 0, out = 0, set = 0;
    std::unique_ptr<PIDController> pid;
    static auto mode(bool on_error) { return on_error ? PIDController::Proportionality::ON_ERROR : PIDController::Proportionality::ON_MEASUREMENT; }
    static auto dir(bool reverse) { return reverse ? PIDController::Direction::REVERSE : PIDController::Direction::FORWARD; }
    explicit Controller(const Spec* sp) : Base(sp) {
        Gains g = mc::pick(s->gains);
        law.reverse = mc::flip();
        int m = mc::choose(3);
        law.on_error = m != 1;
        mc::label("gains %g %g %g, mode %d%s", g.p, g.i, g.d, m, law.reverse ? ", reverse" : "");
        if (m == 0) pid = std::make_unique<PIDController>(&in, &out, &set, g.p, g.i, g.d, dir(law.reverse));
        else pid = std::make_unique<PIDController>(&in, &out, &set, g.p, g.i, g.d, mode(m == 2), dir(law.reverse));
        law.g = g;
        pid->initialize();
        law.initialize(0);
        ready(100);
        computed = now;
        law.update(0, 0);
        mc::eq(pid->update(k_time_ms(now)), true, "computed");
        judge(out, true);
    }
    void step() override {
        switch (mc::choose(9)) {
        case 0: return advance();
        case 7: {
            // taking over from manual control
            static const float by_hand[] = {-100.25f, 3.5f, 300.75f};
            out = by_hand[mc::choose(3)];
            mc::label("output set to %g by hand, initialise", out);
            law.out = out;
            law.initialize(reading);
            pid->initialize();
            mc::eq(out, (float)law.out, "output after initialising");
            if (out < law.lo || out > law.hi) outside = out;
            last_response = out;
            break;
        }
        case 8: {
            int k = mc::choose(4);
            mc::label(k < 2 ? "limits that are no range" : "an interval that is none");
            if (k < 2) pid->set_output_limits(4, k ? 4 : 3);
            else pid->set_sampling_time(k_time_ms(k == 2 ? 0 : -250));
            break;
        }
        case 1: {
            in = mc::pick(s->readings);
            mc::label("reading %g", in);
            reading = in;
            bool c = due();
            if (c) law.update(setpoint, reading);
            mc::eq(pid->update(k_time_ms(now)), c, "computed");
            if (c) outside = NAN;
            judge(out, c);
            break;
        }
        case 2: {
            set = mc::pick(s->setpoints);
            mc::label("setpoint %g", set);
            setpoint = set;
            break;
        }
        case 3: {
            Gains g = mc::pick(s->gains);
            bool m = mc::flip();
            mc::label("gains %g %g %g, proportional on %s", g.p, g.i, g.d, m ? "error" : "measurement");
            law.g = g;
            law.on_error = m;
            pid->set_tunings(g.p, g.i, g.d, mode(m));
            break;
        }
        case 4: {
            auto l = mc::pick(s->limits);
            mc::label("limits %g to %g", l.first, l.second);
            pid->set_output_limits(l.first, l.second);
            law.limits(l.first, l.second);
            outside = NAN;
            last_response = std::min(std::max(last_response, l.first), l.second);
            break;
        }
        case 5: {
            Ms i = mc::pick(s->intervals);
            mc::label("interval %lld ms", (long long)i);
            pid->set_sampling_time(k_time_ms(i));
            law.interval = (double)i;
            break;
        }
        case 6:
            law.reverse = mc::flip();
            mc::label("direction %s", law.reverse ? "reverse" : "forward");
            pid->set_controller_direction(dir(law.reverse));
            mc::check(pid->direction() == dir(law.reverse), "direction is not the one that was set");
            break;
        }
        judge(out, false);
        mc::eq(pid->Kp(), law.g.p, "proportional gain");
        mc::eq(pid->Ki(), law.g.i, "integral gain");
        mc::eq(pid->Kd(), law.g.d, "derivative gain");
    }
};
template <typename M> static void add(const char* name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new M(p); }, depth, {6000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.gains = {{2, 0.5f, 0.25f}, {0, 4, 0}};
    s.limits = {{0, 255}, {-8.5f, 8.25f}, {5, 6}, {-20, -10.75f}};
    s.intervals = {1, 50, 100, 250, 999, 1000, 1001, 1500, 2750, 60000};
    s.readings = {-3.75f, 0, 10.625f, 300.5f};
    s.setpoints = {0, 12.375f};
    add<Pid>("configurations", s, th ? 5 : 3);
    s.gains = {{2, 0.5f, 0.25f}, {1, 16, 0}, {0, 0, 1}};
    s.limits = {{-8.5f, 16.25f}};
    s.intervals = {250};
    s.readings = {0, 2.25f, 5.5f};
    s.setpoints = {-4.5f, 4};
    s.bases = {0, 4294967000LL};
    add<Pid>("histories", s, th ? 6 : 5);
    s.gains = {{2, 0.5f, 0.25f}};
    s.setpoints = {3.25f};
    s.readings = {0.5f, 6};
    s.bases = {16777216LL};
    add<Pid>("long histories", s, th ? 12 : 9);
    s.gains = {{2, 0.5f, 0.25f}, {1, 8, 0}};
    s.limits = {{-8, 16}, {0.5f, 2}};
    s.intervals = {40, 100, 250};
    s.readings = {0, 5.75f};
    s.setpoints = {4.5f};
    s.bases = {0};
    add<Controller>("controller", s, th ? 8 : 6);
    s.limits = {{-8.5f, 16.25f}};
    s.intervals = {7, 999, 1500, 2750, 61001};
    add<Controller>("sampling times", s, th ? 7 : 5);
    s.limits = {{-8, 16}, {0.5f, 2}};
    s.gains = {{2, 0.5f, 0.25f}};
    s.limits = {{-8.5f, 16.25f}};
    s.intervals = {250, 3000000000LL};
    s.readings = {1.5f, 3};
    s.setpoints = {4};
    s.bases = {0, 2147483000LL, 4294967000LL};
    s.pauses = {65536, 2147483648LL, 4294967296LL, 4294967300LL};
    add<Pid>("long pauses", s, th ? 6 : 4);
    s.intervals = {250};
    add<Controller>("long pauses, controller", s, th ? 6 : 4);
}
