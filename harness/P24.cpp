// P24: autotuning by relay.
#include "ref.hpp"
#include <cmath>
#include "spine/core/debugging.hpp"
#include "spine/controller/pid.hpp"
using spn::controller::PID;
using spn::controller::PIDAutotuner;
using Ms = int64_t;
using Mode = PIDAutotuner::Aggressiveness;

// the relay method, in double precision
struct Relay {
    double target, hysteresis, lo, hi, interval;
    int64_t mode, cycles;
    int64_t cycle = 0, on = 1, vague = 0;
    Ms switched_on = 0, switched_off = 0;
    double top = -1e30, bottom = 1e30, high_trigger = 0, low_trigger = 0;
    double sum[3] = {};
    bool finished() const { return cycle >= cycles; }
    void start(Ms now) {
        switched_on = switched_off = now;
        cycle = vague = 0, on = 1;
        top = -1e30, bottom = 1e30, high_trigger = low_trigger = 0;
        sum[0] = sum[1] = sum[2] = 0;
    }
    double feed(double v, Ms now) {
        // A value that switches the output may or may not be counted to the peaks of the period that begins or ends
        // with it; where that matters the gains are not judged.
        if (on) {
            top = std::max(top, v);
            bottom = std::min(bottom, v);
            if (v > target + hysteresis) {
                on = 0;
                switched_off = now;
                high_trigger = v;
                top = target;
            }
        } else {
            top = std::max(top, v);
            if (v < target - hysteresis) {
                if (cycle >= 2 && (top < high_trigger || std::min(v, low_trigger) < bottom)) vague = 1;
                bottom = std::min(bottom, v);
                on = 1;
                double ku = 4 * ((hi - lo) / 2) / (M_PI * (top - bottom) / 2);
                double tu = (double)((now - switched_off) + (switched_off - switched_on));
                static const double k[3][3] = {{0.6, 0.5, 0.125}, {0.33, 0.5, 0.33}, {0.2, 0.5, 0.33}};
                double kp = k[mode][0] * ku;
                double g[3] = {kp, kp / (k[mode][1] * tu) * interval, k[mode][2] * kp * tu / interval};
                if (cycle >= 2) for (int i = 0; i < 3; i++) sum[i] += g[i];
                switched_on = now;
                low_trigger = v;
                bottom = target;
                cycle++;
            } else {
                bottom = std::min(bottom, v);
            }
        }
        return finished() ? lo : on ? hi : lo;
    }
    double gain(int i) const { return sum[i] / (double)(cycle - 2); }
};
static void gains(const Relay& r, float p, float i, float d) {
    if (r.cycles <= 2 || r.vague) return; // nothing to average
    float got[3] = {p, i, d};
    static const char* name[] = {"proportional", "integral", "derivative"};
    for (int k = 0; k < 3; k++) {
        mc::observe(got[k]);
        if (!(std::fabs(got[k] - r.gain(k)) <= 1e-4 * std::fabs(r.gain(k))))
            mc::fail("%s gain: got %g, expected %g", name[k], got[k], r.gain(k));
    }
    mc::cover("gains compared");
}
struct Spec {
    std::vector<int> cycles;
    std::vector<float> hysteresis, offsets; // process values relative to the target, in units of the hysteresis
    std::vector<std::pair<float, float>> outputs;
    std::vector<Ms> intervals, elapses;
    int slack = 4;
    bool ordered = false; // only values that switch, to reach many cycles
    int restarts = 0;     // how often tuning may be started again, at any moment
};
static float value_at(const Spec* s, double target, double h, double offset) { return (float)(target + offset * (h > 0 ? h : 0.5)); }
// overshoots, then switches
static float wave(const Relay& r, int64_t& peaked, bool vary = true) {
    peaked = !peaked;
    if (!peaked) return r.on ? 2 : -2;
    float by = vary && mc::flip() ? 3.5f : 6 - (float)(r.cycle % 3);
    return r.on ? -by : by;
}
struct Tuner : mc::Model {
    const Spec* s;
    PIDAutotuner t;
    Relay r{};
    Ms now = 5;
    int64_t peaked = 0, restarts = 0;
    explicit Tuner(const Spec* sp) : s(sp) {
        auto out = mc::pick(s->outputs);
        r.target = 50;
        r.hysteresis = std::fabs(mc::pick(s->hysteresis));
        bool negative = mc::flip();
        r.lo = out.first;
        r.hi = out.second;
        r.interval = (double)mc::pick(s->intervals);
        r.mode = mc::choose(3);
        r.cycles = mc::pick(s->cycles);
        mc::label("target 50 +- %g, outputs %g and %g, interval %g ms, %d cycles, mode %d", r.hysteresis, r.lo, r.hi, r.interval, (int)r.cycles, (int)r.mode);
        t.set_target_input_value((float)r.target);
        t.set_loop_interval(k_time_ms((Ms)r.interval));
        t.set_hysteresis((float)(negative ? -r.hysteresis : r.hysteresis));
        t.setOutputRange((float)r.lo, (float)r.hi);
        t.set_aggressiveness(static_cast<Mode>(r.mode));
        t.set_tuning_cycles((int)r.cycles);
        t.start_tuning_loop(k_time_ms(now));
        r.start(now);
    }
    void step() override {
        if (restarts < s->restarts && r.cycle > 0 && (r.finished() || mc::flip())) {
            restarts++;
            now += mc::pick(s->elapses);
            mc::label("%lld ms: start again", (long long)now);
            t.start_tuning_loop(k_time_ms(now));
            r.start(now);
            peaked = 0;
            mc::cover("restarted");
            return;
        }
        mc::assume(!r.finished());
        float v = s->ordered ? value_at(s, 50, r.hysteresis, wave(r, peaked)) : value_at(s, 50, r.hysteresis, mc::pick(s->offsets));
        now += mc::pick(s->elapses);
        mc::label("%lld ms: process value %g", (long long)now, v);
        double want = r.feed(v, now);
        mc::eq(t.do_autotune(v, k_time_ms(now)), (float)want, "requested output");
        mc::eq((int64_t)t.get_cycle(), r.cycle, "cycles");
        mc::eq(t.is_finished(), r.finished(), "finished");
        if (r.finished()) {
            mc::cover("finished");
            gains(r, t.get_Kp(), t.get_Ki(), t.get_Kd());
        }
    }
};
// the complete tuning loop
struct Loop : mc::Model {
    const Spec* s;
    explicit Loop(const Spec* sp) : s(sp) {}
    Ms now = 0, heated = 0, last_read = -1;
    static constexpr Ms give_up = 30 * 60 * 1000;
    ~Loop() override {
        spn::platform::MockStateInstance().millis = k_time_ms(0);
        spn::platform::MockStateInstance().micros = k_time_us(0);
    }
    void step() override {
        auto out = mc::pick(s->outputs);
        Relay r{};
        r.target = 50;
        r.hysteresis = mc::pick(s->hysteresis);
        r.lo = out.first;
        r.hi = out.second;
        Ms interval = mc::pick(s->intervals);
        r.interval = (double)interval;
        r.mode = mc::choose(3);
        r.cycles = mc::pick(s->cycles);
        static const float froms[] = {0, 20, 0.5f};
        float from = froms[mc::choose(3)];
        bool start = from > 0, stuck = false;
        mc::label("tune to 50 +- %g, outputs %g and %g, interval %g ms, %d cycles, mode %d%s", r.hysteresis, r.lo, r.hi, r.interval, (int)r.cycles, (int)r.mode, from == 20 ? ", from 20" : start ? ", from 0.5" : "");
        now = 1000;
        heated = 0;
        last_read = -1;
        HAL::delay_ms(k_time_ms(5000));
        PID::Config c{{1, 1, 1}, out.first, out.second, k_time_ms(interval)};
        PID pid(c);
        PID::TuneConfig tc;
        tc.setpoint = 50;
        tc.startpoint = from;
        tc.hysteresis = (float)r.hysteresis;
        tc.cycles = (int)r.cycles;
        tc.aggressiveness = static_cast<Mode>(r.mode);
        // phases: 0 heating to the start point, 1 the lower limit ends that, 2 tuning, 3 after
        int phase = start ? 0 : 2, reads = 0, sets = 0, loops = 0;
        float pv = 0, off = NAN;
        int64_t peaked = 0;
        bool first = true, cold = true;
        double want = 0;
        auto getter = [&]() -> float {
            if (phase <= 1) {
                if (phase == 1) return pv; // looking again changes nothing
                if (reads == 0 && s->ordered) stuck = mc::flip();
                if (stuck) {
                    // the start point is never reached; at the latest when the time is up nobody asks any more
                    mc::check(heated <= give_up, "still heating up after %lld ms", (long long)heated);
                    reads++;
                    if (heated >= give_up) phase = 1;
                    return pv = from - 0.25f;
                }
                cold = reads++ < 2 && mc::flip();
                pv = cold ? from - 0.25f : mc::flip() ? from : from + 5.f;
                mc::label("heating: %g", pv);
                if (!cold) phase = 1;
                return pv;
            }
            if (r.finished()) mc::fail("goes on after %d cycles", (int)r.cycle);
            if (first) r.start(now);
            first = false;
            if (last_read >= 0) mc::eq(now - last_read, interval, "time between process values");
            last_read = now;
            if (s->ordered) pv = value_at(s, 50, r.hysteresis, wave(r, peaked, r.cycles <= 3));
            else {
                if (reads++ > s->slack + 2 * (int)r.cycles) mc_prune();
                pv = value_at(s, 50, r.hysteresis, mc::pick(s->offsets));
            }
            mc::label("%lld ms: process value %g", (long long)now, pv);
            want = r.feed(pv, now);
            sets = 0;
            return pv;
        };
        auto setter = [&](float v) {
            mc::label("output %g", v);
            if (phase == 0) mc::eq(v, out.second, "output while heating up");
            else if (phase == 1) {
                mc::eq(v, out.first, "output after heating up");
                phase = 2;
            } else if (r.finished() && sets == 1) {
                mc::eq(v, 0.f, "output at the end");
                off = v;
                phase = 3;
            } else {
                mc::check(sets == 0, "the output was set more than once for a process value");
                mc::eq(v, (float)want, "requested output");
                sets++;
            }
        };
        auto loop = [&] { loops++; };
        auto uptime = [&] { return k_time_ms(now); };
        auto sleep = [&](k_time_ms t) {
            mc::check(t.raw() > 0, "sleeps for %lld ms", (long long)t.raw());
            if (phase == 2 && sets == 1) mc::check(t.raw() <= interval, "sleeps for %lld ms", (long long)t.raw());
            now += t.raw();
            HAL::delay(t);
            if (phase == 0) heated += t.raw();
        };
        PID::Tunings t = pid.autotune(tc, setter, getter, mc::flip() ? std::function<void()>(loop) : std::function<void()>(), uptime, sleep);
        mc::check(phase == 3 && off == 0, "tuning ended without switching the output off");
        mc::eq(r.cycle, (int64_t)r.cycles, "cycles at the end");
        gains(r, t.Kp, t.Ki, t.Kd);
        mc::cover("tuned");
        now = heated = 0;
        last_read = -1;
        spn::platform::MockStateInstance().millis = k_time_ms(0);
    }
};
template <typename M> static void add(const char* name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new M(p); }, depth, {6000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.cycles = {1, 2, 3};
    s.hysteresis = {0, 0.5f, 4};
    s.offsets = {-3, -1, 0, 1, 3};
    s.outputs = {{0, 255}, {-10.5f, 20.25f}};
    s.intervals = {10};
    s.elapses = {10};
    add<Tuner>("any trajectory", s, th ? 9 : 8);
    s.elapses = {10, 30};
    s.offsets = {-4, -1.5f, 1.5f, 4};
    s.cycles = {3};
    s.hysteresis = {1};
    s.outputs = {{0, 100}};
    add<Tuner>("any timing", s, th ? 8 : 7);
    s.restarts = 1;
    s.cycles = {1, 2};
    add<Tuner>("two runs, any timing", s, th ? 8 : 7);
    s.cycles = {3};
    s.ordered = true;
    s.elapses = {10};
    add<Tuner>("two full runs", s, 27);
    s.restarts = 0;
    s.cycles = {3, 4};
    s.intervals = {100};
    s.elapses = {100, 230};
    add<Tuner>("full runs", s, 17);
    if (th) {
        s.cycles = {5, 6};
        s.elapses = {100};
        add<Tuner>("longer runs", s, 25);
    }
    Spec l;
    l.cycles = {1, 2, 3, 5, 10, 12, 130, 260};
    l.hysteresis = {0.5f};
    l.outputs = {{0, 255}, {5.5f, 8.25f}};
    l.intervals = {2, 100};
    l.ordered = true;
    add<Loop>("loop, full runs", l, 1);
    l.ordered = false;
    l.cycles = {1, 2};
    l.outputs = {{0, 255}, {-3.5f, 3.25f}};
    l.intervals = {2};
    l.offsets = {-2, 0.5f, 2};
    l.slack = th ? 5 : 4;
    add<Loop>("loop, any trajectory", l, 1);
}
