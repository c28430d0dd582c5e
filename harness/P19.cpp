// P19: timers against the clock.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/time/timers.hpp"
using namespace spn::structure::time;
using Ms = int64_t;
static Ms now() { return HAL::millis().raw(); }

struct Spec {
    std::vector<Ms> bases, intervals, advances;
    bool micro = false;
};
struct Timers : mc::Model {
    const Spec* s;
    Ms t = 0;       // the clock, in us
    explicit Timers(const Spec* sp) : s(sp) {
        Ms base = mc::pick(s->bases);
        mc::label("clock at %lld", (long long)base);
        HAL::delay_ms(k_time_ms(base));
        t = base * 1000;
    }
    Ms ms() const { return t / 1000; }
    bool advance(int op) {
        if (op != 0) return false;
        Ms a = mc::pick(s->advances);
        if (s->micro) {
            a = a * 500;
            HAL::delay_us(k_time_us(a));
        } else {
            a = a * 1000;
            HAL::delay_ms(k_time_ms(a / 1000));
        }
        mc::label("time passes: %lld us", (long long)a);
        t += a;
        return true;
    }
};
struct Alarm : Timers {
    std::unique_ptr<AlarmTimer> alarm;
    Ms due = 0;
    explicit Alarm(const Spec* sp) : Timers(sp) {
        Ms d = mc::pick(s->intervals);
        bool abs = mc::flip();
        mc::assume(!abs || d > 0);
        mc::label("alarm %s %lld", abs ? "at now +" : "in", (long long)d);
        due = ms() + d;
        if (abs) alarm = std::make_unique<AlarmTimer>(k_time_ms(due), true);
        else alarm = std::make_unique<AlarmTimer>(k_time_ms(d));
    }
    void step() override {
        int op = mc::choose(4);
        if (advance(op)) {
            Ms left = due - ms();
            if (left == 0) mc::cover("exactly due");
            if (left == 1) mc::cover("one tick before");
        } else if (op == 1) {
            mc::label("poll");
            mc::eq(alarm->expired(), ms() >= due, "expired");
            mc::eq(alarm->expired(), ms() >= due, "expired, polled again");
        } else if (op == 2) {
            mc::label("ask for the due time");
            mc::eq(alarm->future().raw(), due, "due time");
            mc::eq(alarm->time_from_now().raw(), due - ms(), "remaining time");
        } else {
            mc::label("copy");
            AlarmTimer c = *alarm;
            mc::eq(c.expired(), ms() >= due, "expired (copy)");
            mc::eq(c.future().raw(), due, "due time (copy)");
        }
        mc::eq(now(), ms(), "the clock");
    }
};
struct Interval : Timers {
    std::unique_ptr<IntervalTimer> timer;
    Ms last, interval;
    bool catch_up;
    explicit Interval(const Spec* sp) : Timers(sp) {
        interval = mc::pick(s->intervals);
        catch_up = mc::flip();
        mc::assume(!catch_up || interval > 0);
        mc::label("interval %lld%s", (long long)interval, catch_up ? ", catching up" : "");
        if (catch_up) timer = std::make_unique<IntervalTimer>(k_time_ms(interval), true);
        else timer = std::make_unique<IntervalTimer>(k_time_ms(interval));
        last = ms();
    }
    void report() {
        mc::eq(timer->interval().raw(), interval, "interval");
        mc::eq(timer->future().raw(), last + interval, "next due time");
        mc::eq(timer->time_until_next().raw(), last + interval - ms(), "time until next");
    }
    void poll() {
        Ms elapsed = ms() - last;
        bool got = timer->expired();
        mc::observe(got);
        if (elapsed < interval && got) mc::fail("fired %lld ms after the last time, interval %lld", (long long)elapsed, (long long)interval);
        if (elapsed > interval && !got) mc::fail("not fired %lld ms after the last time, interval %lld", (long long)elapsed, (long long)interval);
        if (got) {
            if (elapsed > 2 * interval) mc::cover(catch_up ? "missed an interval, catching up" : "missed an interval, skipping");
            last = catch_up ? last + interval : ms();
        }
    }
    void step() override {
        int op = mc::choose(5);
        if (advance(op)) {
        } else if (op == 1) {
            mc::label("poll");
            poll();
        } else if (op == 2) {
            // every elapsed interval is reported once, then nothing until time passes
            mc::label("poll until it is quiet");
            Ms was = last;
            int fired = 0;
            mc::assume(interval > 0 && (ms() - last) / interval < 3000);
            for (;;) {
                Ms before = last;
                poll();
                if (last == before) break;
                fired++;
            }
            if (!catch_up) mc::check(fired <= 1, "fired %d times in one poll series without catching up", fired);
            else {
                Ms missed = (ms() - was) / interval;
                mc::check(fired == missed || (fired == missed - 1 && (ms() - was) % interval == 0), "fired %d times for %lld elapsed intervals", fired, (long long)missed);
            }
        } else if (op == 3) {
            mc::label("reset");
            timer->reset();
            last = ms();
        } else {
            mc::label("report");
        }
        report();
    }
};
struct Elapsed : Timers {
    std::unique_ptr<Timer> timer;
    Ms last;
    explicit Elapsed(const Spec* sp) : Timers(sp) {
        if (mc::flip()) {
            last = ms() - mc::pick(s->intervals);
            mc::label("timer counting from %lld", (long long)last);
            timer = std::make_unique<Timer>(k_time_ms(last));
        } else {
            last = ms();
            timer = std::make_unique<Timer>();
        }
    }
    void step() override {
        int op = mc::choose(6);
        if (advance(op)) return;
        switch (op) {
        case 1:
            mc::label("elapsed, resetting");
            mc::eq(timer->time_since_last().raw(), ms() - last, "elapsed time");
            last = ms();
            break;
        case 2:
            mc::label("elapsed, not resetting");
            mc::eq(timer->time_since_last(Timer::NoReset).raw(), ms() - last, "elapsed time");
            break;
        case 3:
            mc::label("reset");
            timer->reset();
            last = ms();
            break;
        case 4:
            last = ms() - mc::pick(s->intervals);
            mc::label("reset to %lld", (long long)last);
            timer->reset(k_time_ms(last));
            break;
        case 5:
            mc::label("elapsed, resetting on request");
            mc::eq(timer->time_since_last(true).raw(), ms() - last, "elapsed time");
            last = ms();
            break;
        }
    }
};
template <typename M> static void add(const char* name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new M(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.bases = {0, 1, 999, 16777215, 2147483646LL, 4294967294LL, 1099511627775LL};
    s.intervals = {0, 1, 2, 3, 5, 10};
    s.advances = {1, 2, 3, 4, 7, 25};
    Spec u = s;
    u.micro = true;
    Spec l = s;
    l.intervals = {999, 1000, 16777217, 2147483648LL, 4294967295LL, 4294967296LL, 86400000LL};
    l.advances = {1, 999, 1000, 16777216, 16777217, 2147483647LL, 4294967295LL, 4294967297LL};
    add<Alarm>("alarm, short", s, th ? 9 : 7);
    add<Alarm>("alarm, half milliseconds", u, th ? 9 : 7);
    add<Alarm>("alarm, long", l, th ? 7 : 6);
    add<Interval>("interval, short", s, th ? 8 : 6);
    add<Interval>("interval, half milliseconds", u, th ? 8 : 6);
    add<Interval>("interval, long", l, th ? 6 : 5);
    add<Elapsed>("elapsed, short", s, th ? 6 : 5);
    add<Elapsed>("elapsed, half milliseconds", u, th ? 6 : 5);
    add<Elapsed>("elapsed, long", l, th ? 6 : 5);
}
