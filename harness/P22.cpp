// P22: set-reset latch.
#include "ref.hpp"
#include <limits>
#include "spine/core/debugging.hpp"
#include "spine/controller/sr_latch.hpp"
using spn::controller::SRLatch;
using Ms = int64_t;

struct Spec {
    std::vector<Ms> bases, limits_min, limits_max, advances;
    float high = 10, low = 5;
    std::vector<float> readings;
};
struct Latch : mc::Model {
    const Spec* s;
    Ms min_on, max_on, min_off, max_off;
    std::unique_ptr<SRLatch> latch;
    Ms now, since;
    bool on = false;
    Ms max_for(Ms min) {
        Ms m = mc::pick(s->limits_max);
        mc::assume(m == 0 || m >= min);
        return m;
    }
    explicit Latch(const Spec* sp) : s(sp) {
        now = mc::pick(s->bases);
        HAL::delay_ms(k_time_ms(now));
        min_on = mc::pick(s->limits_min);
        max_on = max_for(min_on);
        min_off = mc::pick(s->limits_min);
        max_off = max_for(min_off);
        mc::label("on between %lld and %lld ms, off between %lld and %lld ms", (long long)min_on, (long long)max_on, (long long)min_off, (long long)max_off);
        latch = std::make_unique<SRLatch>(SRLatch::Config{s->high, s->low, k_time_ms(min_on), k_time_ms(max_on), k_time_ms(min_off), k_time_ms(max_off)});
        latch->initialize();
        since = now - min_off; // it may be turned on straight away
    }
    void step() override {
        mc::eq(latch->response(), on, "response");
        if (mc::flip()) {
            Ms a = mc::pick(s->advances);
            mc::label("time passes: %lld ms", (long long)a);
            HAL::delay_ms(k_time_ms(a));
            now += a;
        } else {
            float v = mc::pick(s->readings);
            mc::label("reading %g", v);
            Ms t = now - since, min = on ? min_on : min_off, max = on ? max_on : max_off;
            bool next = v > s->high ? true : v < s->low ? false : on;
            if (t < min) {
                if (next != on) mc::cover("held for the minimum time");
                next = on;
            } else if (max && t > max) {
                if (next == on) mc::cover("switched after the maximum time");
                next = !on;
            }
            if (next != on) since = now;
            on = next;
            latch->new_reading(v);
        }
        mc::eq(latch->response(), on, "response");
    }
};
MC_MAIN {
    bool th = mc::thorough();
    auto add = [](const char* name, Spec s, int depth) {
        auto* p = new Spec(std::move(s));
        mc::config(name, [p] { return new Latch(p); }, depth, {6000000});
    };
    Spec s;
    float inf = std::numeric_limits<float>::infinity();
    s.bases = {0, 7};
    s.limits_min = {0, 2, 3};
    s.limits_max = {0, 3, 5};
    s.advances = {1, 2, 3};
    s.readings = {4, 7, 11};
    add("all limits", s, th ? 16 : 11);
    s.limits_min = {0, 1};
    s.limits_max = {0, 1, 2};
    s.advances = {1, 2};
    s.bases = {0, 2147483646LL, 4294967294LL};
    add("short limits", s, th ? 18 : 12);
    s.readings = {-inf, -11, 4.9999f, 5, 5.0001f, 10, 10.0001f, inf, std::numeric_limits<float>::quiet_NaN()};
    s.limits_min = {0, 2};
    s.limits_max = {0, 4};
    s.bases = {0};
    s.advances = {2, 3};
    add("edge readings", s, th ? 14 : 9);
    s.high = s.low = -1.25f;
    s.readings = {-1.5f, -1.25f, -1, 0};
    add("no hysteresis", s, th ? 14 : 9);
    Spec l;
    l.bases = {0, 4294967295LL};
    l.limits_min = {0, 60000, 4294967296LL};
    l.limits_max = {0, 2147483648LL, 4294967297LL};
    l.advances = {1, 59999, 2147483648LL, 4294967295LL};
    l.high = 10.75f, l.low = 5.25f;
    l.readings = {5, 7, 10.5f, 11};
    add("long limits", l, th ? 10 : 7);
}
