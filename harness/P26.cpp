// P26: the band-pass filter.
#include "units_model.hpp"
#include <cmath>
#include <memory>
#include "spine/filter/implementations/bandpass.hpp"
using spn::filter::BandPass;

template <typename V> struct Spec {
    std::vector<V> mantissas{1}, decades{0}, offsets{0};
    std::vector<int> limits;
    std::vector<double> samples; // relative to the midpoint, in half band widths
    std::vector<V> first;
    bool broad = false;
};
template <typename V> struct Band : um::WithHandler {
    using F = BandPass<V>;
    using Mode = typename F::Mode;
    const Spec<V>* s;
    std::unique_ptr<F> f;
    int64_t relative, limit, reports;
    V half, offset;
    V value = 0;
    int64_t started = 0, rejected = 0;
    explicit Band(const Spec<V>* sp) : s(sp) {
        typename F::Config c;
        if (s->broad) f = F::Broad();
        else {
            c.mantissa = mc::pick(s->mantissas);
            c.decades = mc::pick(s->decades);
            c.offset = mc::pick(s->offsets);
            c.rejection_limit = mc::pick(s->limits);
            c.mode = mc::flip() ? Mode::RELATIVE : Mode::ABSOLUTE;
            c.throw_on_rejection_limit = mc::flip();
            auto copy = c;
            f = std::make_unique<F>(std::move(copy));
        }
        relative = c.mode == Mode::RELATIVE;
        limit = c.rejection_limit;
        reports = c.throw_on_rejection_limit;
        offset = c.offset;
        half = (V)((long double)c.mantissa * powl(10, (long double)c.decades + 1));
        mc::label("%s band of +-%g around %g, limit %d%s", relative ? "relative" : "absolute", (double)half, (double)offset, (int)limit, reports ? ", reporting" : "");
    }
    V call(V x, int how) {
        if (how == 0) return f->value(x);
        if (how == 1) return (*f)(x);
        f->new_sample(x);
        return f->value();
    }
    void step() override {
        if (started && mc::choose(5) == 0) {
            V x = value + (V)(mc::choose(2) * 3) * half;
            mc::label("reset_to(%g)", (double)x);
            f->reset_to(x);
            value = x;
            rejected = 0;
        } else {
            int how = mc::choose(3);
            if (!started) {
                value = mc::pick(s->first);
                mc::label("first sample %g", (double)value);
                V x = value;
                // whether a first sample outside of the band counts as a rejection is left open
                bool in = relative ? std::fabs(offset) <= half : std::fabs(value - offset) <= half;
                mc::assume(in);
                mc::eq(call(x, how), x, "value after the first sample");
                started = 1;
                return;
            }
            V mid = relative ? value + offset : offset;
            double at = mc::pick(s->samples);
            V x = mid + (V)at * half;
            bool in = std::fabs(at) <= 1;
            // the exact edge is only judged where it can be represented
            if (std::fabs(std::fabs(at) - 1) < 1e-9 && ((long double)x - mid != (long double)at * half || half != std::floor(half))) mc_prune();
            mc::assume(std::fabs(x + (V)789.123456789) > 1);
            mc::label("sample %g (%s)", (double)x, in ? "inside" : "outside");
            if (in) {
                mc::eq(call(x, how), x, "value after a sample in the band");
                value = x;
                rejected = 0;
            } else if (limit > 0 && rejected > limit) { // unreachable
                mc::fail("driver error");
            } else if (limit > 0 && rejected == limit) {
                if (reports) {
                    must_raise([&] { call(x, how); }, "reaching the rejection limit");
                    mc::cover("limit reported");
                    // the handler left by an exception; start afresh
                    f->reset_to(x);
                } else {
                    mc::eq(call(x, how), x, "value after the rejection limit");
                    mc::cover("limit reached");
                }
                value = x;
                rejected = 0;
            } else {
                mc::assume(limit > 0);
                mc::eq(call(x, how), value, "value after a rejected sample");
                rejected++;
            }
        }
        mc::eq(raised, 0, "unexpected reports");
        mc::eq(f->value(), value, "value()");
    }
};
// a report through a handler that returns: the sample is adopted all the same
struct Counter : spn::core::ExceptionHandler {
    int* n;
    explicit Counter(int* c) : n(c) {}
    void handle_exception(const spn::core::Exception&) override { ++*n; }
};
struct Quiet : mc::Model {
    int reports = 0;
    Quiet() { (void)spn::core::set_machine_exception_handler(std::make_unique<Counter>(&reports)); }
    ~Quiet() override { (void)spn::core::set_machine_exception_handler(nullptr); }
    void step() override {
        int limit = mc::pick(std::vector<int>{1, 2, 3, 4, 5, 126, 127, 128, 254, 255, 256, 300, 32768, 65536});
        BandPass<double>::Config c;
        c.mode = mc::flip() ? BandPass<double>::Mode::RELATIVE : BandPass<double>::Mode::ABSOLUTE;
        c.decades = 0;
        c.rejection_limit = limit;
        c.throw_on_rejection_limit = mc::flip();
        bool rep = c.throw_on_rejection_limit;
        bool rel = c.mode == BandPass<double>::Mode::RELATIVE;
        BandPass<double> f(std::move(c));
        reports = 0;
        int want = 0;
        double v = 5;
        f.value(v);
        for (int round = 0; round < 3; round++) {
            for (int i = 0; i < limit; i++) mc::eq(f.value(100), v, "value after a rejected sample");
            mc::eq(reports, want, "reports");
            v = 100;
            mc::eq(f.value(v), v, "value after the rejection limit");
            if (rep) want++;
            mc::eq(reports, want, "reports at the limit");
            mc::eq(f.value(v), v, "the same sample again");
            if (!rel) { // 100 stays out of band
                mc::cover("absolute");
                v = 1;
                mc::eq(f.value(v), v, "value after a sample in the band");
            } else {
                v = 101;
                mc::eq(f.value(v), v, "value after a sample in the band");
                f.reset_to(5);
                v = 5;
            }
        }
    }
};
template <typename V> static void add(const char* name, Spec<V> s, int depth) {
    auto* p = new Spec<V>(std::move(s));
    mc::config(name, [p] { return new Band<V>(p); }, depth, {6000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec<double> s;
    s.mantissas = {1, 2, 5};
    s.limits = {1, 2, 3};
    s.offsets = {0, 4};
    s.first = {0, 3};
    s.samples = {-3, -1.25, -1, 0.5, 1, 1.25};
    add("edges of the band", s, th ? 8 : 6);
    Spec<float> f;
    f.mantissas = {1, 9.5f};
    f.decades = {0, 1, 2, 0.01f, 0.5f, -1};
    f.limits = {2};
    f.offsets = {0, -3};
    f.first = {-2, 0};
    f.samples = {-1.02, -0.98, -0.5, 0.98, 1.02, 5};
    add("band widths", f, th ? 6 : 5);
    s.mantissas = {2};
    s.limits = {10, 4, 1};
    s.samples = {0.25, 2};
    add("long rejections", s, th ? 26 : 18);
    Spec<float> b;
    b.broad = true;
    b.first = {0, 250};
    b.samples = {-0.98, 0.97, 1.03, -1.03, 4};
    add("broad", b, th ? 15 : 13);
    mc::config("handler that returns", [] { return new Quiet; }, 1);
}
