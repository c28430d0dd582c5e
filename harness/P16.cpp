// P16: kernel time against exact integer arithmetic.
#include "units_model.hpp"
using K = spnu::KernelTimeRawType;
static um::Spec<K> base() {
    um::Spec<K> s;
    s.mag = {1, 1e3L, 1e6L, 60e6L, 3600e6L, 86400e6L};
    return s;
}
template <typename S> static void addk(const char* n, S s, int d) { um::add<K, k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>(n, s, d); }

// conversion between real and kernel time
static spnu::TimeRawType trunc_(spnu::TimeRawType x) { return std::trunc(x); }
struct Rounding : mc::Model {
    void step() override {
        int sel = mc::choose(5);
        float x = (mc::choose(257) - 128) / 16.0f;
        if (mc::flip()) x = x * 4096 * 256;
        time_ms t(x);
        K got, want;
        switch (sel) {
        case 0: got = to_kernel_time(t).raw(); want = (K)std::ceil((double)x); break;
        case 1: got = to_kernel_time(t, std::floor).raw(); want = (K)std::floor((double)x); break;
        case 2: got = to_kernel_time(t, std::ceil).raw(); want = (K)std::ceil((double)x); break;
        case 3: got = to_kernel_time(t, std::round).raw(); want = (K)std::round((double)x); break;
        case 4: got = to_kernel_time(t, trunc_).raw(); want = (K)std::trunc((double)x); break;
        }
        mc::label("to_kernel_time(%g), rounding %d", x, sel);
        mc::eq(got, want, "kernel time of a real time");
        mc::eq(to_kernel_time(time_s(x)).raw(), (K)std::ceil((double)x), "kernel time of a real time in seconds");
        mc::eq(to_real_time(k_time_ms((K)x)).raw(), (float)(K)x, "real time of a kernel time");
        mc::eq(to_real_time(k_time_h((K)x)).raw(), (float)(K)x, "real time of a kernel time in hours");
    }
};
// scaling by fractions: applied as given, the result cut or rounded to whole units
struct Fractions : mc::Model {
    template <typename U, typename S> void run() {
        std::vector<K> values = {0, 1, 2, 3, 7, 100, 999, 1000, 3600, 65535, 1000001};
        if (sizeof(S) == 8)
            for (K x : {4294967297LL, 86400000001LL, 1LL << 45}) values.push_back(x);
        K v = mc::pick(values);
        if (mc::flip()) v = -v;
        S s = (S)mc::pick(std::vector<double>{0.25, 0.5, 0.75, 1.0, 1.5, 2.75, 10.125, 64.5});
        if (mc::flip()) s = -s;
        int op = mc::choose(4);
        mc::label("%lld %s %g", (long long)v, op < 2 ? "*" : "/", (double)s);
        U t(v);
        switch (op) {
        case 0: t = t * s; break;
        case 1: t *= s; break;
        case 2: t = t / s; break;
        case 3: t /= s; break;
        }
        long double exact = op < 2 ? (long double)v * s : (long double)v / s;
        long double slack = sizeof(S) == 4 ? std::fabs(exact) / (1 << 22) : std::fabs(exact) / (1LL << 50);
        bool whole = exact == std::trunc(exact) && std::fabs(exact) < (sizeof(S) == 4 ? 1 << 24 : 1LL << 50);
        long double off = std::fabs((long double)t.raw() - exact);
        if (whole ? off != 0 : off >= 1 + slack)
            mc::fail("%lld %s %g is %lld, expected %.3Lf", (long long)v, op < 2 ? "*" : "/", (double)s, (long long)t.raw(), exact);
        mc::cover(whole ? "fraction, whole result" : "fraction, result in between");
        mc::observe(t.raw());
    }
    template <typename U> void type() {
        if (mc::flip()) run<U, float>();
        else run<U, double>();
    }
    void step() override {
        switch (mc::choose(3)) {
        case 0: type<k_time_us>(); break;
        case 1: type<k_time_ms>(); break;
        case 2: type<k_time_h>(); break;
        }
    }
};
MC_MAIN {
    bool th = mc::thorough();
    { // every value around zero, all pairs of scales
        auto s = base();
        for (K i = -3100; i <= 3100; i++) s.values.push_back(i);
        s.conversions_only = true;
        addk("conversions, all values up to 3100", s, 1);
    }
    { // multiples and halves of the ratios and powers of two, to either side
        auto s = base();
        s.conversions_only = true;
        std::vector<K> m = {1, 2, 3, 24, 60, 1000, 1440, 3600, 60000, 86400, 1000000, 3600000, 60000000, 86400000, 3600000000LL, 86400000000LL};
        for (int b = 20; b < 63; b++) m.push_back(1LL << b);
        for (K x : m)
            for (K k : {1, 3, 7})
                for (K d : {-1, 0, 1})
                    for (int half = 0; half < 2; half++)
                        for (int sign : {-1, 1}) {
                            if (x > (1LL << 62) / k) continue;
                            s.values.push_back(sign * ((half ? x * k / 2 : x * k) + d));
                        }
        s.values.push_back(std::numeric_limits<K>::max());
        s.values.push_back(std::numeric_limits<K>::min() + 1);
        addk("conversions, boundaries up to the full range", s, th ? 2 : 1);
    }
    {
        auto s = base();
        for (K x : std::initializer_list<K>{0, 1, 29, 30, 499, 500, 501, 999, 1500, 59999, 16777215, 16777217, 4294967295LL, 4294967297LL, 86400000000001LL, 9007199254740992LL, 9007199254740993LL, 4611686018427387903LL, 4611686018427387904LL})
            for (int sg : {1, -1})
                if (x || sg > 0) s.values.push_back(sg * x);
        s.others = s.values;
        s.scalars = {0, 1, -1, 2, 3, -7, 60, 1000, 16777217, 4294967297LL};
        addk("arithmetic and comparison", s, 1);
        s.values = {0, 1, -500, 16777217, -4294967297LL, 86400000000001LL};
        s.others = th ? std::vector<K>{1, -500, 16777217, 4294967297LL} : std::vector<K>{1, 16777217};
        s.scalars = {2, -7};
        addk("histories of operations", s, th ? 3 : 2);
    }
    mc::config("fractions", [] { return new Fractions; }, 1);
    mc::config("rounding between real and kernel time", [] { return new Rounding; }, 1);
}
