// P18: compound units against fractions.
// MC-FLAGS: -O0
#include "units_model.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"
using namespace spn::structure::units;
using LD = long double;
template <typename T> struct Type { using type = T; };

// N_i / D_j for all scales of both
template <typename VT, typename Ns, typename Ds> struct Compound;
template <typename VT, typename... N, typename... D> struct Compound<VT, std::tuple<N...>, std::tuple<D...>> : um::WithHandler {
    static constexpr int NN = sizeof...(N), ND = sizeof...(D);
    static constexpr bool INT = std::is_integral_v<VT>;
    struct Spec {
        std::vector<LD> nmag, dmag;
        std::vector<VT> nums, dens, others, other_dens, scalars;
    };
    const Spec* sp;
    int i, j;
    VT n, d;
    explicit Compound(const Spec* s) : sp(s) {
        i = mc::choose(NN);
        j = mc::choose(ND);
        n = mc::pick(s->nums);
        d = mc::pick(s->dens);
        mc::label("%s/%s in scales %d/%d", mc::show(n).c_str(), mc::show(d).c_str(), i, j);
    }
    template <typename F> static void at(int a, int b, F&& f) {
        um::UnitModel<VT, N...>::at(a, [&](auto* un) {
            um::UnitModel<VT, D...>::at(b, [&](auto* ud) {
                f(Type<CompoundUnit<std::remove_pointer_t<decltype(un)>, std::remove_pointer_t<decltype(ud)>>>{});
            });
        });
    }
    template <typename C> static C make(VT n, VT d) { return C(typename C::NumeratorType(n), typename C::DenominatorType(d)); }
    template <typename C> static LD val(const C& c) { return (LD)c.numerator().raw() / (LD)c.denominator().raw(); }
    // does the compound `c` have the value `want`, up to rounding relative to `scale`?
    template <typename C> void is(const C& c, LD want, LD scale, const char* what) {
        mc::observe(c.numerator().raw());
        mc::observe(c.denominator().raw());
        if (c.denominator().raw() == 0) mc::fail("%s: denominator vanished", what);
        LD got = val(c);
        if (!(fabsl(got - want) <= (INT ? 1e-15L : 4e-6L) * scale)) mc::fail("%s: got %.10Lg, expected %.10Lg", what, got, want);
        VT r = c.raw();
        mc::observe(r);
        if constexpr (INT) mc::eq(r, (VT)(c.numerator().raw() / c.denominator().raw()), "raw");
        else if (!(fabsl((LD)r - got) <= 1e-6L * fabsl(got))) mc::fail("%s: raw() is %.9g for a fraction of %.9Lg", what, (double)r, got);
    }
    static bool ok(VT x) {
        if constexpr (INT) return x < (1LL << 40) && x > -(1LL << 40);
        else return x == 0 || (std::fabs(x) < 1e12f && std::fabs(x) > 1e-12f);
    }
    template <typename C> void keep(const C& c, int a, int b) {
        mc::assume(ok(c.numerator().raw()) && ok(c.denominator().raw()) && c.denominator().raw() != 0);
        n = c.numerator().raw();
        d = c.denominator().raw();
        i = a;
        j = b;
    }
    void step() override {
        at(i, j, [&](auto t) {
            using C = typename decltype(t)::type;
            const C c = make<C>(n, d);
            if (d == 0) {
                must_raise([&] { (void)c.raw(); }, "value of a fraction with a zero denominator");
                must_raise([&] { (void)(c < c); }, "comparing fractions with a zero denominator");
                mc::cover("zero denominator");
                return;
            }
            int kind = mc::choose(4);
            if (kind == 3) return alone(c);
            int k = mc::choose(NN), l = mc::choose(ND);
            at(k, l, [&](auto t2) {
                using B = typename decltype(t2)::type;
                if (kind == 0) convert(c, Type<B>{}, k, l);
                else combine(c, Type<B>{}, k, l, kind == 2);
            });
        });
    }
    template <typename C, typename B> void convert(const C& c, Type<B>, int k, int l) {
        LD f = sp->nmag[i] / sp->nmag[k] / (sp->dmag[j] / sp->dmag[l]);
        mc::label("convert to scales %d/%d", k, l);
        if (INT) mc::assume(std::fmod((double)n * sp->nmag[i], sp->nmag[k]) == 0 && std::fmod((double)d * sp->dmag[j], sp->dmag[l]) == 0);
        B b(c);
        LD want = val(c) * f;
        is(b, want, fabsl(want), "conversion");
        B e = make<B>(3, 7);
        e = c;
        is(e, want, fabsl(want), "assignment");
        is(c, (LD)n / (LD)d, fabsl((LD)n / (LD)d), "source of a conversion");
        keep(b, k, l);
    }
    template <typename C, typename B> void combine(const C& c, Type<B>, int k, int l, bool compare) {
        VT bn = mc::pick(sp->others), bd = mc::pick(sp->other_dens);
        if (INT) mc::assume(std::fmod((double)bn * sp->nmag[k], sp->nmag[i]) == 0 && std::fmod((double)bd * sp->dmag[l], sp->dmag[j]) == 0);
        const B b = make<B>(bn, bd);
        if (bd == 0) {
            if (!compare) return;
            must_raise([&] { (void)(c == b); }, "== with a zero denominator");
            must_raise([&] { (void)(c > b); }, "> with a zero denominator");
            return;
        }
        LD f = sp->nmag[k] / sp->nmag[i] / (sp->dmag[l] / sp->dmag[j]);
        LD x = val(c), y = val(b) * f, scale = fabsl(x) + fabsl(y);
        if (!compare) {
            bool minus = mc::flip();
            mc::label("%c %s/%s in scales %d/%d", minus ? '-' : '+', mc::show(bn).c_str(), mc::show(bd).c_str(), k, l);
            LD want = minus ? x - y : x + y;
            if (INT) { // the result must be representable
                LD cn = (LD)bn * sp->nmag[k] / sp->nmag[i], cd = (LD)bd * sp->dmag[l] / sp->dmag[j], lim = 4e18L;
                mc::assume(fabsl(cn * d) < lim && fabsl(n * cd) < lim && fabsl(cn * d) + fabsl(n * cd) < lim && fabsl(cd * d) < lim);
            }
            C r = minus ? C(c - b) : C(c + b);
            is(r, want, scale, minus ? "difference" : "sum");
            C s = c;
            C& ref = minus ? s -= b : s += b;
            is(s, want, scale, minus ? "-=" : "+=");
            mc::check(&ref == &s, "compound assignment yields another object");
            mc::check(c.numerator().raw() == n && c.denominator().raw() == d && b.numerator().raw() == bn && b.denominator().raw() == bd, "an operand changed");
            keep(r, i, j);
            return;
        }
        mc::label("compare with %s/%s in scales %d/%d", mc::show(bn).c_str(), mc::show(bd).c_str(), k, l);
        bool eq = c == b, ne = c != b, lt = c < b, gt = c > b, le = c <= b, ge = c >= b;
        mc::eq(ne, !eq, "!=");
        mc::eq(le, !gt, "<=");
        mc::eq(ge, !lt, ">=");
        if (INT) {
            // integer compounds compare their values, whole numbers
            VT p = (VT)(n / d), q = (VT)((VT)(bn * sp->nmag[k] / sp->nmag[i]) / (VT)(bd * sp->dmag[l] / sp->dmag[j]));
            mc::eq(eq, p == q, "==");
            mc::eq(lt, p < q, "<");
            mc::eq(gt, p > q, ">");
        } else if (fabsl(x - y) > 4e-6L * scale) {
            mc::eq(eq, false, "==");
            mc::eq(lt, x < y, "<");
            mc::eq(gt, x > y, ">");
        } else {
            mc::cover("equal values");
            if (i == k && j == l && fabsl(x - y) <= 1e-8L * scale) mc::eq(eq, true, "== of equal fractions");
            if (C(b).raw() == c.raw()) {
                mc::eq(eq, true, "== of equal values");
                mc::eq(lt, false, "<");
                mc::eq(gt, false, ">");
            }
        }
    }
    template <typename C> void alone(const C& c) {
        LD x = val(c);
        switch (mc::choose(4)) {
        case 0: {
            mc::label("negate");
            C r = -c;
            is(r, -x, fabsl(x), "negation");
            keep(r, i, j);
            break;
        }
        case 1: {
            const VT s = mc::pick(sp->scalars);
            mc::label("* %s", mc::show(s).c_str());
            C r = c * s;
            is(r, x * s, fabsl(x * s), "scaling");
            C b = c;
            C& ref = b *= s;
            is(b, x * s, fabsl(x * s), "*=");
            mc::check(&ref == &b, "compound assignment yields another object");
            keep(r, i, j);
            break;
        }
        case 2: {
            const VT s = mc::pick(sp->scalars);
            mc::label("/ %s", mc::show(s).c_str());
            if (s == 0) {
                must_raise([&] { (void)(c / s); }, "/ 0");
                must_raise([&] { C b = c; b /= s; }, "/= 0");
                must_raise([&] { (void)(c / 0); }, "/ 0");
                break;
            }
            if (INT) mc::assume((long long)n % (long long)s == 0); // dividing scales the numerator
            C r = c / s;
            is(r, x / s, fabsl(x / s), "division");
            C b = c;
            C& ref = b /= s;
            is(b, x / s, fabsl(x / s), "/=");
            mc::check(&ref == &b, "compound assignment yields another object");
            keep(r, i, j);
            break;
        }
        case 3: {
            int f = mc::choose(4);
            mc::label("reduce, precision %d", f);
            C r = c;
            if (f == 0) r.simplify();
            else r.simplify(f == 1 ? 1.0f : f == 2 ? 100.0f : 1e3f);
            is(r, x, fabsl(x), "reduction");
            if (INT) {
                mc::eq(std::gcd((long long)r.numerator().raw(), (long long)r.denominator().raw()), n == 0 ? std::abs((long long)r.denominator().raw()) : 1LL, "common divisor left by a reduction");
            }
            keep(r, i, j);
            break;
        }
        }
    }
};
using Real = Compound<float, std::tuple<meter_m, meter, meter_k>, std::tuple<time_ms, time_s, time_h>>;
using Kernel = Compound<spnu::KernelTimeRawType, std::tuple<k_time_ms, k_time_s>, std::tuple<k_time_us, k_time_m>>;
template <typename C> static void add(const char* name, typename C::Spec s, int depth) {
    auto* p = new typename C::Spec(std::move(s));
    mc::config(name, [p] { return new C(p); }, depth, {6000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Real::Spec r;
    r.nmag = {1e-3L, 1, 1e3L};
    r.dmag = {1e-3L, 1, 3600};
    {
        auto s = r;
        s.nums = {0, 1, -1, 2, 3, 0.5f, -0.25f, 7.125f, 100, -999, 12345, 1e-4f, 33333.3f, -0.1f};
        s.dens = {0, 1, -1, 2, 3, 0.5f, -4, 60, 0.01f, 3600, 1e5f, -0.1f};
        s.others = {0, 1, -1, 0.5f, 3, -42, 1e4f, 1e-3f};
        s.other_dens = {0, 1, -1, 2, 0.1f, 1000};
        s.scalars = {0, 1, -1, 2, 0.5f, 10, -3, 1e3f, 1e-3f};
        add<Real>("real, single operations", s, 1);
        s.nums = {0, 1, -2.5f, 600};
        s.dens = {1, -3, 0.25f};
        s.others = {1, -2.5f, 0};
        s.other_dens = {1, -3};
        s.scalars = {-2, 0.5f};
        add<Real>("real, histories", s, 2);
        if (th) {
            s.nums = {1, -2.5f};
            s.dens = {-3};
            s.others = {1};
            s.other_dens = {-3};
            s.scalars = {0.5f};
            add<Real>("real, longer histories", s, 3);
        }
    }
    Kernel::Spec k;
    k.nmag = {1, 1000};
    k.dmag = {1, 60e6L};
    {
        auto s = k;
        s.nums = {0, 1, -1, 2, 3, 12, -18, 360, 1000, 12345, 1LL << 25, -((1LL << 25) + 1)};
        s.dens = {0, 1, -1, 2, 3, -4, 60, 360, (1LL << 24) + 1};
        s.others = {0, 1, -1, 6, -1000, 5000};
        s.other_dens = {0, 1, -1, 2, 9, 60000000};
        s.scalars = {0, 1, -1, 2, 6, -3};
        add<Kernel>("integer, single operations", s, 1);
        s.nums = {0, 6, -20, 600};
        s.dens = {1, -3, 4};
        s.others = {1, -2, 1000};
        s.other_dens = {1, -3};
        s.scalars = {-2, 3};
        add<Kernel>("integer, histories", s, 3);
        if (th) {
            s.nums = {6, -20};
            s.dens = {-3};
            s.others = {-2};
            s.other_dens = {-3};
            s.scalars = {3};
            add<Kernel>("integer, longer histories", s, 5);
        }
    }
}
