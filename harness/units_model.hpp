// One driver for structure::units::Unit: a quantity that is converted, combined, scaled and compared through all
// scales of its dimension. Integer units (P16) are compared with exact integer arithmetic, real ones (P17) with the
// ratio of their scales up to rounding.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <limits>
#include <numeric>
#include <tuple>
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/structure/units/si.hpp"

namespace um {
struct Raised {
    char type[32], msg[64];
};
struct Thrower : spn::core::ExceptionHandler { // what a user of the library installs on a host
    int* count;
    explicit Thrower(int* c) : count(c) {}
    void handle_exception(const spn::core::Exception& e) override {
        ++*count;
        Raised r{};
        snprintf(r.type, sizeof r.type, "%s", e.error_type());
        snprintf(r.msg, sizeof r.msg, "%s", e.what());
        throw r;
    }
};
struct WithHandler : mc::Model {
    int raised = 0;
    WithHandler() { (void)spn::core::set_machine_exception_handler(std::make_unique<Thrower>(&raised)); }
    ~WithHandler() override { (void)spn::core::set_machine_exception_handler(nullptr); }
    template <typename F> void must_raise(F f, const char* what) {
        raised = 0;
        try {
            f();
        } catch (const Raised&) {
            mc::eq(raised, 1, "exceptions raised");
            raised = 0;
            return;
        }
        mc::fail("%s raised nothing", what);
    }
};

using I128 = __int128;
using LD = long double;

template <typename VT> struct Spec {
    std::vector<LD> mag;        // magnitude of each scale
    std::vector<VT> values, others, scalars;
    bool conversions_only = false;
};

template <typename VT, typename... U> struct UnitModel : WithHandler {
    static constexpr int N = sizeof...(U);
    static constexpr bool INT = std::is_integral_v<VT>;
    const Spec<VT>* spec;
    int u;
    VT v;
    explicit UnitModel(const Spec<VT>* s) : spec(s) {
        u = mc::choose(N);
        v = mc::pick(s->values);
        mc::label("value %s in scale %d", mc::show(v).c_str(), u);
    }
    // run f with an object of type U_i
    template <typename F, size_t... I> static void at_impl(int i, F&& f, std::index_sequence<I...>) {
        (void)((i == (int)I ? (f(static_cast<std::tuple_element_t<I, std::tuple<U...>>*>(nullptr)), true) : false) || ...);
    }
    template <typename F> static void at(int i, F&& f) { at_impl(i, f, std::make_index_sequence<N>()); }

    // x in scale `from`, expressed in scale `to`; false when it cannot be represented
    bool conv(VT x, int from, int to, VT& out) const {
        if constexpr (INT) {
            I128 a = x, f = (I128)spec->mag[from], t = (I128)spec->mag[to], q;
            if (f >= t) q = a * (f / t);
            else {
                I128 r = t / f, m = a < 0 ? -a : a;
                q = m / r + (m % r >= r - m % r ? 1 : 0);
                if (a < 0) q = -q;
            }
            if (q > std::numeric_limits<VT>::max() || q < std::numeric_limits<VT>::min()) return false;
            out = (VT)q;
        } else {
            LD q = (LD)x * spec->mag[from] / spec->mag[to];
            if (q != 0 && (fabsl(q) > 1e30L || fabsl(q) < 1e-30L)) return false;
            out = (VT)q;
        }
        return true;
    }
    static void close(VT got, LD want, LD scale, const char* what) {
        mc::observe(got);
        if constexpr (INT) {
            if ((LD)got != want) mc::fail("%s: got %s, expected %.0Lf", what, mc::show(got).c_str(), want);
        } else if (!(fabsl((LD)got - want) <= 2e-6L * scale)) mc::fail("%s: got %.9g, expected %.9Lg", what, (double)got, want);
    }
    static bool fits(I128 x) { return x <= std::numeric_limits<VT>::max() && x >= -(I128)std::numeric_limits<VT>::max(); }
    void set(VT got, int unit) {
        v = got;
        u = unit;
    }
    void step() override {
        at(u, [&](auto* ua) {
            using A = std::remove_pointer_t<decltype(ua)>;
            mc::eq(A{}.raw(), VT(0), "a quantity that was given no value");
            int kind = spec->conversions_only ? 0 : mc::choose(3);
            if (kind == 2) scalar(A(v));
            else {
                int j = mc::choose(N);
                at(j, [&](auto* ub) {
                    using B = std::remove_pointer_t<decltype(ub)>;
                    if (kind == 0) convert(A(v), static_cast<B*>(nullptr), j);
                    else combine(A(v), static_cast<B*>(nullptr), j);
                });
            }
        });
    }
    template <typename A, typename B> void convert(A a, B*, int j) {
        VT want;
        mc::assume(conv(v, u, j, want));
        mc::label("convert to scale %d", j);
        LD scale = INT ? 0 : fabsl((LD)v * spec->mag[u] / spec->mag[j]);
        LD exact = INT ? (LD)want : (LD)v * spec->mag[u] / spec->mag[j];
        B b(a);
        close(b.raw(), exact, scale, "conversion");
        B c;
        c = a;
        close(c.raw(), exact, scale, "assignment");
        B d;
        d = A(v);
        close(d.raw(), exact, scale, "assignment of a temporary");
        B e(7);
        e = std::move(a);
        close(e.raw(), exact, scale, "move assignment");
        VT back;
        if (conv(want, j, u, back)) {
            A r(b);
            if constexpr (INT) close(r.raw(), (LD)back, 0, "conversion back");
            else close(r.raw(), (LD)v, fabsl((LD)v), "conversion back");
            if (INT && spec->mag[j] <= spec->mag[u]) mc::eq(r.raw(), v, "conversion to a finer scale and back");
        }
        mc::eq(b.is_negative(), b.raw() < 0, "is_negative");
        mc::eq(b.template raw<double>(), (double)b.raw(), "raw<double>");
        set(b.raw(), j);
    }
    template <typename A, typename B> void combine(A a, B*, int j) {
        int op = mc::choose(4);
        VT w = mc::pick(spec->others), c;
        mc::assume(conv(w, j, u, c));
        const B b(w);
        LD lb = INT ? (LD)c : (LD)w * spec->mag[j] / spec->mag[u], la = (LD)v;
        LD scale = fabsl(la) + fabsl(lb);
        switch (op) {
        case 0:
        case 1: {
            if (INT) mc::assume(fits(op == 0 ? (I128)v + (I128)c : (I128)v - (I128)c));
            mc::label("%c %s in scale %d", op ? '-' : '+', mc::show(w).c_str(), j);
            LD want = INT ? (LD)(VT)(op == 0 ? v + c : v - c) : op == 0 ? la + lb : la - lb;
            A r = op == 0 ? a + b : a - b;
            close(r.raw(), want, scale, op ? "difference" : "sum");
            A s(v);
            A& ref = op == 0 ? s += b : s -= b;
            close(s.raw(), want, scale, op ? "-=" : "+=");
            mc::check(&ref == &s, "compound assignment yields another object");
            mc::eq(a.raw(), v, "left operand");
            mc::eq(b.raw(), w, "right operand");
            set(r.raw(), u);
            break;
        }
        case 2: {
            mc::label("/ %s in scale %d", mc::show(w).c_str(), j);
            if (c == 0) {
                mc::assume(INT || w == 0);
                must_raise([&] { (void)(a / b); }, "division by a zero quantity");
                mc::cover("division by zero");
                break;
            }
            if (INT) mc::assume(!(c == -1 && v == std::numeric_limits<VT>::min()));
            LD want = INT ? (LD)(VT)(v / c) : la / lb;
            if (!INT) mc::assume(fabsl(want) < 1e30L && (want == 0 || fabsl(want) > 1e-30L));
            A r = a / b;
            close(r.raw(), want, fabsl(want), "quotient");
            set(r.raw(), u);
            break;
        }
        case 3: {
            mc::label("compare with %s in scale %d", mc::show(w).c_str(), j);
            bool eq = a == b, ne = a != b, lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
            mc::eq(ne, !eq, "!=");
            mc::eq(le, !gt, "<=");
            mc::eq(ge, !lt, ">=");
            mc::check(!(lt && gt), "both < and >");
            if (INT) {
                mc::eq(eq, v == c, "==");
                mc::eq(lt, v < c, "<");
                mc::eq(gt, v > c, ">");
            } else if (fabsl(la - lb) > 2e-6L * scale) {
                mc::eq(eq, false, "==");
                mc::eq(lt, la < lb, "<");
                mc::eq(gt, la > lb, ">");
            } else {
                VT conv_b = A(b).raw();
                if (conv_b == v) {
                    mc::cover("exactly equal across scales");
                    mc::eq(eq, true, "==");
                    mc::eq(lt, false, "<");
                    mc::eq(gt, false, ">");
                }
            }
            break;
        }
        }
    }
    template <typename A> void scalar(A a) {
        int op = mc::choose(3);
        if (op == 2) {
            mc::assume(!INT || v != std::numeric_limits<VT>::min());
            mc::label("negate");
            A r = -a;
            mc::eq(r.raw(), (VT)-v, "negation");
            set(r.raw(), u);
            return;
        }
        VT s = mc::pick(spec->scalars);
        mc::label("%c %s", op ? '/' : '*', mc::show(s).c_str());
        if (op == 1 && s == 0) {
            must_raise([&] { (void)(a / s); }, "division by zero");
            A b(v);
            must_raise([&] { b /= s; }, "division by zero");
            must_raise([&] { b /= 0; }, "division by zero");
            mc::cover("division by zero");
            return;
        }
        if (INT) mc::assume(op == 0 ? fits((I128)v * (I128)s) : !(s == -1 && v == std::numeric_limits<VT>::min()));
        LD want = INT ? (LD)(VT)(op == 0 ? v * s : v / s) : op == 0 ? (LD)v * s : (LD)v / s;
        if (!INT) mc::assume(fabsl(want) < 1e30L && (want == 0 || fabsl(want) > 1e-30L));
        A r = op == 0 ? a * s : a / s;
        close(r.raw(), want, fabsl(want), op ? "/ scalar" : "* scalar");
        A b(v);
        A& ref = op == 0 ? b *= s : b /= s;
        close(b.raw(), want, fabsl(want), op ? "/= scalar" : "*= scalar");
        mc::check(&ref == &b, "compound assignment yields another object");
        if (s == (VT)(int)s) {
            int i = (int)s;
            A k = op == 0 ? a * i : a / i;
            close(k.raw(), want, fabsl(want), op ? "/ int" : "* int");
        }
        set(r.raw(), u);
    }
};
template <typename VT, typename... U> inline void add(const char* name, Spec<VT> spec, int depth) {
    auto* s = new Spec<VT>(std::move(spec));
    mc::config(name, [s] { return new UnitModel<VT, U...>(s); }, depth, {3000000});
}
} // namespace um
