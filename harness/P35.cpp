// P35: points and pairs.
#include "ref.hpp"
#include <climits>
#include <cmath>
#include <string>
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
using namespace spn::structure;

template <typename T> struct Kind;
template <typename T, int N> struct Ref {
    T v[N]{};
};
template <typename T, int N> using Point = std::conditional_t<N == 3, XYZPoint<T>, XYPoint<T>>;
template <typename T, int N> static Point<T, N> make(const Ref<T, N>& r) {
    if constexpr (N == 3) return {r.v[0], r.v[1], r.v[2]};
    else return {r.v[0], r.v[1]};
}
template <typename T, int N> static T part(const Point<T, N>& p, int i) {
    if constexpr (N == 3) return i == 0 ? p.x : i == 1 ? p.y : p.z;
    else return i == 0 ? p.x : p.y;
}
template <typename T, int N> static void same(const Point<T, N>& p, const Ref<T, N>& r, const char* what) {
    for (int i = 0; i < N; i++) {
        T got = part<T, N>(p, i);
        mc::observe((double)got);
        if (!(got == r.v[i])) mc::fail("%s: component %d is %g, expected %g", what, i, (double)got, (double)r.v[i]);
    }
}
template <typename T, int N> struct Model : mc::Model {
    std::vector<T> values, scalars;
    double limit = 1e6; // how far sums and products may grow
    Ref<T, N> a;
    Point<T, N> p;
    Model() { same<T, N>(p, a, "default point"); }
    Ref<T, N> any() {
        Ref<T, N> r;
        for (auto& x : r.v) x = mc::pick(values);
        if constexpr (N == 3) mc::label("(%g, %g, %g)", (double)r.v[0], (double)r.v[1], (double)r.v[2]);
        else mc::label("(%g, %g)", (double)r.v[0], (double)r.v[1]);
        return r;
    }
    void step() override {
        int op = mc::choose(10);
        static const char* names[] = {"set", "+", "-", "*", "/", "%", "add", "subtract", "scalar_multiplication", "normalize"};
        mc::label("%s", names[op]);
        Ref<T, N> b, w;
        if (op < 8) b = any();
        auto q = make<T, N>(b);
        auto each = [&](auto f) {
            for (int i = 0; i < N; i++) w.v[i] = f(a.v[i], b.v[i]);
            return w;
        };
        if constexpr (std::is_integral_v<T>) { // results that the type cannot hold are nobody's promise
            if (op == 3)
                for (int i = 0; i < N; i++) mc::assume(std::llabs((long long)a.v[i] * b.v[i]) <= INT_MAX);
        }
        const auto& cp = p;
        if (op < 8) {
            bool equal = true;
            for (int i = 0; i < N; i++) equal = equal && a.v[i] == b.v[i];
            mc::eq(cp == q, equal, "==");
            mc::eq(cp != q, !equal, "!=");
            if (equal) mc::cover("equal points");
        }
        switch (op) {
        case 0: p = q; a = b; break;
        case 1: same<T, N>(cp + q, each([](T x, T y) { return (T)(x + y); }), "sum"); break;
        case 2: same<T, N>(cp - q, each([](T x, T y) { return (T)(x - y); }), "difference"); break;
        case 3:
            same<T, N>(cp * q, each([](T x, T y) { return (T)(x * y); }), "product");
            same<T, N>(cp.dot(q), w, "dot"); // also by component
            break;
        case 4:
            for (auto x : b.v) mc::assume(x != 0);
            same<T, N>(cp / q, each([](T x, T y) { return (T)(x / y); }), "quotient");
            break;
        case 5:
            if constexpr (std::is_integral_v<T>) {
                for (auto x : b.v) mc::assume(x != 0);
                same<T, N>(cp % q, each([](T x, T y) { return (T)(x % y); }), "remainder");
            } else
                mc_prune();
            break;
        case 6: p.add(q); a = each([](T x, T y) { return (T)(x + y); }); break;
        case 7: p.subtract(q); a = each([](T x, T y) { return (T)(x - y); }); break;
        case 8: {
            T s = mc::pick(scalars);
            mc::label("by %g", (double)s);
            if constexpr (std::is_integral_v<T>)
                for (auto x : a.v) mc::assume(std::llabs((long long)x * s) <= INT_MAX);
            p.scalar_multiplication(s);
            for (auto& x : a.v) x *= s;
            break;
        }
        default:
            if constexpr (!std::is_integral_v<T>) {
                double m = 0;
                for (auto x : a.v) m += (double)x * (double)x;
                m = std::sqrt(m);
                mc::assume(m > 0);
                p.normalize();
                double l = 0;
                for (int i = 0; i < N; i++) {
                    double got = part<T, N>(p, i), want = (double)a.v[i] / m;
                    if (!(std::fabs(got - want) <= 1e-5)) mc::fail("normalized component %d is %g, expected %g", i, got, want);
                    l += got * got;
                }
                if (!(std::fabs(l - 1) < 1e-5) || !(std::fabs((double)p.mag() - 1) < 1e-5)) mc::fail("length after normalizing: %g, %g", std::sqrt(l), (double)p.mag());
                p = make<T, N>(a);
                mc::cover("normalized");
            } else
                mc_prune();
        }
        same<T, N>(p, a, "point");
        same<T, N>(q, b, "other operand");
        for (auto x : a.v) mc::assume(std::fabs((double)x) <= limit);
        double m = 0;
        for (auto x : a.v) m += (double)x * (double)x;
        if (std::is_integral_v<T> && m > (double)std::numeric_limits<T>::max()) return mc::cover("magnitude out of reach");
        m = std::sqrt(m);
        if (std::is_integral_v<T>) m = std::floor(m + 1e-9);
        if (!(std::fabs((double)p.mag() - m) <= 1e-5 * (1 + m))) mc::fail("magnitude %g, expected %g", (double)p.mag(), m);
    }
};
struct Pair : mc::Model {
    Tuple<int64_t, std::string> t{1, "first text"};
    Tuple<std::string, std::string> s{"left", "right"};
    int64_t n = 1, k = 0, l = 0, r = 0;
    static std::string text(int64_t i) { return "text number " + std::to_string(i); }
    Pair() {
        s.first() = text(0);
        s.second() = text(0);
        t.second() = text(0);
    }
    void step() override {
        int op = mc::choose(5), v = mc::choose(4);
        mc::label("change %d to %d", op, v);
        switch (op) {
        case 0: t.first() = n = v; break;
        case 1: t.second() = text(k = v); break;
        case 2: s.first() = text(l = v); break;
        case 3: s.second() = text(r = v); break;
        default: {
            Tuple<int64_t, std::string> u(t), w(v, text(9));
            u.first() = 77;
            mc::check(u.second() == text(k) && w.first() == v && w.second() == text(9), "copy of a pair");
        }
        }
        mc::eq(t.first(), n, "first value");
        mc::check(t.second() == text(k), "second value: %s", t.second().c_str());
        mc::check(s.first() == text(l) && s.second() == text(r), "pair of texts: %s, %s", s.first().c_str(), s.second().c_str());
    }
};
template <typename T, int N> static void add(const char* name, std::vector<T> v, std::vector<T> s, int depth, double limit = 1e6) {
    mc::config(name, [=] {
        auto* m = new Model<T, N>;
        m->limit = limit;
        m->values = v;
        m->scalars = s;
        return m;
    }, depth, {4000000});
}
MC_MAIN {
    int th = mc::thorough();
    add<int, 2>("int 2d", {-3, 0, 1, 2, 7}, {-1, 0, 3}, 3 + th);
    add<int, 3>("int 3d", {-3, 0, 2, 7}, {-1, 3}, 2 + th);
    // squares of the components need not fit; the magnitude is judged where their sum does
    add<int, 2>("int 2d, large", {0, 46340, -46341, 60000, 1000000000}, {-1, 0, 3}, 2 + th, 1.1e9);
    add<int, 3>("int 3d, large", {0, -46341, 60000, 1000000000}, {-1, 3}, 2, 1.1e9);
    add<double, 2>("double 2d", {-2.5, 0, 0.125, 4}, {-1, 0.5}, 3 + th);
    add<double, 3>("double 3d", {-2.5, 0, 0.125, 4}, {-1, 0.5}, 2 + th);
    add<float, 3>("float 3d", {-2.5f, 0, 4}, {2}, 2 + th);
    mc::config("pairs", [] { return new Pair; }, 4);
}
