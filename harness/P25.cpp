// P25: filters and the filter stack.
#include "units_model.hpp"
#include <cmath>
#include <memory>
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;

template <typename V> static void close(double got, double want, double scale, const char* what) {
    mc::observe(got);
    double eps = (sizeof(V) == 4 ? 2e-5 : 1e-12) * std::max({1e-3, std::fabs(want), scale});
    if (!(std::fabs(got - want) <= eps)) mc::fail("%s: got %.9g, expected %.9g", what, got, want);
}

// what each filter is documented to compute
enum Kind : int64_t { PASS, MEAN, MIRROR, MAP, AFFINE, SUM };
struct Ref {
    int64_t kind = PASS, n = 0, report = 0;
    double a = 0, b = 0, c = 0, d = 0, v = 0;
    double feed(double x) {
        switch (kind) {
        case PASS: v = x; break;
        case MEAN:
            n++;
            v = n == 1 ? x : v + (x - v) / std::min<double>((double)n, a);
            if (n > 1000) n = 1000;
            break;
        case MIRROR: v = b - (x - a); break;
        case MAP: v = c + (std::min(std::max(x, a), b) - a) / (b - a) * (d - c); break;
        case AFFINE: v = a * x + b; break;
        case SUM: v += x; break;
        }
        return v;
    }
    void reset(double x) {
        v = x;
        n = 0;
    }
    bool outside(double x) const { return kind == MAP && (x < a || x > b); }
};
template <typename V> struct Affine : Filter<V> { // a user's own filters
    double a, b;
    V v = 0;
    Affine(double p, double q) : a(p), b(q) {}
    V value(V s) override { return v = (V)(a * s + b); }
    V value() const override { return v; }
    void new_sample(V s) override { value(s); }
    void reset_to(V x) override { v = x; }
};
template <typename V> struct Sum : Filter<V> {
    V v = 0;
    V value(V s) override { return v += s; }
    V value() const override { return v; }
    void new_sample(V s) override { value(s); }
    void reset_to(V x) override { v = x; }
};
template <typename V> static std::unique_ptr<Filter<V>> make(const Ref& r) {
    switch (r.kind) {
    case MEAN: return std::make_unique<EWMA<V>>(typename EWMA<V>::Config{(V)r.a});
    case MIRROR: return std::make_unique<Invert<V>>(typename Invert<V>::Config{(V)r.a, (V)r.b});
    case MAP: return std::make_unique<MappedRange<V>>(typename MappedRange<V>::Config{(V)r.a, (V)r.b, (V)r.c, (V)r.d, r.report != 0});
    case AFFINE: return std::make_unique<Affine<V>>(r.a, r.b);
    case SUM: return std::make_unique<Sum<V>>();
    default: return std::make_unique<Passthrough<V>>(typename Passthrough<V>::Config{});
    }
}
struct Case {
    Ref r;
    int ready_made = 0;
};
template <typename V> struct Spec {
    std::vector<Case> cases;
    std::vector<double> samples;
    std::vector<int> repeats{1};
};
template <typename V> struct One : um::WithHandler {
    const Spec<V>* s;
    Ref r;
    std::unique_ptr<Filter<V>> f;
    int64_t known = 0; // whether a value was computed or set
    int64_t which;
    double scale = 1;
    explicit One(const Spec<V>* sp) : s(sp) {
        which = mc::choose((int)s->cases.size());
        const Case& c = s->cases[(size_t)which];
        r = c.r;
        mc::label("filter kind %d (%g, %g, %g, %g)", (int)r.kind, r.a, r.b, r.c, r.d);
        switch (c.ready_made) {
        case 1: f = EWMA<V>::Short(); break;
        case 2: f = EWMA<V>::Long(); break;
        case 3: f = Invert<V>::NormalizedInverter(); break;
        case 4: f = Invert<V>::NormalizedInverter((V)r.a, (V)r.b); break;
        case 5: f = MappedRange<V>::Percentage(); break;
        case 6: f = MappedRange<V>::Percentage((V)r.a, (V)r.b); break;
        case 7: f = MappedRange<V>::Permillage(); break;
        case 8: f = MappedRange<V>::Permillage((V)r.a, (V)r.b); break;
        case 9: f = std::make_unique<MappedRange<V>>(typename MappedRange<V>::Config{}); break;
        case 10: f = std::make_unique<Invert<V>>(typename Invert<V>::Config{}); break;
        default: f = make<V>(r);
        }
        for (double x : s->samples) scale = std::max(scale, std::fabs(x));
        scale = std::max({scale, std::fabs(r.c), std::fabs(r.d)});
    }
    V call(double x, int how) {
        if (how == 0) return f->value((V)x);
        if (how == 1) {
            f->new_sample((V)x);
            return f->value();
        }
        switch (r.kind) {
        case MEAN: return static_cast<EWMA<V>&>(*f)((V)x);
        case MIRROR: return static_cast<Invert<V>&>(*f)((V)x);
        case MAP: return static_cast<MappedRange<V>&>(*f)((V)x);
        default: return static_cast<Passthrough<V>&>(*f)((V)x);
        }
    }
    void step() override {
        if (mc::choose(4) == 0) {
            double x = mc::pick(s->samples);
            mc::label("reset_to(%g)", x);
            f->reset_to((V)x);
            r.reset(x);
            known = 1;
        } else {
            double x = mc::pick(s->samples);
            int times = mc::pick(s->repeats), how = mc::choose(3);
            if (r.kind == MIRROR) mc::assume(x >= r.a && x <= r.b);
            mc::label("%d x sample %g (%s)", times, x, how == 0 ? "value" : how == 1 ? "new_sample" : "()");
            for (int i = 0; i < times; i++) {
                if (r.outside(x) && r.report) {
                    must_raise([&] { call(x, how); }, "an out of range value");
                    mc::cover("out of range reported");
                    if (known) close<V>(f->value(), r.v, scale, "value after a report");
                    continue;
                }
                double want = r.feed(x);
                known = 1;
                close<V>(call(x, how), want, scale, "filtered value");
                if (r.kind == MEAN && r.n > (int64_t)r.a) mc::cover("window full");
            }
        }
        mc::eq(raised, 0, "unexpected reports");
        if (known) close<V>(f->value(), r.v, scale, "value()");
    }
};
// a report through a handler that returns: the value is limited all the same
template <typename V> struct Limited : mc::Model {
    struct Counter : spn::core::ExceptionHandler {
        int* n;
        explicit Counter(int* c) : n(c) {}
        void handle_exception(const spn::core::Exception&) override { ++*n; }
    };
    int reports = 0, want = 0;
    double now = 0;
    int64_t known = 0;
    MappedRange<V> f{typename MappedRange<V>::Config{(V)-0.5, (V)4.5, (V)20, (V)70, true}};
    Limited() { (void)spn::core::set_machine_exception_handler(std::make_unique<Counter>(&reports)); }
    ~Limited() override { (void)spn::core::set_machine_exception_handler(nullptr); }
    void step() override {
        double x = mc::pick(std::vector<double>{-1000, -0.75, -0.5, 1.5, 4.5, 4.75});
        bool out = x < -0.5 || x > 4.5;
        double lim = std::min(std::max(x, -0.5), 4.5);
        mc::label("sample %g", x);
        reports = 0;
        now = 20 + (lim + 0.5) * 10;
        int how = mc::choose(3);
        if (how == 0) close<V>(f.value((V)x), now, 100, "value of a sample");
        if (how == 1) f.new_sample((V)x);
        if (how == 2) close<V>(f((V)x), now, 100, "value of a sample");
        const auto& c = f;
        close<V>(c.value(), now, 100, "value()");
        mc::eq(reports, out ? 1 : 0, "reports");
        if (out) mc::cover("limited after a report");
    }
};
// mean over many samples against the plain definition
template <typename V> struct Mean : mc::Model {
    std::vector<int> lengths;
    std::vector<V> ks;
    void step() override {
        V k = mc::pick(ks);
        int n = mc::pick(lengths), p = 1 + mc::choose(5);
        EWMA<V> f(typename EWMA<V>::Config{k});
        mc::label("window %g, %d samples, pattern %d", (double)k, n, p);
        double sum = 0, v = 0;
        for (int i = 1; i <= n; i++) {
            double x = (i * p) % 7 - 2.5 + (i % p);
            sum += x;
            v = i <= (int)k ? sum / i : v + (x - v) / (double)k;
            close<V>(f.value((V)x), v, 8, i <= (int)k ? "running mean" : "weighted mean");
        }
        mc::cover("long runs");
    }
};
template <typename V> struct Chain : um::WithHandler {
    const Spec<V>* s;
    int64_t slots;
    Stack<V> stack;
    ref::Seq<Ref, 6> in;
    int64_t sampled = 0; // the last filter has computed something or was set
    std::unique_ptr<Filter<V>> held; // last one detached
    Ref held_ref{};
    int64_t held_known = 0;
    explicit Chain(const Spec<V>* sp) : s(sp), slots(mc::choose(5)), stack((uint8_t)slots) { mc::label("%d slots", (int)slots); }
    void step() override {
        switch (mc::choose(7)) {
        case 0: {
            Ref r = mc::pick(s->cases).r;
            mc::label("attach kind %d (%g, %g)", (int)r.kind, r.a, r.b);
            stack.attach_filter(make<V>(r));
            if ((int64_t)in.size() < slots) {
                in.push_back(r);
                sampled = 0;
            } else
                mc::cover("full stack");
            break;
        }
        case 1: {
            int i = mc::choose((int)in.size() + 1);
            mc::label("detach %d", i);
            auto f = stack.detach_filter((uint8_t)i);
            if (i >= (int)in.size()) {
                mc::check(!f, "detaching a filter that is not there returned one");
                break;
            }
            mc::check(f != nullptr, "detach returned nothing");
            if (i + 1 == (int)in.size()) sampled = 0; // the one before it may not have seen a sample
            Ref r = in.erase((size_t)i);
            close<V>(f->value(5), r.feed(5), 100, "value of the detached filter");
            mc::cover("detached");
            break;
        }
        case 2:
        case 3: {
            double x = mc::pick(s->samples);
            bool only = mc::flip();
            mc::label("%s(%g)", only ? "new_sample" : "value", x);
            double want = x;
            for (auto& r : in) want = r.feed(want);
            if (only) stack.new_sample((V)x);
            else close<V>(stack.value((V)x), want, 300, "filtered value");
            sampled = 1;
            break;
        }
        case 4: {
            double x = mc::pick(s->samples);
            mc::label("reset_to(%g)", x);
            stack.reset_to((V)x);
            for (auto& r : in) r.reset(x);
            sampled = 1;
            break;
        }
        default: break;
        }
        mc::eq((int64_t)stack.filter_slots(), slots, "slots");
        mc::eq((int64_t)stack.filter_slots_occupied(), (int64_t)in.size(), "occupied slots");
        const Stack<V>& c = stack;
        if (in.empty()) mc::eq(c.value(), V(0), "value of an empty stack");
        else if (sampled) close<V>(c.value(), in.back().v, 300, "value()");
    }
};
// as many slots as can be asked for
template <typename V> struct Slots : um::WithHandler {
    void step() override {
        int slots = mc::pick(std::vector<int>{0, 1, 127, 128, 129, 254, 255}), extra = mc::choose(3);
        mc::label("%d slots, %d filters", slots, slots + extra);
        Stack<V> stack((uint8_t)slots);
        mc::eq(stack.filter_slots(), (size_t)slots, "slots");
        for (int i = 0; i < slots + extra; i++) {
            stack.attach_filter(std::make_unique<Affine<V>>(1, i));
            mc::eq(stack.filter_slots_occupied(), (size_t)std::min(i + 1, slots), "occupied slots");
        }
        mc::eq(stack.value(V(2)), V(2 + slots * (slots - 1) / 2), "filtered value");
        if (!slots) return;
        int at = mc::pick(std::vector<int>{0, 126, 127, 128, 253, 254});
        mc::assume(at < slots);
        auto f = stack.detach_filter((uint8_t)at);
        mc::check(f != nullptr, "nothing detached");
        mc::eq(f->value(V(1)), V(1 + at), "the detached filter");
        mc::eq(stack.filter_slots_occupied(), (size_t)slots - 1, "occupied slots");
        mc::eq(stack.value(V(2)), V(2 + slots * (slots - 1) / 2 - at), "filtered value");
        stack.reset_to(V(6));
        mc::eq(stack.value(), slots > 1 ? V(6) : V(0), "value after a reset");
        mc::eq(raised, 0, "unexpected reports");
        mc::cover("all slots");
    }
};
template <typename M, typename S> static void add(const std::string& name, S s, int depth) {
    auto* p = new S(std::move(s));
    mc::config((new std::string(name))->c_str(), [p] { return new M(p); }, depth, {6000000});
}
static Case C(int64_t kind, double a = 0, double b = 0, double c = 0, double d = 0, int ready = 0, bool report = false) {
    Case x;
    x.r.kind = kind;
    x.r.a = a, x.r.b = b, x.r.c = c, x.r.d = d;
    x.r.report = report;
    x.ready_made = ready;
    return x;
}
template <typename V> static void all(const std::string& t) {
    bool th = mc::thorough();
    Spec<V> s;
    s.cases = {C(MEAN, 1), C(MEAN, 2), C(MEAN, 3)};
    s.samples = {-5, 0, 3.5, 100};
    add<One<V>>("moving average " + t, s, th ? 6 : 5);
    s.cases = {C(MEAN, 10, 0, 0, 0, 1), C(MEAN, 100, 0, 0, 0, 2), C(MEAN, 4)};
    s.samples = {-2, 40};
    s.repeats = {1, 8, 95};
    add<One<V>>("long windows " + t, s, th ? 5 : 4);
    auto* m = new Mean<V>;
    m->lengths = {1, 2, 9, 10, 11, 40, 99, 100, 101, 250};
    m->ks = {1, 2, 3, 7, 10, 100};
    mc::config((new std::string("plain mean " + t))->c_str(), [m] { return new Mean<V>(*m); }, 1);
    s.repeats = {1};
    s.cases = {C(MIRROR, 0, 1, 0, 0, 3), C(MIRROR, 2, 10), C(MIRROR, -8, 4, 0, 0, 4), C(MIRROR, -8, 4), C(MIRROR, 0, 1, 0, 0, 10), C(MIRROR, -8.5, 4.25, 0, 0, 4), C(MIRROR, 0.125, 3.75), C(PASS)};
    s.samples = {-8, -0.5, 0, 0.25, 1, 2, 3.5, 4, 10};
    add<One<V>>("mirror " + t, s, 3);
    s.cases = {C(MAP, 0, 1, 0, 100, 5), C(MAP, 2, 10, 0, 100, 6), C(MAP, 0, 1, 0, 1000, 7), C(MAP, -5, 5, 0, 1000, 8),
               C(MAP, 0, 10, 100, -100), C(MAP, -4, 4, 20, 30), C(MAP, -4, 4, 20, 30, 0, true), C(MAP, 0, 1, 0, 100, 0, true), C(MAP, 0, 1, 5, 5),
               C(MAP, 0, 1, 0, 100, 9), C(MAP, -0.25, 9.75, 100.5, -99.25), C(MAP, 0.125, 4.5, 0, 100, 6), C(MAP, -0.75, 5.25, 0, 1000, 8)};
    s.samples = {-1000, -4, -0.5, 0, 0.25, 1, 1.0625, 5, 10, 400};
    add<One<V>>("map " + t, s, 3);
    mc::config((new std::string("limited " + t))->c_str(), [] { return new Limited<V>; }, 3);
    Spec<V> c;
    c.cases = {C(AFFINE, 2, 1), C(SUM), C(MIRROR, -1000, 1000), C(MAP, 0, 10, 0, 100), C(MEAN, 2)};
    c.samples = {3.5, 20};
    add<Chain<V>>("stack " + t, c, th ? 7 : 6);
    c.cases = {C(AFFINE, 2, 1), C(AFFINE, 3, -2), C(SUM)};
    c.samples = {1.25};
    add<Chain<V>>("stack of own filters " + t, c, th ? 10 : 8);
    c.samples = {1.0 + 1e-10};
    c.cases = {C(PASS), C(AFFINE, 1e5, 0)};
    add<Chain<V>>("precision " + t, c, 4);
}
MC_MAIN {
    mc::config("all slots float", [] { return new Slots<float>; }, 1);
    mc::config("all slots double", [] { return new Slots<double>; }, 1);
    all<float>("float");
    all<double>("double");
}
