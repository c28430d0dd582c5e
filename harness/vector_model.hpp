// One driver for structure::Vector, instantiated by P11 (sequence), P12 (ownership) and P13 (confinement).
#pragma once
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"
#include "spine/structure/vector.hpp"

namespace vm {
using spn::structure::Vector;

constexpr int IDS = 64;
struct Token {
    int id;
    int* alive;
    Token(int i, int* a) : id(i), alive(a) { ++*alive; }
    ~Token() { --*alive; }
};

// element types: how to make one with a given identity, how to read it, how many live references are expected
template <typename T> struct Elem {
    static constexpr bool counted = false;
    static T make(int id, int*) { return (T)id; }
    static int id(const T& t) { return (int)t; }
};
struct Wide { // larger than a word, odd size
    int a;
    char pad[9];
    int b;
};
template <> struct Elem<Wide> {
    static constexpr bool counted = false;
    static Wide make(int id, int*) {
        Wide w{};
        w.a = id;
        memset(w.pad, id, sizeof w.pad);
        w.b = ~id;
        return w;
    }
    static int id(const Wide& w) {
        for (char c : w.pad) if (c != (char)w.a) return -2;
        return w.b == ~w.a ? w.a : -1;
    }
};
template <> struct Elem<std::shared_ptr<Token>> {
    static constexpr bool counted = true;
    static std::shared_ptr<Token> make(int id, int* alive) { return std::make_shared<Token>(id, alive); }
    static int id(const std::shared_ptr<Token>& t) { return t ? t->id : -1; }
};

// where the vector's storage comes from
template <typename T, size_t CAP> struct Own {
    Vector<T> v;
    Own() : v(CAP) {}
    bool intact() const { return true; }
};
template <typename T, size_t CAP> struct OwnFilled { // constructed full
    Vector<T> v;
    OwnFilled() : v(CAP, T{}) {}
    bool intact() const { return true; }
};
template <typename T, size_t CAP> struct Lent {
    unsigned char pre[16];
    T store[CAP]{};
    unsigned char post[16];
    Vector<T> v;
    Lent() : v(store) {
        memset(pre, 0xE1, sizeof pre);
        memset(post, 0xE2, sizeof post);
    }
    bool intact() const {
        for (auto c : pre) if (c != 0xE1) return false;
        for (auto c : post) if (c != 0xE2) return false;
        return true;
    }
};

struct Ops {
    bool overflow = true;   // push into a full vector, pop from an empty one
    bool discard = false;   // drop popped values without consuming them
    bool assign = true;     // assignment from lists (replaces the storage)
    bool alias = true;      // pass references to own elements
    bool allocs = false;    // P36: no operation but assignment may allocate
    bool ends_only = false; // large capacities: restrict positions
};

template <typename T, size_t CAP, template <typename, size_t> class Store> struct VecModel : mc::Model {
    using E = Elem<T>;
    int alive[IDS]{};
    Store<T, CAP> s;
    ref::Seq<int, CAP + 4> ref;
    size_t cap = CAP;
    bool stale = false; // slots may keep removed elements alive
    Ops ops;
    explicit VecModel(Ops o) : ops(o) {
        while (ref.size() < s.v.size()) ref.push_back(E::id(T{}));
    }

    T make_big(int id) {
        if constexpr (E::counted) mc::fail("driver error: no bulk operations on handles");
        else return E::make(id, nullptr);
    }
    T make(int id) { return E::make(id, &alive[id]); }
    int fresh() {
        for (int id = 1; id < IDS; id++) {
            bool used = alive[id] != 0;
            for (int r : ref) used |= r == id;
            if (!used) return id;
        }
        mc::fail("driver error: out of ids");
    }
    size_t where(size_t n) { // a position in [0, n)
        if (!ops.ends_only || n <= 4) return mc::choose((int)n);
        static const int f[] = {0, 1, -1, -2};
        int i = mc::choose(4);
        return f[i] >= 0 ? f[i] : n + f[i];
    }
    void step() override {
        auto& v = s.v;
        bool full = ref.size() == cap;
        uint64_t a0 = 0;
        bool may_alloc = false;
        int op = mc::choose(ops.ends_only ? 21 : 20);
        switch (op) {
        case 0:
        case 1:
        case 2:
        case 3: {
            int id = fresh();
            T x = make(id);
            if (full) {
                mc::assume(ops.overflow);
                mc::cover("add to a full vector");
                mc::broken();
            }
            a0 = mc_allocs();
            switch (op) {
            case 0: mc::label("push_back(%d)", id); v.push_back(x); break;
            case 1: mc::label("emplace_back(%d)", id); v.emplace_back(std::move(x)); break;
            case 2: mc::label("push_front(%d)", id); v.push_front(x); break;
            case 3: mc::label("emplace_front(%d)", id); v.emplace_front(std::move(x)); break;
            }
            a0 = mc_allocs() - a0;
            if (!full) ref.insert(op < 2 ? ref.size() : 0, id);
            break;
        }
        case 4: {
            size_t at = ops.ends_only ? where(ref.size() + 2) : mc::choose(ref.size() + 2);
            int id = fresh();
            T x = make(id);
            if (full) mc::assume(ops.overflow), mc::broken();
            else if (at > 0 && at < ref.size()) mc::cover("insert in the middle");
            mc::label("insert(%zu, %d)", at, id);
            a0 = mc_allocs();
            v.insert(at, x);
            a0 = mc_allocs() - a0;
            if (!full) ref.insert(at > ref.size() ? ref.size() : at, id);
            break;
        }
        case 5:
        case 6: {
            bool back = op == 5, consume = !ops.discard || mc::flip();
            if (ref.empty()) {
                mc::assume(ops.overflow);
                mc::label("pop_%s() on empty", back ? "back" : "front");
                mc::cover("pop from an empty vector");
                mc::broken();
                if (back) (void)v.pop_back();
                else (void)v.pop_front();
                break;
            }
            int want = back ? ref.pop_back() : ref.pop_front();
            a0 = mc_allocs();
            if (consume) {
                T got = back ? v.pop_back() : v.pop_front();
                mc::label("pop_%s() -> %d", back ? "back" : "front", E::id(got));
                mc::eq(E::id(got), want, "popped element");
            } else {
                T&& got = back ? v.pop_back() : v.pop_front();
                mc::label("(void)pop_%s()", back ? "back" : "front");
                mc::eq(E::id(got), want, "popped element");
                if (E::counted) stale = true;
            }
            a0 = mc_allocs() - a0;
            break;
        }
        case 7: { // remove(size()) removes the last element (as the unit tests have it)
            mc::assume(!ref.empty());
            size_t at = where(ref.size() + 1);
            mc::label("remove(%zu)", at);
            int want = ref.erase(at < ref.size() ? at : ref.size() - 1);
            if (at > 0 && at < ref.size()) mc::cover("remove from the middle");
            a0 = mc_allocs();
            {
                T got = v.remove(at);
                mc::eq(E::id(got), want, "removed element");
            }
            a0 = mc_allocs() - a0;
            break;
        }
        case 8: {
            int id = fresh();
            mc::label("fill(%d)", id);
            {
                T x = make(id);
                a0 = mc_allocs();
                v.fill(x);
                a0 = mc_allocs() - a0;
            }
            ref.clear();
            while (ref.size() < cap) ref.push_back(id);
            stale = false;
            break;
        }
        case 9:
            mc::label("clear()");
            a0 = mc_allocs();
            v.clear();
            a0 = mc_allocs() - a0;
            ref.clear();
            break;
        case 10: { // the vector takes the size of the list
            mc::assume(ops.assign);
            int n = mc::choose(4);
            int id[3];
            ref::Seq<int, CAP + 4> nr;
            std::vector<T> xs;
            for (int i = 0; i < n; i++) id[i] = fresh_not(id, i), xs.push_back(make(id[i])), nr.push_back(id[i]);
            mc::label("= list of %d", n);
            if (n == 0) v = std::initializer_list<T>{};
            else if (n == 1) v = {xs[0]};
            else if (n == 2) v = {xs[0], xs[1]};
            else v = {xs[0], xs[1], xs[2]};
            ref = nr;
            cap = n;
            stale = false;
            break;
        }
        case 11:
        case 12:
        case 13:
        case 14: { // writing through an access changes exactly that element
            mc::assume(!ref.empty());
            int id = fresh();
            size_t at = op == 12 ? 0 : op == 13 ? ref.size() - 1 : where(ref.size());
            T x = make(id);
            const char* how[] = {"[]", "front", "back", "at"};
            mc::label("%s %zu = %d", how[op - 11], at, id);
            switch (op) {
            case 11: v[at] = x; break;
            case 12: v.front() = x; break;
            case 13: v.back() = x; break;
            case 14: v.at(at) = x; break;
            }
            ref[at] = id;
            break;
        }
        case 15:
        case 16:
        case 17: { // the argument refers to an element of the vector itself
            mc::assume(ops.alias && !ref.empty() && (ops.overflow || !full));
            size_t at = where(ref.size());
            size_t to = op == 15 ? ref.size() : op == 16 ? 0 : where(ref.size() + 1);
            int id = ref[at];
            mc::label("insert v[%zu] at %zu", at, to);
            mc::cover("argument refers to an own element");
            if (full) mc::broken();
            if (op == 15) v.push_back(v[at]);
            if (op == 16) v.push_front(v[at]);
            if (op == 17) v.insert(to, v[at]);
            if (!full) ref.insert(to, id);
            break;
        }
        case 18: { // swap with another vector, use it, swap back
            mc::assume(ops.assign);
            mc::label("swap");
            Vector<T> o(2);
            int id = fresh();
            o.push_back(make(id));
            v.swap(o);
            ref::Seq<int, CAP + 4> keep = ref;
            size_t kcap = cap;
            ref.clear();
            ref.push_back(id);
            cap = 2;
            check_sequence();
            v.swap(o);
            ref = keep;
            cap = kcap;
            mc::eq(o.size(), size_t(1), "size of the other vector after swapping back");
            mc::eq(E::id(o[0]), id, "element of the other vector after swapping back");
            break;
        }
        case 19: { // moved out, empty meanwhile, and moved back
            mc::assume(ops.assign);
            mc::label("move out and back");
            {
                bool assign = mc::flip();
                Vector<T> o(1);
                o.push_back(make(fresh()));
                if (assign) o = std::move(v);
                Vector<T> p(assign ? std::move(o) : std::move(v));
                for (auto* m : {&v, &o}) {
                    if (m == &o && !assign) continue;
                    mc::eq(m->size(), size_t(0), "size of a vector that was moved from");
                    mc::eq(m->empty(), true, "a vector that was moved from is empty");
                    mc::eq(m->max_size(), size_t(0), "capacity of a vector that was moved from");
                    for (auto it = m->begin(); it != m->end(); ++it) mc::fail("a vector that was moved from iterates over elements");
                }
                v = std::move(p);
                check_sequence();
                mc::eq(p.size(), size_t(0), "size of a vector that was moved back");
            }
            mc::cover("moved out and back");
            break;
        }
        case 20: { // bulk: many pushes or pops in a row
            size_t n = mc::flip() ? cap : 256;
            int what = mc::choose(4);
            const char* name[] = {"push_back", "push_front", "pop_back", "pop_front"};
            mc::label("%s x %zu", name[what], n);
            for (size_t i = 0; i < n; i++) {
                int id = 100 + (int)(i % 100);
                if (what < 2) {
                    T x = make_big(id);
                    what ? v.push_front(x) : v.push_back(x);
                    if (ref.size() < cap) ref.insert(what ? 0 : ref.size(), id);
                    else mc::broken();
                } else if (!ref.empty()) {
                    T x = what == 2 ? v.pop_back() : v.pop_front();
                    int want = what == 2 ? ref.pop_back() : ref.pop_front();
                    if (E::id(x) != want) mc::fail("popped %d, expected %d", E::id(x), want);
                }
            }
            break;
        }
        }
        if (ops.allocs && a0) mc::fail("the operation allocated %llu times", (unsigned long long)a0);
        check();
    }
    int fresh_not(const int* taken, int n) {
        for (int id = 1; id < IDS; id++) {
            bool used = alive[id] != 0;
            for (int r : ref) used |= r == id;
            for (int i = 0; i < n; i++) used |= taken[i] == id;
            if (!used) return id;
        }
        mc::fail("driver error: out of ids");
    }
    void check() {
        check_sequence();
        check_ownership();
    }
    void check_sequence() {
        auto& v = s.v;
        const auto& c = s.v;
        size_t n = ref.size();
        mc::eq(c.size(), n, "size");
        mc::eq(c.empty(), n == 0, "empty");
        mc::eq(c.full(), n == cap, "full");
        mc::eq(c.max_size(), cap, "max_size");
        mc::check(s.intact(), "memory next to the lent storage changed");
        for (size_t i = 0; i < n; i++) {
            int w = ref[i];
            if (E::id(v[i]) != w) mc::fail("[%zu] is %d, expected %d", i, E::id(v[i]), w);
            if (E::id(c[i]) != w) mc::fail("const [%zu] is %d, expected %d", i, E::id(c[i]), w);
            if (E::id(c.at(i)) != w) mc::fail("at(%zu) is %d, expected %d", i, E::id(c.at(i)), w);
            if (E::id(v.data()[i]) != w) mc::fail("data()[%zu] is %d, expected %d", i, E::id(v.data()[i]), w);
            if (E::id(c.data()[i]) != w) mc::fail("const data()[%zu] is %d, expected %d", i, E::id(c.data()[i]), w);
        }
        if (n) {
            mc::eq(E::id(v.front()), ref[0], "front");
            mc::eq(E::id(v.back()), ref[n - 1], "back");
            mc::eq(E::id(c.peek_front()), ref[0], "peek_front");
            mc::eq(E::id(c.peek_back()), ref[n - 1], "peek_back");
        }
        walk(v.begin(), v.end(), false, "begin..end");
        walk(c.begin(), c.end(), false, "const begin..end");
        walk(c.cbegin(), c.cend(), false, "cbegin..cend");
        walk(v.rbegin(), v.rend(), true, "rbegin..rend");
        walk(c.rbegin(), c.rend(), true, "const rbegin..rend");
        walk(c.crbegin(), c.crend(), true, "crbegin..crend");
    }
    void check_ownership() {
        auto& v = s.v;
        size_t n = ref.size();
        if constexpr (E::counted) {
            int held[IDS]{};
            for (int r : ref) if (r >= 0) held[r]++;
            for (int id = 1; id < IDS; id++) {
                if (held[id] && alive[id] != 1) mc::fail("element %d is %s", id, alive[id] ? "duplicated" : "gone although the vector holds it");
                if (!held[id] && alive[id] && !stale) mc::fail("element %d is still alive after its removal", id);
                if (alive[id] < 0 || alive[id] > 1) mc::fail("element %d was destroyed %d times", id, 1 - alive[id]);
            }
            for (size_t i = 0; i < n; i++) {
                long want = ref[i] >= 0 ? held[ref[i]] : 0, got = v[i].use_count();
                if (got != want && !(stale && got >= want)) mc::fail("element %zu has %ld references, expected %ld", i, got, want);
            }
            check_stale();
        }
    }
    // elements kept alive by vacated slots can be no more than the vacated slots
    void check_stale() {
        int held[IDS]{}, extra = 0;
        for (int r : ref) if (r >= 0) held[r]++;
        for (int id = 1; id < IDS; id++) if (!held[id] && alive[id]) extra++;
        if ((size_t)extra > cap - ref.size()) mc::fail("%d removed elements are alive, but only %zu slots are vacant", extra, cap - ref.size());
    }
    template <typename I> void walk(I a, I z, bool rev, const char* what) {
        size_t n = ref.size();
        for (size_t i = 0; i < n; i++) {
            int w = ref[rev ? n - 1 - i : i];
            if (a == z || !(a != z)) mc::fail("%s ends after %zu of %zu elements", what, i, n);
            if (E::id(*a) != w) mc::fail("%s: element %zu is %d, expected %d", what, i, E::id(*a), w);
            ++a;
        }
        if (!(a == z) || a != z) mc::fail("%s continues after %zu elements", what, n);
    }
};

template <typename T, size_t CAP, template <typename, size_t> class S = Own> inline void add(const char* name, int depth, Ops o = {}, uint64_t max = 400000) {
    mc::Opt opt;
    opt.max_states = max;
    mc::config(std::string(name) + " cap=" + std::to_string(CAP), [o] { return new VecModel<T, CAP, S>(o); }, depth, opt);
}
} // namespace vm
