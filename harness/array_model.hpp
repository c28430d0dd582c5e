// One driver for structure::Array, instantiated by P14 (values) and P12 (ownership): two arrays and all ways to
// make, write, swap, move and assign them.
#pragma once
#include "vector_model.hpp"

namespace am {
using spn::structure::Array;
using vm::Elem;
using vm::IDS;
using vm::Token;

// what an array must contain
struct Want {
    ref::Seq<int, 8> e;
    bool lent = false;
};

template <typename T> struct Holder { // an Array without default constructor, replaceable in place
    alignas(Array<T>) unsigned char mem[sizeof(Array<T>)]{};
    Array<T>& operator*() { return *reinterpret_cast<Array<T>*>(mem); }
    ~Holder() { (**this).~Array<T>(); }
};

template <typename T> struct ArrayModel : mc::Model {
    using E = Elem<T>;
    int alive[IDS]{};
    ref::Guarded<3 * sizeof(T)> lent; // outlives the arrays
    Holder<T> a[2];
    Want w[2];
    bool allocs;
    ArrayModel(bool allocs) : allocs(allocs) {
        memset(lent.mem, 0, sizeof lent.mem);
        for (int k = 0; k < 2; k++) {
            int how = mc::choose(k == 0 ? 6 : 3);
            make_array(k, how);
        }
        check();
    }
    T make(int id) { return E::make(id, &alive[id]); }
    int fresh() {
        for (int id = 1; id < IDS; id++) {
            bool used = alive[id] != 0;
            for (auto& x : w) for (int r : x.e) used |= r == id;
            if (!used) return id;
        }
        mc::fail("driver error: out of ids");
    }
    void make_array(int k, int how) {
        auto* p = a[k].mem;
        auto& e = w[k].e;
        switch (how) {
        case 0: mc::label("array %d: 2 zeroed elements", k); new (p) Array<T>(2); for (int i = 0; i < 2; i++) e.push_back(E::id(T{})); break;
        case 1: {
            int id = fresh();
            mc::label("array %d: 3 copies of %d", k, id);
            new (p) Array<T>(3, make(id));
            for (int i = 0; i < 3; i++) e.push_back(id);
            break;
        }
        case 2: {
            int id = fresh();
            T x = make(id);
            int id2 = E::counted ? id : fresh();
            if (!E::counted) id2 = id + 1;
            T y = E::counted ? x : make(id2);
            mc::label("array %d: list {%d, %d}", k, id, id2);
            new (p) Array<T>(std::initializer_list<T>{x, y});
            e.push_back(id), e.push_back(id2);
            break;
        }
        case 3:
            mc::label("array %d: on a lent store of 3", k);
            new (p) Array<T>(*reinterpret_cast<T(*)[3]>(lent.mem));
            for (int i = 0; i < 3; i++) e.push_back(E::id(T{}));
            w[k].lent = true;
            break;
        case 4:
            mc::label("array %d: on a lent byte buffer", k);
            new (p) Array<T>(lent.mem, sizeof lent.mem);
            for (int i = 0; i < 3; i++) e.push_back(E::id(T{}));
            w[k].lent = true;
            break;
        case 5: mc::label("array %d: empty", k); new (p) Array<T>(std::initializer_list<T>{}); break;
        }
    }
    ~ArrayModel() override {
        if constexpr (!std::is_trivially_destructible_v<T>) // the lender destroys what was put into the lent store
            for (int i = 0; i < 3; i++) reinterpret_cast<T*>(lent.mem)[i].~T();
    }
    void step() override {
        int k = mc::choose(2);
        auto& x = *a[k];
        auto& e = w[k].e;
        size_t n = e.size();
        uint64_t used = 0;
        switch (mc::choose(10)) {
        case 0: { // write one element
            mc::assume(n > 0);
            int how = mc::choose(6);
            size_t i = how == 3 ? 0 : how == 4 ? n - 1 : mc::choose((int)n);
            int id = fresh();
            T v = make(id);
            const char* name[] = {"[]", "at", "data", "front", "back", "iterator"};
            mc::label("array %d: %s %zu = %d", k, name[how], i, id);
            uint64_t a0 = mc_allocs();
            switch (how) {
            case 0: x[i] = v; break;
            case 1: x.at(i) = v; break;
            case 2: x.data()[i] = v; break;
            case 3: x.front() = v; break;
            case 4: x.back() = v; break;
            case 5: {
                auto it = x.begin();
                for (size_t s = 0; s < i; s++) it++;
                *it = v;
                break;
            }
            }
            used = mc_allocs() - a0;
            e[i] = id;
            break;
        }
        case 1: {
            int id = fresh();
            mc::label("array %d: fill(%d)", k, id);
            T v = make(id);
            uint64_t a0 = mc_allocs();
            x.fill(v);
            used = mc_allocs() - a0;
            for (auto& r : e) r = id;
            break;
        }
        case 2: {
            mc::label("swap(array %d, array %d)", k, 1 - k);
            uint64_t a0 = mc_allocs();
            x.swap(*a[1 - k]);
            used = mc_allocs() - a0;
            std::swap(w[0], w[1]);
            mc::cover("swap");
            break;
        }
        case 3: {
            mc::label("array %d = move(array %d)", k, 1 - k);
            x = std::move(*a[1 - k]);
            w[k] = w[1 - k];
            w[1 - k] = Want{};
            mc::cover("move assignment");
            break;
        }
        case 4: {
            int m = mc::choose(4);
            std::vector<T> v;
            ref::Seq<int, 8> ne;
            for (int i = 0; i < m; i++) {
                int id = fresh();
                while (id < IDS && (alive[id] || taken(ne, id) || used_id(id))) id++;
                v.push_back(make(id));
                ne.push_back(id);
            }
            mc::label("array %d = list of %d", k, m);
            auto before = ref::Guarded<3 * sizeof(T)>(lent);
            if (m == 0) x = std::initializer_list<T>{};
            else if (m == 1) x = {v[0]};
            else if (m == 2) x = {v[0], v[1]};
            else x = {v[0], v[1], v[2]};
            mc::check(!memcmp(before.mem, lent.mem, sizeof lent.mem), "assigning a list to array %d changed a lent store", k);
            e = ne;
            w[k].lent = false;
            mc::cover("list assignment");
            break;
        }
        case 5: { // a copy is a view of the same storage
            mc::assume(n > 0);
            int how = mc::choose(7);
            const char* name[] = {"made by copy construction", "made by copy assignment", "that was moved", "that is assigned back", "that is swapped there and back", "another of which is assigned a list", "another of which gets another array"};
            mc::label("write through a view of array %d, %s", k, name[how]);
            int id = fresh();
            T v = make(id);
            if (how == 0) {
                Array<T> view(x);
                check_one(view, w[k], "view");
                view[n - 1] = v;
            } else if (how == 2) {
                Array<T> first(x), view(std::move(first)), other(2);
                check_one(view, w[k], "moved view");
                other = std::move(view);
                check_one(other, w[k], "move-assigned view");
                other[n - 1] = v;
            } else if (how == 3) { // the elements stay with the array
                Array<T> view(x);
                x = view;
                check_one(x, w[k], "array that got its own view");
                view = x;
                view[n - 1] = v;
            } else if (how == 5 || how == 6) { // assigning to a view makes it another array, and leaves what it showed alone
                Array<T> view(x), other(x);
                if (how == 5) {
                    if (n == 1) other = {v};
                    else if (n == 2) other = {v, v};
                    else other = {v, v, v};
                } else {
                    other = Array<T>(n, v);
                }
                Want vs;
                for (size_t i = 0; i < std::min<size_t>(n, how == 5 && n > 3 ? 3 : n); i++) vs.e.push_back(id);
                check_one(other, vs, "view that was assigned something else");
                check_one(x, w[k], "array a view of which was assigned something else");
                check_one(view, w[k], "view another of which was assigned something else");
                view[n - 1] = v;
                mc::cover("assignment to a view");
            } else if (how == 4) {
                Array<T> view(x);
                x.swap(view);
                check_one(x, w[k], "view");
                x.swap(view);
                view[n - 1] = v;
            } else {
                Array<T> view(1);
                view[0] = v;
                view = x;
                check_one(view, w[k], "view");
                view[n - 1] = v;
            }
            e[n - 1] = id;
            break;
        }
        case 6: { // move out and back
            mc::label("move array %d out and back", k);
            Array<T> tmp(std::move(x));
            check_one(tmp, w[k], "moved array");
            check_one(x, Want{}, "moved-from array");
            x = std::move(tmp);
            break;
        }
        case 7: {
            mc::label("array %d assigned to itself", k);
            bool mv = mc::flip();
            Array<T>& self = x;
            if (mv) x = std::move(self);
            else x = self;
            break;
        }
        case 8: { // destroy and make anew
            mc::label("array %d destroyed and rebuilt", k);
            x.~Array<T>();
            bool was_lent = w[k].lent;
            w[k] = Want{};
            make_array(k, mc::choose(3));
            (void)was_lent;
            break;
        }
        case 9: {
            mc::label("swap array %d with itself", k);
            x.swap(x);
            break;
        }
        }
        if (allocs && used) mc::fail("the operation allocated");
        check();
    }
    static bool taken(ref::Seq<int, 8>& s, int id) {
        for (int r : s) if (r == id) return true;
        return false;
    }
    bool used_id(int id) {
        for (auto& x : w) if (taken(x.e, id)) return true;
        return false;
    }
    void check() {
        mc::check(lent.intact(), "memory next to the lent storage changed");
        for (int k = 0; k < 2; k++) check_one(*a[k], w[k], k ? "array 1" : "array 0");
        if constexpr (E::counted) {
            int held[IDS]{};
            for (auto& x : w) for (int r : x.e) if (r > 0) held[r]++;
            bool in_lent[IDS]{};
            for (int i = 0; i < 3; i++) {
                int id = E::id(reinterpret_cast<T*>(lent.mem)[i]);
                if (id > 0) in_lent[id] = true;
            }
            for (int id = 1; id < IDS; id++) {
                if (held[id] && alive[id] != 1) mc::fail("element %d is %s", id, alive[id] ? "duplicated" : "gone although an array holds it");
                if (!held[id] && alive[id] && !in_lent[id]) mc::fail("element %d is still alive after its removal", id);
            }
            for (int k = 0; k < 2; k++)
                for (size_t i = 0; i < w[k].e.size(); i++) {
                    int id = w[k].e[i];
                    if (id > 0 && !in_lent[id] && (*a[k])[i].use_count() != held[id])
                        mc::fail("element %d has %ld references, %d are held", id, (*a[k])[i].use_count(), held[id]);
                }
        }
    }
    void check_one(Array<T>& v, const Want& want, const char* what) {
        const auto& c = v;
        const auto& e = want.e;
        size_t n = e.size();
        if (c.size() != n) mc::fail("%s: size is %zu, expected %zu", what, c.size(), n);
        mc::eq(c.max_size(), n, "max_size");
        mc::eq(c.empty(), n == 0, "empty");
        for (size_t i = 0; i < n; i++) {
            mc::eq(E::id(v[i]), e[i], "element");
            mc::eq(E::id(c[i]), e[i], "const element");
            mc::eq(E::id(c.at(i)), e[i], "at");
            mc::eq(E::id(v.data()[i]), e[i], "data");
            mc::eq(E::id(c.data()[i]), e[i], "const data");
        }
        if (n) {
            mc::eq(E::id(v.front()), e[0], "front");
            mc::eq(E::id(v.back()), e[n - 1], "back");
        }
        walk(v.begin(), v.end(), e, false, "begin..end");
        walk(c.begin(), c.end(), e, false, "const begin..end");
        walk(c.cbegin(), c.cend(), e, false, "cbegin..cend");
        walk(v.rbegin(), v.rend(), e, true, "rbegin..rend");
        walk(c.rbegin(), c.rend(), e, true, "const rbegin..rend");
        walk(c.crbegin(), c.crend(), e, true, "crbegin..crend");
        size_t seen = 0;
        for (auto& x : v) {
            if (seen >= n || E::id(x) != e[seen]) mc::fail("range-for element %zu of %s is wrong", seen, what);
            seen++;
        }
        mc::eq(seen, n, "elements visited by range-for");
    }
    template <typename I> void walk(I a, I z, const ref::Seq<int, 8>& e, bool rev, const char* what) {
        size_t n = e.size();
        I pre = a, post = a;
        for (size_t i = 0; i < n; i++) {
            int want = e[rev ? n - 1 - i : i];
            if (pre == z || !(pre != z)) mc::fail("%s ends after %zu of %zu elements", what, i, n);
            if (E::id(*pre) != want) mc::fail("%s: element %zu is %d, expected %d", what, i, E::id(*pre), want);
            I old = post++;
            if (!(old == pre)) mc::fail("%s: it++ does not yield the old position", what);
            if (E::id(*old) != want) mc::fail("%s: *it++ is %d, expected %d", what, E::id(*old), want);
            I& r = ++pre;
            if (&r != &pre || !(pre == post)) mc::fail("%s: ++it and it++ disagree", what);
        }
        if (!(pre == z) || pre != z) mc::fail("%s continues after %zu elements", what, n);
        for (size_t i = n; i-- > 0;) { // and back
            int want = e[rev ? n - 1 - i : i];
            I old = post--;
            if (!(old == pre)) mc::fail("%s: it-- does not yield the old position", what);
            I& r = --pre;
            if (&r != &pre || !(pre == post)) mc::fail("%s: --it and it-- disagree", what);
            if (E::id(*pre) != want) mc::fail("%s backwards: element %zu is %d, expected %d", what, i, E::id(*pre), want);
        }
        if (!(pre == a)) mc::fail("%s: stepping back does not return to the start", what);
    }
};
template <typename T> inline void add(const char* name, int depth, bool allocs = false) {
    mc::config(name, [allocs] { return new ArrayModel<T>(allocs); }, depth);
}
} // namespace am
