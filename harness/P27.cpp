// P27: results and their combinators.
#include "ref.hpp"
#include <memory>
#include <string>
#include <type_traits>
#include "spine/structure/result.hpp"
using spn::structure::Result;

struct Tag { // a type of its own that is tracked on the heap
    std::unique_ptr<int> p;
    explicit Tag(int k) : p(new int(k)) {}
    Tag(const Tag& o) : p(new int(o.p ? *o.p : -99)) {}
    Tag(Tag&&) = default;
    Tag& operator=(const Tag& o) { p.reset(new int(o.p ? *o.p : -99)); return *this; }
    Tag& operator=(Tag&&) = default;
};
// values are numbered; the encodings do not survive a conversion into another type
template <typename T> static T enc(int k) {
    if constexpr (std::is_same_v<T, std::string>) return "value number " + std::to_string(k) + " in a string";
    else if constexpr (std::is_same_v<T, int>) return 1000 + k;
    else if constexpr (std::is_same_v<T, double>) return 2000.25 + k;
    else if constexpr (std::is_same_v<T, char>) return (char)('a' + k);
    else if constexpr (std::is_same_v<T, bool>) return k & 1;
    else return T(k);
}
template <typename T> static void same(const T& got, int k, const char* what) {
    if constexpr (std::is_same_v<T, Tag>) mc::check(got.p && *got.p == k, "%s: got %d, expected %d", what, got.p ? *got.p : -1, k);
    else if (!(got == enc<T>(k))) {
        if constexpr (std::is_same_v<T, std::string>) mc::fail("%s: got %s, expected %s", what, got.c_str(), enc<T>(k).c_str());
        else mc::fail("%s: got %g, expected %g", what, (double)got, (double)enc<T>(k));
    }
}
enum Outcome : int64_t { EMPTY, OK, MID, FAILED };
static const char* outcome_name[] = {"empty", "successful", "intermediary", "failed"};

// the only-once, right-function bookkeeping
struct Calls {
    int ok = 0, mid = 0, failed = 0;
    void expect(Outcome o, Outcome which) const {
        mc::eq(ok, o == OK && which == OK ? 1 : 0, "calls of the function for success");
        mc::eq(mid, o == MID && which == MID ? 1 : 0, "calls of the function for intermediaries");
        mc::eq(failed, o == FAILED && which == FAILED ? 1 : 0, "calls of the function for failures");
    }
};

template <typename R, typename T, typename E, typename I> static void verify(const R& r, Outcome o, int k, const char* what) {
    mc::observe(o * 100 + k);
    const char* got = r.is_success() ? "successful" : r.is_failed() ? "failed" : r.is_intermediary() ? "intermediary" : "empty";
    if ((int)r.is_success() + r.is_failed() + r.is_intermediary() > 1) mc::fail("%s: more than one outcome", what);
    if (strcmp(got, outcome_name[o])) mc::fail("%s is %s, expected %s", what, got, outcome_name[o]);
    mc::check((bool)r == (o == OK), "%s: conversion to bool", what);
    if (o == OK) {
        same<T>(r.value(), k, what);
        same<T>(*r, k, what);
        mc::check(r.operator->() == &r.value(), "%s: operator->", what);
    }
    if (o == MID) same<I>(r.intermediary_value(), k, what);
    if (o == FAILED) same<E>(r.error_value(), k, what);
}

template <typename T, typename E, typename I> struct Model : mc::Model {
    using R = Result<T, E, I>;
    R r;
    Outcome o = EMPTY;
    int k = 0;
    static R create(Outcome what, int v, int how) {
        switch (what) {
        case OK: {
            T x = enc<T>(v);
            const T c = enc<T>(v);
            if (how == 0) return R(x);
            if (how == 1) return R(c);
            if (how == 2) return R(std::move(x));
            if (how == 3) return x;
            if (how == 4) return c;
            R y;
            y = x;
            return y;
        }
        case MID: {
            I x = enc<I>(v);
            const I c = enc<I>(v);
            if (how == 0) return R::intermediary(x);
            if (how == 1) return R::intermediary(c);
            return R::intermediary(std::move(x));
        }
        case FAILED: {
            E x = enc<E>(v);
            const E c = enc<E>(v);
            if (how == 0) return R::failed(x);
            if (how == 1) return R::failed(c);
            if (how == 2) return R::failed(std::move(x));
            if constexpr (!std::is_same_v<T, E>) {
                if (how == 3) return R(x);
                if (how == 4) return R(c);
                return R(std::move(x));
            }
            return R::failed(enc<E>(v));
        }
        default: return R();
        }
    }
    static R any(Outcome& out, int& v) {
        out = (Outcome)mc::choose(4);
        v = out == EMPTY ? 0 : mc::choose(2);
        int how = out == EMPTY ? 0 : mc::choose(out == MID ? 3 : 6);
        mc::label("new %s, value %d, way %d", outcome_name[out], v, how);
        return create(out, v, how);
    }
    // a combinator that yields another type
    template <typename F> void transformed(F) {}
    template <typename U> void maps(int which) {
        Calls c;
        int v = (k + 1) % 4;
        if (which == OK) {
            auto x = r.map([&](const T& t) {
                c.ok++;
                same<T>(t, k, "argument of map");
                return enc<U>(v);
            });
            static_assert(std::is_same_v<decltype(x), Result<U, E, I>>);
            c.expect(o, OK);
            verify<decltype(x), U, E, I>(x, o, o == OK ? v : k, "mapped result");
        } else if (which == FAILED) {
            auto x = r.map_error([&](const E& e) {
                c.failed++;
                same<E>(e, k, "argument of map_error");
                return enc<U>(v);
            });
            static_assert(std::is_same_v<decltype(x), Result<T, U, I>>);
            c.expect(o, FAILED);
            verify<decltype(x), T, U, I>(x, o, o == FAILED ? v : k, "mapped result");
        } else {
            auto x = r.map_intermediary([&](const I& i) {
                c.mid++;
                same<I>(i, k, "argument of map_intermediary");
                return enc<U>(v);
            });
            static_assert(std::is_same_v<decltype(x), Result<T, E, U>>);
            c.expect(o, MID);
            verify<decltype(x), T, E, U>(x, o, o == MID ? v : k, "mapped result");
        }
    }
    void check_now(const char* what) { verify<R, T, E, I>(r, o, k, what); }
    void step() override {
        Calls c;
        switch (mc::choose(13)) {
        case 0:
            r = any(o, k);
            break;
        case 1: { // copies
            int how = mc::choose(6);
            mc::label("copy %d", how);
            const R& cr = r;
            if (how == 0) {
                R x(r);
                verify<R, T, E, I>(x, o, k, "copy");
                r = x;
            } else if (how == 1) {
                R x(cr);
                verify<R, T, E, I>(x, o, k, "copy");
                r = std::move(x);
            } else if (how == 2) {
                R x = r;
                verify<R, T, E, I>(x, o, k, "copy");
            } else if (how == 3) {
                R x;
                x = r;
                verify<R, T, E, I>(x, o, k, "assigned copy");
                r = cr;
            } else if (how == 4) {
                R x(std::move(r));
                verify<R, T, E, I>(x, o, k, "moved result");
                r = std::move(x);
            } else {
                R x = create(MID, 3, 0);
                x = std::move(r);
                verify<R, T, E, I>(x, o, k, "move assigned result");
                r = x;
            }
            mc::cover("copied");
            break;
        }
        case 2: {
            int which = 1 + mc::choose(3), to = mc::choose(4);
            mc::label("map %s to type %d", outcome_name[which], to);
            if (to == 0) maps<int>(which);
            else if (to == 1) maps<double>(which);
            else if (to == 2) maps<std::string>(which);
            else maps<Tag>(which);
            break;
        }
        case 3: { // mapping to the same type, kept
            int v = 3 - k;
            mc::label("map, keep");
            R x = r.map([&](const T&) { return enc<T>(v); });
            r = x;
            if (o == OK) k = v;
            break;
        }
        case 4: {
            mc::label("and_then");
            Outcome to = EMPTY;
            int v = 0;
            R x = r.and_then([&](const T& t) {
                c.ok++;
                same<T>(t, k, "argument of and_then");
                return any(to, v);
            });
            c.expect(o, OK);
            if (o == OK) o = to, k = v;
            r = x;
            break;
        }
        case 5: { // into another type of success
            mc::label("and_then into int");
            auto x = r.and_then([&](const T& t) {
                c.ok++;
                same<T>(t, k, "argument of and_then");
                return Result<int, E, I>(enc<int>(1));
            });
            c.expect(o, OK);
            verify<Result<int, E, I>, int, E, I>(x, o, o == OK ? 1 : k, "and_then");
            break;
        }
        case 6: {
            mc::label("or_else");
            Outcome to = EMPTY;
            int v = 0;
            R x = r.or_else([&](const E& e) {
                c.failed++;
                same<E>(e, k, "argument of or_else");
                return any(to, v);
            });
            c.expect(o, FAILED);
            if (o == FAILED) o = to, k = v;
            r = x;
            break;
        }
        case 7: {
            mc::label("or_else into string errors");
            auto x = r.or_else([&](const E& e) {
                c.failed++;
                same<E>(e, k, "argument of or_else");
                return Result<T, std::string, I>::failed(enc<std::string>(2));
            });
            c.expect(o, FAILED);
            verify<Result<T, std::string, I>, T, std::string, I>(x, o, o == FAILED ? 2 : k, "or_else");
            break;
        }
        case 8: {
            mc::label("chain");
            Outcome to = EMPTY;
            int v = 0;
            mc::assume(o != EMPTY); // nothing to work on
            bool twice = mc::flip();
            int now = k;
            auto f = [&](I& i) -> R {
                c.mid++;
                same<I>(i, k, "argument of chain");
                if (mc::flip()) i = enc<I>(now = (k + 1) % 4); // it works on the value itself
                R x = any(to, v);
                k = v, o = to;
                return x;
            };
            Outcome before = o;
            R x = r.chain(f);
            mc::eq(c.mid, before == MID ? 1 : 0, "calls of the chained function");
            if (before != MID) verify<R, T, E, I>(r, o, k, "result that was chained");
            else verify<R, T, E, I>(r, MID, now, "result that was chained");
            if (twice) {
                mc::assume(o != EMPTY);
                before = o;
                c.mid = 0;
                R y = x.chain(f);
                mc::eq(c.mid, before == MID ? 1 : 0, "calls of the chained function");
                x = y;
                mc::cover("chained twice");
            }
            r = x;
            break;
        }
        case 9: {
            mc::label("match");
            mc::assume(o != EMPTY);
            int got = r.match(
                [&](const T& t) { c.ok++; same<T>(t, k, "argument of match"); return 1; },
                [&](const E& e) { c.failed++; same<E>(e, k, "argument of match"); return 3; },
                [&](const I& i) { c.mid++; same<I>(i, k, "argument of match"); return 2; });
            c.expect(o, o);
            mc::eq(got, (int)o, "value of match");
            break;
        }
        case 10: {
            mc::label("fallbacks");
            same<T>(r.value_or(enc<T>(3)), o == OK ? k : 3, "value_or");
            same<E>(r.error_or(enc<E>(3)), o == FAILED ? k : 3, "error_or");
            T x = r.unwrap_or_else([&] { c.ok++; return enc<T>(2); });
            mc::eq(c.ok, o == OK ? 0 : 1, "calls of the fallback");
            same<T>(x, o == OK ? k : 2, "unwrap_or_else");
            break;
        }
        case 11: {
            mc::label("unwrap");
            if (o == OK) same<T>(r.unwrap(), k, "unwrap");
            if (o == MID) same<I>(r.unwrap_intermediary_value(), k, "unwrap_intermediary_value");
            if (o == FAILED) same<E>(r.unwrap_error_value(), k, "unwrap_error_value");
            r = R();
            o = EMPTY;
            k = 0;
            break;
        }
        default: { // only convertible into one of the types
            mc::label("converted");
            if constexpr (std::is_same_v<E, std::string> && !std::is_same_v<T, E>) {
                r = R(enc<E>(1).c_str());
                o = FAILED;
                k = 1;
            } else if constexpr (std::is_same_v<T, std::string> && !std::is_same_v<T, E>) {
                r = R(enc<T>(1).c_str());
                o = OK;
                k = 1;
            } else
                mc_prune();
        }
        }
        check_now("result");
    }
};
// values that can only be moved; which of the three types are so differs
template <typename T> struct Moved {
    static constexpr bool pointer = !std::is_same_v<T, int> && !std::is_same_v<T, std::string>;
    static T make(int k) {
        if constexpr (pointer) return std::make_unique<typename T::element_type>((typename T::element_type)(10 + k));
        else return enc<T>(k);
    }
    static void is(const T& v, int k, const char* what) {
        if constexpr (pointer) mc::check(v && (int)*v == 10 + k, "%s", what);
        else same<T>(v, k, what);
    }
};
template <typename T, typename E, typename I> struct MoveOnly : mc::Model {
    using R = Result<T, E, I>;
    R r;
    Outcome o = EMPTY;
    int k = 0;
    void step() override {
        int op = mc::choose(6);
        if (op < 3) k = mc::choose(3);
        switch (op) {
        case 0:
            mc::label("success %d", k);
            r = R(Moved<T>::make(k));
            o = OK;
            break;
        case 1:
            mc::label("failure %d", k);
            r = R::failed(Moved<E>::make(k));
            o = FAILED;
            break;
        case 2:
            mc::label("intermediary %d", k);
            r = R::intermediary(Moved<I>::make(k));
            o = MID;
            break;
        case 3: {
            mc::label("move");
            R x(std::move(r));
            R y;
            y = std::move(x);
            r = std::move(y);
            break;
        }
        case 4: {
            mc::label("moved in and out again");
            if (o == OK) {
                T v = r.unwrap();
                Moved<T>::is(v, k, "unwrapped value");
                r = R(std::move(v));
            } else if (o == FAILED) {
                E v = r.unwrap_error_value();
                Moved<E>::is(v, k, "unwrapped error value");
                r = R::failed(std::move(v));
            } else if (o == MID) {
                I v = r.unwrap_intermediary_value();
                Moved<I>::is(v, k, "unwrapped intermediary value");
                r = R::intermediary(std::move(v));
            }
            break;
        }
        case 5: {
            mc::label("unwrap");
            if (o == OK) Moved<T>::is(r.unwrap(), k, "unwrapped value");
            if (o == FAILED) Moved<E>::is(r.unwrap_error_value(), k, "unwrapped error value");
            if (o == MID) Moved<I>::is(r.unwrap_intermediary_value(), k, "unwrapped intermediary value");
            r = R();
            o = EMPTY;
        }
        }
        mc::check(r.is_success() == (o == OK) && r.is_failed() == (o == FAILED) && r.is_intermediary() == (o == MID), "outcome");
        if (o == OK) Moved<T>::is(r.value(), k, "value"), Moved<T>::is(*r, k, "value");
        if (o == FAILED) Moved<E>::is(r.error_value(), k, "error value");
        if (o == MID) Moved<I>::is(r.intermediary_value(), k, "intermediary value");
    }
};
template <typename T, typename E, typename I> static void add(const char* name, int depth) {
    mc::config(name, [] { return new Model<T, E, I>; }, depth, {4000000});
}
MC_MAIN {
    int d = mc::thorough() ? 5 : 4;
    using S = std::string;
    add<int, int, int>("int int int", d);
    add<S, S, S>("string string string", d);
    add<int, double, int>("int double int", d);
    add<double, int, int>("double int int", d);
    add<int, S, double>("int string double", d);
    add<S, int, S>("string int string", d);
    add<S, int, double>("string int double", d);
    add<Tag, int, S>("object int string", d);
    add<int, Tag, Tag>("int object object", d);
    add<char, int, double>("char int double", d);
    add<int, bool, int>("int bool int", d);
    using UI = std::unique_ptr<int>;
    using UL = std::unique_ptr<long>;
    using US = std::unique_ptr<short>;
    mc::config("move only", [] { return new MoveOnly<UI, int, S>; }, d);
    mc::config("move only errors", [] { return new MoveOnly<int, UL, S>; }, d);
    mc::config("move only throughout", [] { return new MoveOnly<UI, UL, US>; }, d);
}
