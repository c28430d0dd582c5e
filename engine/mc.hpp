// Driver-side interface of the explicit-state model checker (see explorer.cpp).
// A driver (harness/<ID>.cpp) is compiled with the real sources of /repo into a shared object.
// Everything the driver and the code under test allocate lives in an arena the explorer snapshots,
// restores and hashes; the shared object's writable globals are part of the state too.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

extern "C" {
int mc_choose(int n);                                            // nondeterministic choice in [0,n)
[[noreturn]] void mc_fail(const char* known_key, const char* msg); // property violated
[[noreturn]] void mc_prune();                                    // this behaviour is outside the environment
void mc_observe(uint64_t v);
bool mc_tracing();
void mc_label(const char* text);
void mc_cover(const char* key);                                  // must be a string literal
uint64_t mc_live_blocks();                                       // live arena allocations
uint64_t mc_live_bytes();
uint64_t mc_allocs();                                            // arena allocations made in this step so far
const char* mc_cout(size_t* len);                                // what std::cout received in this step
void mc_cout_clear();
int mc_tier();                                                   // 0 quick, 1 thorough
void mc_register(const char* name, int depth, uint64_t max_states, int leak_check, void* (*call)(void*), void* ctx);
}

namespace mc {

struct Model {
    virtual ~Model() = default;
    virtual void step() = 0;     // one transition: choose() selects the operation and all environment answers
};

inline int choose(int n) { return mc_choose(n); }
template <typename T> const T& pick(const std::vector<T>& v) { return v[mc_choose((int)v.size())]; }
inline bool flip() { return mc_choose(2) == 1; }
inline void assume(bool b) { if (!b) mc_prune(); }
inline void cover(const char* k) { mc_cover(k); }

inline void label(const char* fmt, ...) {
    if (!mc_tracing()) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    mc_label(buf);
}
[[noreturn]] inline void fail(const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    mc_fail(nullptr, buf);
}
[[noreturn]] inline void fail_known(const char* key, const char* fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    mc_fail(key, buf);
}
inline std::string_view captured_cout() {
    size_t n = 0;
    const char* p = mc_cout(&n);
    return {p, n};
}
inline uint64_t hash_bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull ^ n;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
template <typename T> void observe(const T& v) {
    if constexpr (std::is_floating_point_v<T>) {
        double d = (double)v;
        uint64_t u;
        memcpy(&u, &d, 8);
        mc_observe(u);
    } else if constexpr (std::is_enum_v<T> || std::is_arithmetic_v<T>) {
        mc_observe((uint64_t)v);
    } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
        std::string_view s = v;
        mc_observe(hash_bytes(s.data(), s.size()));
    } else {
        mc_observe(0x77);
    }
}
inline void show_one(std::ostringstream& o, std::string_view s) {
    o << '"';
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 200) { o << "..."; break; }
        if (c >= 32 && c < 127) o << (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o << b; }
    }
    o << '"';
}
template <typename T> std::string show(const T& v) {
    std::ostringstream o;
    o.precision(12);
    if constexpr (std::is_convertible_v<const T&, std::string_view>) show_one(o, std::string_view(v));
    else if constexpr (std::is_enum_v<T>) o << (long long)v;
    else if constexpr (sizeof(T) == 1 && std::is_integral_v<T>) o << (int)v;
    else o << v;
    return o.str();
}
// the comparison every driver uses: `got` comes from the code under test, `want` from the reference model
template <typename A, typename B> void eq(const A& got, const B& want, const char* what) {
    observe(got);
    if (!(got == want)) fail("%s: got %s, expected %s", what, show(got).c_str(), show(want).c_str());
}
inline void check(bool ok, const char* fmt, ...) {
    mc_observe(ok);
    if (ok) return;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    mc_fail(nullptr, buf);
}

// name, maker, depth bound (0: initial states only), options
struct Opt { uint64_t max_states = 400000; bool leak_check = true; };
using Maker = std::function<Model*()>;
// P37 explores the drivers of other properties once more, in debug builds: it renames, wraps and bounds their configurations
struct Adjust { std::function<bool(std::string&, Maker&, int&, Opt&)> f; int tier = -1; };
inline Adjust& adjust() { static Adjust a; return a; }
// the caller is about to break a documented contract (debug builds report it)
inline int64_t& broken_contracts() { static int64_t n = 0; return n; }
inline void broken() {
#ifdef DEBUG_SPINE
    broken_contracts()++;
#endif
}
inline void config(std::string name, Maker make, int depth, Opt o = {}) {
    if (adjust().f && !adjust().f(name, make, depth, o)) return;
    auto* ctx = new Maker(std::move(make));
    mc_register(name.c_str(), depth, o.max_states, o.leak_check ? 1 : 0,
                [](void* c) -> void* { return static_cast<void*>((*static_cast<Maker*>(c))()); }, ctx);
}
inline bool thorough() { return (adjust().tier >= 0 ? adjust().tier : mc_tier()) == 1; }
} // namespace mc

// body of the function that registers the configurations of this driver
#ifndef MC_MAIN
#define MC_MAIN extern "C" void mc_configs()
#endif
