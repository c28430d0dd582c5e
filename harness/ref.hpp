// Building blocks for reference models. Everything is stored inline and unused space is zeroed, so that equal
// abstract states are equal bytes (the explorer merges states by content).
#pragma once
#include "mc.hpp"
#include <cstddef>

namespace ref {
template <typename T, size_t N> struct Seq {
    T v[N]{};
    size_t n = 0;
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T& operator[](size_t i) { return v[i]; }
    const T& operator[](size_t i) const { return v[i]; }
    void push_back(const T& x) {
        if (n >= N) mc::fail("driver error: reference sequence overflow");
        v[n++] = x;
    }
    T erase(size_t i) {
        T x = v[i];
        for (size_t k = i; k + 1 < n; k++) v[k] = v[k + 1];
        v[--n] = T{};
        return x;
    }
    void insert(size_t i, const T& x) {
        if (n >= N) mc::fail("driver error: reference sequence overflow");
        for (size_t k = n; k > i; k--) v[k] = v[k - 1];
        v[i] = x;
        n++;
    }
    T pop_front() { return erase(0); }
    T pop_back() { return erase(n - 1); }
    void clear() { while (n) v[--n] = T{}; }
    void drop_front(size_t k) {
        for (size_t i = 0; i + k < n; i++) v[i] = v[i + k];
        for (size_t i = n - k; i < n; i++) v[i] = T{};
        n -= k;
    }
    void drop_back(size_t k) { while (k--) v[--n] = T{}; }
    T& front() { return v[0]; }
    T& back() { return v[n - 1]; }
    T* begin() { return v; }
    T* end() { return v + n; }
};

// caller-owned memory with guard bytes on both sides
template <size_t N> struct Guarded {
    unsigned char pre[16], mem[N], post[16];
    Guarded(unsigned char fill = 0x5A) {
        memset(pre, 0xE1, sizeof pre);
        memset(post, 0xE2, sizeof post);
        memset(mem, fill, N);
    }
    bool intact() const {
        for (auto c : pre) if (c != 0xE1) return false;
        for (auto c : post) if (c != 0xE2) return false;
        return true;
    }
};
} // namespace ref
