// P05: RingBuffer against a bounded sequence.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/ringbuffer.hpp"

using spn::structure::RingBuffer;

template <typename T, size_t CAP, bool LARGE> struct Ring : mc::Model {
    RingBuffer<T> rb{CAP};
    ref::Seq<T, CAP> ref;
    size_t overrun = 0;
    unsigned next = 0;

    static constexpr unsigned MOD = LARGE ? 251 : CAP + 3;
    T fresh() { return (T)(1 + (next++ % MOD)); }
    void settle() { next %= MOD; }

    std::vector<size_t> lengths() const {
        if (!LARGE) {
            std::vector<size_t> l;
            for (size_t i = 0; i <= CAP + 2; i++) l.push_back(i);
            return l;
        }
        std::vector<size_t> l = {1, CAP / 2, CAP - 1, CAP, CAP + 1};
        if (CAP > 256) l.push_back(256), l.push_back(255);
        if (CAP > 65536) l.push_back(65536);
        return l;
    }
    bool ref_push(T v, bool roll) {
        if (ref.size() == CAP) {
            if (!roll) return false;
            ref.pop_front();
            overrun++;
        }
        ref.push_back(v);
        return true;
    }
    void step() override {
        bool dropped = false;
        switch (mc::choose(9)) {
        case 0: {
            T v = fresh();
            bool roll = mc::flip();
            mc::label("push(%d, rollover=%d)", (int)v, roll);
            if (ref.size() == CAP) mc::cover(roll ? "overwrite" : "refused push");
            bool want = ref_push(v, roll);
            mc::eq(rb.push(v, roll), want, "push");
            break;
        }
        case 1: {
            size_t n = mc::pick(lengths());
            bool roll = mc::flip();
            std::vector<T> b(n);
            for (auto& x : b) x = fresh();
            mc::label("push(block of %zu, rollover=%d)", n, roll);
            size_t want = 0;
            if (LARGE && roll && n + ref.size() > CAP) { // bulk version of the loop below
                size_t lost = n + ref.size() - CAP, keep = n > CAP ? CAP : n;
                overrun += lost;
                ref.drop_front(ref.size() < lost ? ref.size() : lost);
                for (size_t i = n - keep; i < n; i++) ref.push_back(b[i]);
                want = n;
            } else
                for (size_t i = 0; i < n && ref_push(b[i], roll); i++) want++;
            mc::eq(rb.push(b.data(), n, roll), want, "push(block)");
            break;
        }
        case 2: {
            mc::label("pop()");
            bool want = !ref.empty();
            mc::eq(rb.pop(), want, "pop()");
            if (want) ref.pop_front(), overrun = 0;
            break;
        }
        case 3: {
            T v{};
            bool want = !ref.empty();
            bool got = rb.pop(v);
            mc::label("pop(v) -> %d", (int)v);
            mc::eq(got, want, "pop(value)");
            if (want) mc::eq(v, ref.pop_front(), "popped value"), overrun = 0;
            break;
        }
        case 4: {
            size_t n = mc::pick(lengths());
            std::vector<T> b(n + 1, T(77));
            size_t want = n <= ref.size() ? n : 0;
            mc::label("pop(block of %zu)", n);
            mc::eq(rb.pop(b.data(), n), want, "pop(block)");
            for (size_t i = 0; i < want; i++)
                if (!(b[i] == ref[i])) mc::eq(b[i], ref[i], "popped block element");
            mc::eq(b[n], T(77), "element after the destination of a block pop");
            if (want) ref.drop_front(want), overrun = 0, mc::cover("block pop");
            break;
        }
        case 5:
        case 6: {
            bool last = taken_last = mc::flip();
            size_t n = mc::pick(lengths());
            size_t want = n == 0 || n > ref.size() ? ref.size() : n;
            mc::label("%s(%zu)", last ? "drop_last" : "drop_first", n);
            size_t got = last ? rb.drop_last(n) : rb.drop_first(n);
            mc::eq(got, want, last ? "drop_last" : "drop_first");
            if (last) ref.drop_back(want);
            else ref.drop_front(want);
            taken_last = false;
            dropped = true;
            break;
        }
        case 7:
            mc::label("clear()");
            rb.clear();
            ref.clear();
            dropped = true;
            break;
        case 8: { // writing through a peeked pointer changes exactly that element
            if (ref.empty()) mc_prune();
            size_t i = LARGE ? mc::choose(2) * (ref.size() - 1) : mc::choose(ref.size());
            T* p = nullptr;
            mc::eq(rb.peek_at(&p, i), true, "peek_at(pointer)");
            mc::eq(*p, ref[i], "peeked element");
            T v = fresh();
            mc::label("*peek_at(%zu) = %d", i, (int)v);
            *p = v;
            ref[i] = v;
            break;
        }
        }
        settle();
        if (dropped) {
            mc::check(rb.overrun_space() <= overrun, "overrun count grew from %zu to %zu on a drop", overrun, rb.overrun_space());
            overrun = rb.overrun_space();
        }
        invariants();
    }
    void invariants() {
        mc::eq(rb.capacity(), CAP, "capacity");
        mc::eq(rb.used_space(), ref.size(), "used_space");
        mc::eq(rb.free_space(), CAP - ref.size(), "free_space");
        mc::eq(rb.empty(), ref.empty(), "empty");
        mc::eq(rb.full(), ref.size() == CAP, "full");
        mc::eq(rb.overrun_space(), overrun, "overrun_space");
        size_t stride = LARGE && ref.size() > 600 ? 127 : 1;
        for (size_t i = 0; i < ref.size(); i += stride) {
            T v{};
            if (!rb.peek_at(v, i)) mc::fail("peek_at(%zu) refused with %zu elements", i, ref.size());
            if (!(v == ref[i])) mc::eq(v, ref[i], "peek_at");
            T* p = nullptr;
            if (!rb.peek_at(&p, i) || !(*p == ref[i])) mc::fail("peek_at(pointer, %zu) is wrong", i);
        }
        T v = T(99);
        mc::eq(rb.peek_at(v, ref.size()), false, "peek past the end");
        mc::eq(v, T(99), "value after a refused peek");
        T* p = nullptr;
        mc::eq(rb.peek_at(&p, ref.size()), false, "peek past the end");
        mc::eq(rb.peek_at(static_cast<T**>(nullptr), 0), false, "peek into nothing");
        mc::observe(ref.size());
    }
    bool taken_last = false;
};

template <typename T, size_t CAP, bool L = false> static void add(const char* t, int depth) {
    char n[64];
    snprintf(n, sizeof n, "%s cap=%zu", t, CAP);
    mc::config(n, [] { return new Ring<T, CAP, L>; }, depth);
}
MC_MAIN {
    bool th = mc::thorough();
    add<int, 1>("int", th ? 40 : 12);
    add<uint8_t, 2>("uint8", th ? 12 : 6);
    add<int, 3>("int", th ? 8 : 6);
    add<char, 4>("char", th ? 7 : 5);
    add<int16_t, 5>("int16", th ? 5 : 3);
    add<uint8_t, 255, true>("uint8", th ? 4 : 3);
    add<uint8_t, 256, true>("uint8", th ? 4 : 3);
    add<int, 300, true>("int", th ? 4 : 3);
    add<uint8_t, 65540, true>("uint8", th ? 3 : 2);
}
