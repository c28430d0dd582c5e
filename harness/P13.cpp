// P13: Vector and Array stay inside their storage, own or lent, at any fill level.
#include "array_model.hpp"
// an array on a byte buffer of any length and any alignment that suits it
struct Buffers : mc::Model {
    template <typename T> void run(size_t length) {
        alignas(16) unsigned char mem[160];
        memset(mem, 0xA7, sizeof mem);
        {
            am::Array<T> a(mem + 16, length);
            mc::eq(a.size(), length / sizeof(T), "size");
            for (size_t i = 0; i < a.size(); i++) for (size_t b = 0; b < sizeof(T); b++) if (((unsigned char*)&a[i])[b]) mc::fail("element %zu is not zeroed", i);
            T x;
            memset((void*)&x, 0x11, sizeof x);
            a.fill(x);
            for (auto& e : a) e = x;
            if (a.size()) a.back() = x;
            if (length % sizeof(T)) mc::cover("buffer with a rest");
        }
        for (size_t i = 0; i < sizeof mem; i++) {
            bool in = i >= 16 && i < 16 + length / sizeof(T) * sizeof(T);
            bool end_of_buffer = i >= 16 && i < 16 + length;
            if (in && mem[i] != 0x11) mc::fail("byte %zu of the buffer is not part of an element", i - 16);
            if (!end_of_buffer && mem[i] != 0xA7) mc::fail("byte %zd next to the buffer changed", (ssize_t)i - 16);
        }
    }
    void step() override {
        size_t n = (size_t)mc::choose(90);
        mc::label("buffer of %zu bytes", n);
        switch (mc::choose(5)) {
        case 0: return run<uint8_t>(n);
        case 1: return run<uint16_t>(n);
        case 2: return run<int>(n);
        case 3: return run<double>(n);
        case 4: return run<vm::Wide>(n);
        }
    }
};
MC_MAIN {
    mc::config("byte buffers", [] { return new Buffers; }, 1);
    using namespace vm;
    bool th = mc::thorough();
    Ops o;
    o.assign = false;
    add<int, 1, Lent>("int, lent storage", 30, o);
    add<int, 2, Lent>("int, lent storage", 30, o);
    add<int, 3, Lent>("int, lent storage", 30, o);
    add<uint8_t, 3, Lent>("uint8, lent storage", 30, o);
    add<Wide, 2, Lent>("20-byte struct, lent storage", 30, o);
    o.assign = true;
    add<int, 0>("int", th ? 5 : 4, o);
    add<uint8_t, 1>("uint8", th ? 7 : 5, o);
    add<Wide, 2>("20-byte struct", th ? 6 : 5, o);
    add<int, 3>("int", th ? 7 : 5, o);
    am::add<int>("arrays of int, own and lent storage", th ? 4 : 3);
    am::add<uint8_t>("arrays of uint8, own and lent storage", th ? 4 : 3);
    o.ends_only = true;
    add<int, 300>("int", th ? 4 : 3, o);
}
