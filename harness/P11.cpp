// P11: Vector against a bounded double-ended sequence.
#include "vector_model.hpp"
// capacities that need more than 16 bits
struct Huge : mc::Model {
    std::vector<size_t> counts;
    int rounds;
    void step() override {
        constexpr size_t CAP = 70000;
        vm::Vector<uint8_t> v(CAP);
        std::vector<uint8_t> ref(3 * CAP); // a window that grows to both sides
        size_t a = 0, z = 0, mid = ref.size() / 2;
        a = z = mid;
        uint8_t next = 1;
        for (int k = 0; k < rounds; k++) {
            int what = mc::choose(4);
            size_t n = std::min(mc::pick(counts), what == 1 ? size_t(300) : size_t(-1)); // adding at the front shifts all others
            const char* name[] = {"push_back", "push_front", "pop_back", "pop_front"};
            mc::label("%s x %zu", name[what], n);
            if (z + n > ref.size() || a < n) { // recentre
                std::vector<uint8_t> r(ref.size());
                size_t m = z - a;
                memcpy(&r[mid - m / 2], &ref[a], m);
                a = mid - m / 2;
                z = a + m;
                ref = r;
            }
            for (size_t i = 0; i < n; i++) switch (what) {
                case 0:
                    v.push_back(next);
                    if (z - a < CAP) ref[z++] = next;
                    else mc::broken();
                    next = (uint8_t)(next * 5 + 1);
                    break;
                case 1:
                    v.push_front(next);
                    if (z - a < CAP) ref[--a] = next;
                    else mc::broken();
                    next = (uint8_t)(next * 5 + 1);
                    break;
                case 2: if (z != a) { if (v.pop_back() != ref[z - 1]) mc::fail("popped the wrong element"); z--; } break;
                case 3: if (z != a) { if (v.pop_front() != ref[a]) mc::fail("popped the wrong element"); a++; } break;
                }
            mc::eq(v.size(), z - a, "size");
            mc::eq(v.full(), z - a == CAP, "full");
            for (size_t i = 0; i < z - a; i++) if (v[i] != ref[a + i]) mc::fail("[%zu] is %d, expected %d", i, v[i], ref[a + i]);
            size_t i = 0;
            for (auto x : v) if (i >= z - a || x != ref[a + i++]) mc::fail("iteration differs at %zu", i);
            mc::eq(i, z - a, "elements iterated");
            if (i > 65536) mc::cover("more than 65536 elements");
        }
        for (size_t at : {size_t(256), size_t(65536)}) {
            if (at >= z - a) continue;
            if (v.remove(at) != ref[a + at]) mc::fail("removed the wrong element at %zu", at);
            memmove(&ref[a + at], &ref[a + at + 1], z - a - at - 1);
            z--;
            v.insert(at / 2, 77);
            memmove(&ref[a - 1], &ref[a], at / 2);
            a--;
            ref[a + at / 2] = 77;
        }
        for (size_t i = 0; i < z - a; i++) if (v[i] != ref[a + i]) mc::fail("[%zu] is %d, expected %d", i, v[i], ref[a + i]);
    }
};
MC_MAIN {
    using namespace vm;
    bool th = mc::thorough();
    Ops o;
    add<int, 1>("int", th ? 8 : 6, o);
    add<int, 2>("int", th ? 8 : 6, o);
    add<int, 3>("int", th ? 7 : 6, o);
    add<uint8_t, 4>("uint8", th ? 7 : 5, o);
    add<Wide, 3>("20-byte struct", th ? 7 : 5, o);
    add<int, 5>("int", th ? 6 : 5, o);
    add<int, 4, OwnFilled>("int, constructed full", th ? 6 : 5, o);
    add<int, 4, Lent>("int, lent storage", th ? 6 : 5, o);
    Ops narrow = o; // no assignments and aliases: longer histories of the plain operations
    narrow.assign = narrow.alias = false;
    add<int, 3>("int, plain operations", 30, narrow, 3000000);
    add<int, 5>("int, plain operations", th ? 12 : 8, narrow, 3000000);
    Ops big = o;
    big.ends_only = true;
    add<int, 300>("int", th ? 4 : 3, big);
    mc::config("70000 elements", [th] {
        auto* m = new Huge;
        m->counts = {1, 255, 65535, 65537};
        m->rounds = th ? 4 : 3;
        return m;
    }, 1);
}
