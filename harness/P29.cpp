// P29: static strings.
#include "ref.hpp"
#include <string>
#include "spine/structure/static_string.hpp"
using spn::structure::StaticString;

static std::string word(const std::string& alphabet, int max) {
    int n = mc::choose(max + 1), a = (int)alphabet.size();
    std::string s;
    for (int i = 0; i < n; i++) s += alphabet[mc::choose(a)];
    return s;
}
struct Spec {
    std::vector<size_t> sizes;
    std::string alphabet, delimiters;
    int max;      // longest text written
    int dmax;
};
struct Model : mc::Model {
    const Spec* s;
    StaticString x;
    ref::Seq<char, 96> want; // the text; bytes not yet written are not known ('\1')
    uintptr_t storage;
    int64_t capacity;
    explicit Model(const Spec* sp) : s(sp), x(mc::pick(sp->sizes)) {
        mc::label("requested %zu bytes, got %zu", x.size(), x.capacity());
        storage = (uintptr_t)x.c_str();
        capacity = (int64_t)x.capacity();
        mc::assume(x.size() <= 90);
        for (size_t i = 0; i < x.size(); i++) want.push_back(0);
        verify();
    }
    void verify() {
        const StaticString& c = x;
        mc::eq(c.size(), want.size(), "size");
        mc::eq((int64_t)c.capacity(), capacity, "capacity");
        mc::check((uintptr_t)c.c_str() == storage && (uintptr_t)x.data() == storage, "the storage moved");
        mc::check(c.view().data() == c.c_str() && c.view().size() == want.size(), "view");
        for (size_t i = 0; i < want.size(); i++)
            if (want[i] != '\1' && c.view()[i] != want[i]) mc::fail("byte %zu is %02x, expected %02x", i, (unsigned char)c.view()[i], (unsigned char)want[i]);
        mc::check(c.c_str()[want.size()] == 0, "not terminated");
        mc::observe(want.size());
    }
    bool known() {
        for (char c : want) if (c == '\1') return false;
        return true;
    }
    void resize(size_t n) {
        n = std::min(n, (size_t)capacity);
        if (n < want.size()) want.drop_back(want.size() - n);
        while (want.size() < n) want.push_back('\1'); // what fills the new part is not promised
    }
    void step() override {
        unsigned long allocations = mc_allocs();
        int op = mc::choose(7);
        switch (op) {
        case 0: {
            size_t n = mc::pick(std::vector<size_t>{0, 1, 2, want.size(), (size_t)capacity - 1, (size_t)capacity, (size_t)capacity + 1, 3 * (size_t)capacity});
            mc::label("set_size(%zu)", n);
            allocations = mc_allocs();
            x.set_size(n);
            mc::check(mc_allocs() == allocations, "memory was allocated");
            if (n > (size_t)capacity) mc::broken(), mc::cover("beyond the capacity");
            resize(n);
            break;
        }
        case 1: { // the documented way to write
            std::string t = word(s->alphabet, s->max);
            mc::label("write '%s'", mc::show(t).c_str());
            if (t.size() > (size_t)capacity || t.empty()) mc_prune();
            allocations = mc_allocs();
            char* p = x.data(t.size());
            mc::check(mc_allocs() == allocations, "memory was allocated");
            memcpy(p, t.data(), t.size());
            want.clear();
            for (char c : t) want.push_back(c);
            mc::cover("written");
            break;
        }
        case 2: { // announce more than fits
            mc::label("data(%lld)", (long long)capacity + 5);
            allocations = mc_allocs();
            mc::broken();
            x.data((size_t)capacity + 5);
            mc::check(mc_allocs() == allocations, "memory was allocated");
            resize((size_t)capacity + 5);
            break;
        }
        case 3:
        case 4: {
            mc::assume(known());
            std::string d = word(s->delimiters, s->dmax);
            bool standard = d.empty() && mc::flip();
            mc::label("%cstrip('%s'%s)", op == 3 ? 'l' : 'r', mc::show(d).c_str(), standard ? "default" : "");
            std::string del = standard ? " \f\n\r\t\v" : d;
            auto has = [&](char c) { return del.find(c) != std::string::npos; };
            size_t before = want.size();
            if (op == 3) while (!want.empty() && has(want[0])) want.pop_front();
            else while (!want.empty() && has(want.back())) want.pop_back();
            allocations = mc_allocs();
            StaticString& r = op == 3 ? (standard ? x.lstrip() : x.lstrip(d)) : (standard ? x.rstrip() : x.rstrip(d));
            mc::check(mc_allocs() == allocations, "memory was allocated");
            mc::check(&r == &x, "returns another string");
            if (before && want.empty()) mc::cover("only delimiters");
            else if (before > want.size()) mc::cover("stripped");
            break;
        }
        default: {
            mc::assume(known());
            std::string n = mc::flip() ? word(s->alphabet, 2) : std::string(want.begin(), want.end());
            int add = mc::choose(4);
            if (add == 1) n += 'a';
            if (add == 2) n = "a" + n;
            if (add == 3 && !n.empty()) n.resize(n.size() - 1);
            mc::label("affix '%s'", mc::show(n).c_str());
            std::string t(want.begin(), want.end());
            bool starts = t.size() >= n.size() && t.compare(0, n.size(), n) == 0;
            bool ends = t.size() >= n.size() && t.compare(t.size() - n.size(), n.size(), n) == 0;
            const StaticString& c = x;
            mc::eq(c.starts_with(n), starts, "starts_with");
            mc::eq(c.ends_with(n), ends, "ends_with");
            break;
        }
        }
        verify();
    }
};
// sizes that need more than 8 or 16 bits
struct Large : mc::Model {
    void step() override {
        size_t n = mc::pick(std::vector<size_t>{127, 128, 255, 256, 257, 300, 65535, 65536, 70000});
        StaticString x(n);
        size_t cap = x.capacity();
        auto* at = x.c_str();
        mc::check(cap >= n, "capacity %zu, requested %zu", cap, n);
        mc::eq(x.size(), n, "size");
        size_t want = mc::pick(std::vector<size_t>{1, 127, 128, 255, 256, 257, 299, 65536, 69999});
        mc::assume(want <= n);
        mc::label("%zu bytes, %zu written", n, want);
        char* p = x.data(want);
        for (size_t i = 0; i < want; i++) p[i] = (char)('a' + i % 23);
        size_t spaces = mc::pick(std::vector<size_t>{0, 1, 128, 256, 300, 65536}), front = mc::flip() ? 1 : 0;
        mc::assume(spaces <= want);
        for (size_t i = 0; i < spaces; i++) p[front ? i : want - 1 - i] = ' ';
        std::string text(p, want);
        mc::eq(x.view(), std::string_view(text), "text");
        mc::check(x.starts_with(text) && x.ends_with(text), "its own affix");
        text += 'z';
        mc::check(!x.starts_with(text) && !x.ends_with(text), "a longer affix");
        text.pop_back();
        auto a0 = mc_allocs();
        if (front) x.lstrip();
        else x.rstrip();
        if (front) text.erase(0, spaces);
        else text.resize(want - spaces);
        mc::eq(x.view(), std::string_view(text), "stripped text");
        x.set_size(want / 2);
        mc::eq(x.size(), want / 2, "size");
        mc::broken();
        x.set_size(cap + 1);
        mc::eq(x.size(), cap, "size");
        x.set_size(cap - 1);
        mc::eq(x.size(), cap - 1, "size");
        mc::check(x.c_str() == at && x.capacity() == cap && (mc_allocs() == a0 || text.size() > 15), "the storage changed");
        mc::cover("large strings");
    }
};
static void add(const char* name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new Model(p); }, depth, {3000000});
}
MC_MAIN {
    int th = mc::thorough();
    add("short strings", {{0, 1, 15, 16}, " a", " a", 3, 1}, 4 + th);
    add("all words", {{16, 40}, " ab", " a", 5 + th, 2}, 3);
    add("heap strings", {{17, 31, 32, 64}, " a", " ", 2, 1}, 5 + th);
    mc::config("large strings", [] { return new Large; }, 1);
    using namespace std::string_literals;
    add("zero bytes and bytes above 127", {{4, 16}, "a\0\xff"s, "\0\xff"s, 3, 1}, 3 + th);
    add("white space", {{20}, "a \t\n", "a\n", 4 + th, 1}, 3);
}
