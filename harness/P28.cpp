// P28: string helpers.
#include "ref.hpp"
#include <array>
#include <cmath>
#include <memory>
#include <string>
#include "spine/core/utils/concatenate.hpp"
#include "spine/core/utils/string.hpp"
namespace u = spn::core::utils;

// The text lies in a block of its own in which nothing may be read before or behind it: a copy that ends exactly at
// the end of the block (found by the sanitizer) and one in the middle of text that would change the answer.
struct Text {
    std::unique_ptr<char[]> exact, inside;
    size_t n;
    explicit Text(const std::string& s, char around) : exact(new char[s.size()]), inside(new char[s.size() + 16]), n(s.size()) {
        memset(inside.get(), around, n + 16);
        memcpy(inside.get() + 8, s.data(), n);
        memcpy(exact.get(), s.data(), n);
    }
    std::string_view view(bool ex) const { return ex ? std::string_view(exact.get(), n) : std::string_view(inside.get() + 8, n); }
};
static std::string word(const std::string& alphabet, int max) {
    int n = mc::choose(max + 1), a = (int)alphabet.size();
    std::string s;
    for (int i = 0; i < n; i++) s += alphabet[mc::choose(a)];
    return s;
}
struct Spec {
    std::string alphabet, delimiters;
    int max, dmax;
};
struct Strip : mc::Model {
    const Spec* s;
    explicit Strip(const Spec* sp) : s(sp) {}
    void step() override {
        std::string t = word(s->alphabet, s->max), d = word(s->delimiters, s->dmax);
        bool standard = d.empty() && mc::flip();
        mc::label("text '%s', delimiters '%s'%s", mc::show(t).c_str(), mc::show(d).c_str(), standard ? " (default)" : "");
        std::string del = standard ? " \f\n\r\t\v" : d;
        size_t from = 0, to = t.size();
        while (from < t.size() && del.find(t[from]) != std::string::npos) from++;
        while (to > 0 && del.find(t[to - 1]) != std::string::npos) to--;
        for (char around : {'a', ' ', '1'})
            for (int ex = 0; ex < 2; ex++) {
                Text x(t, around);
                auto v = x.view(ex);
                auto l = standard ? u::lstrip(v) : u::lstrip(v, d);
                auto r = standard ? u::rstrip(v) : u::rstrip(v, d);
                mc::check(std::string(l) == t.substr(from), "lstrip: got '%s'", std::string(l).c_str());
                mc::check(std::string(r) == t.substr(0, to), "rstrip: got '%s'", std::string(r).c_str());
                if (!l.empty()) mc::check(l.data() == v.data() + from, "lstrip does not return a part of the text");
                if (!r.empty()) mc::check(r.data() == v.data(), "rstrip does not return a part of the text");
                size_t first = std::string::npos;
                for (size_t i = t.size(); i-- > 0;) if (del.find(t[i]) != std::string::npos) first = i;
                mc::eq(u::find_first_of(v, del), first, "find_first_of");
                if (t.size() && from == t.size()) mc::cover("only delimiters");
            }
    }
};
struct Affix : mc::Model {
    const Spec* s;
    explicit Affix(const Spec* sp) : s(sp) {}
    void step() override {
        std::string t = word(s->alphabet, s->max), n = word(s->alphabet, s->dmax);
        mc::label("text '%s', needle '%s'", mc::show(t).c_str(), mc::show(n).c_str());
        bool starts = n.size() <= t.size() && memcmp(t.data(), n.data(), n.size()) == 0;
        bool ends = n.size() <= t.size() && memcmp(t.data() + t.size() - n.size(), n.data(), n.size()) == 0;
        for (char around : {'a', 'b'})
            for (int ex = 0; ex < 2; ex++) {
                Text x(t, around), y(n, around);
                mc::eq(u::starts_with(x.view(ex), y.view(ex)), starts, "starts_with");
                mc::eq(u::ends_with(x.view(ex), y.view(ex)), ends, "ends_with");
            }
        if (n.size() > t.size()) mc::cover("longer needle");
    }
};
// decimal numbers in the usual notation; other notations the C library knows are not judged
static bool number(const std::string& t, double& v) {
    size_t i = 0;
    bool neg = false, digits = false;
    v = 0;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    for (; i < t.size() && isdigit((unsigned char)t[i]); i++) digits = true, v = v * 10 + (t[i] - '0');
    if (i < t.size() && t[i] == '.') {
        double f = 0.1;
        for (i++; i < t.size() && isdigit((unsigned char)t[i]); i++, f /= 10) digits = true, v += f * (t[i] - '0');
    }
    if (!digits) return false;
    if (i < t.size() && (t[i] == 'e')) {
        i++;
        int e = 0;
        bool en = false, ed = false;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) en = t[i++] == '-';
        for (; i < t.size() && isdigit((unsigned char)t[i]); i++) ed = true, e = std::min(e * 10 + (t[i] - '0'), 1000);
        if (!ed) return false;
        v *= std::pow(10.0, en ? -e : e);
    }
    if (neg) v = -v;
    return i == t.size();
}
struct Number : mc::Model {
    const Spec* s;
    explicit Number(const Spec* sp) : s(sp) {}
    void step() override {
        std::string t = word(s->alphabet, s->max);
        if (mc::flip()) t += mc::pick(std::vector<std::string>{"0.001220703125", "00000000000000000000000000000000000000000000000000000000000000000000000000001", "123456789"});
        double want = 0;
        bool ok = number(t, want);
        if (!ok) want = 0;
        mc::assume(t.empty() || !isspace((unsigned char)t[0])); // whether leading space belongs to a number is left open
        mc::assume(std::fabs(want) < 3e38 && (want == 0 || std::fabs(want) > 1e-30));
        mc::label("number '%s' (%s)", t.c_str(), ok ? "valid" : "invalid");
        for (char around : {'1', '.', 'e', ' ', 'x', '\0'})
            for (int ex = 0; ex < 2; ex++) {
                Text x(t, around);
                float got = u::to_float(x.view(ex));
                mc::observe(got);
                if (!(std::fabs(got - want) <= 1e-6 * std::fabs(want))) mc::fail("to_float: got %.9g, expected %.9g", got, want);
            }
        if (ok) mc::cover("numbers");
        else mc::cover("not numbers");
    }
};
// joining is done at compile time; what is compared is chosen among all shapes
template <size_t N> static std::string text(const std::array<char, N>& a) {
    mc::check(a[N - 1] == 0, "the result is not terminated");
    mc::eq(strlen(a.data()), N - 1, "length of the result");
    return a.data();
}
struct Join : mc::Model {
    void step() override {
        static constexpr char e[] = "", a[] = "x", b[] = "hello, ", c[] = "wor ld 123456789012345678901234567890";
        static constexpr std::array<char, 4> z{'a', 'b', 'c', 0};
        // longer than a byte counts
        static constexpr char l[] = "0123456789abcdefghij0123456789abcdefghij0123456789abcdefghij0123456789abcdefghij0123456789abcdefghij0123456789abcdefghij0123456789abcdefghij";
        static_assert(sizeof l == 141);
        int n = mc::choose(17);
        mc::label("join %d", n);
        std::string got, want;
#define J(i, w, ...) case i: { constexpr auto r = u::concat(__VA_ARGS__); got = text(r); want = w; break; }
        switch (n) {
            J(0, "", )
            J(1, "", e)
            J(2, "x", a)
            J(3, "x", a, e)
            J(4, "x", e, a)
            J(5, "hello, x", b, a)
            J(6, std::string(b) + c, b, c)
            J(7, "hello, xabc", b, a, z)
            J(8, "abcabcabc", z, z, z)
            J(9, "xxxx", a, a, a, a)
            J(10, std::string(c) + "abchello, x" + c, c, z, b, e, a, c)
            J(11, "abc", z)
            J(12, "", e, e, e)
            J(13, "abcdef", "ab", "cd", u::concat("e", "f"))
            J(14, std::string(l) + l, l, l)
            J(15, std::string(l) + l + "x" + l + l, l, l, a, l, l)
            J(16, std::string(l) + l + l + "abc", u::concat(l, l), l, z)
        }
#undef J
        mc::check(got == want, "joined '%s', expected '%s'", got.c_str(), want.c_str());
    }
};
template <typename M> static void add(const char* name, Spec s) {
    auto* p = new Spec(s);
    mc::config(name, [p] { return new M(p); }, 1);
}
MC_MAIN {
    int th = mc::thorough() ? 2 : 0;
    add<Strip>("stripping and searching", {"a b", " a", 5 + th, 2});
    add<Strip>("all white space", {" \t\nx\v", "x\n", 4 + th, 2});
    add<Strip>("no text of its own", {"-", "-+", 8 + th, 3});
    add<Affix>("prefixes and suffixes", {"ab", "", 6 + th, 5 + th});
    add<Affix>("three letters", {"abc", "", 4 + th, 3 + th});
    using namespace std::string_literals;
    add<Strip>("zero bytes and bytes above 127", {"a\0\xff"s, "\0\xff"s, 4 + th, 2});
    add<Affix>("zero bytes and bytes above 127 in both", {"a\0\xff"s, "", 4 + th, 3 + th});
    add<Number>("numbers", {"1-.e0", "", 5 + th, 0});
    add<Number>("numbers with other text", {"57+ x.", "", 4 + th, 0});
    mc::config("joining", [] { return new Join; }, 1);
}
