// P30: printing and parsing times.
#include "ref.hpp"
#include <memory>
#include <string>
#include "spine/core/debugging.hpp"
#include "spine/core/utils/time_repr.hpp"
namespace u = spn::core::utils;
using I128 = __int128;
static const char* units[] = {"us", "ms", "s", "m", "h", "d"};
static const int64_t factor[] = {1, 1000, 1000000, 60000000, 3600000000LL, 86400000000LL};
using Parsed = decltype(u::parse_time(""));

// amount and unit of a parsed text
static bool parsed(std::string_view t, int& unit, int64_t& amount) {
    Parsed p = u::parse_time(t);
    if (!p) return false;
    unit = (int)p->index();
    amount = std::visit([](auto x) { return (int64_t)x.raw(); }, *p);
    return true;
}
static int64_t nearest(int64_t us, int64_t f) { // conversion between kernel times rounds to the nearest, half away from zero
    int64_t q = us / f, r = us % f;
    if (2 * (I128)(r < 0 ? -r : r) >= f) q += r < 0 ? -1 : 1;
    return q;
}
template <typename T> static void print(const char* what, int64_t raw, int64_t f) {
    int64_t us = raw * f;
    static const int64_t limit[] = {1000, 1000, 900, 1440, 24};
    int k = 0;
    while (k < 5 && nearest(us, factor[k]) >= limit[k]) k++;
    std::string want = std::to_string(nearest(us, factor[k])) + units[k], got = u::repr(T(raw));
    mc::label("repr of %lld %s", (long long)raw, what);
    mc::observe(nearest(us, factor[k]) * 6 + k);
    mc::check(got == want, "repr: got %s, expected %s", got.c_str(), want.c_str());
    if (us < 0) return;
    int unit = -1;
    int64_t amount = -1;
    mc::check(parsed(got, unit, amount), "%s does not parse back", got.c_str());
    mc::eq(unit, k, "unit parsed back");
    mc::eq(amount, nearest(us, factor[k]), "amount parsed back");
    static const char* names[] = {"us", "ms", "s", "m", "h (not reachable)", "d"};
    mc::cover(names[k]);
}
struct Print : mc::Model {
    int64_t range;
    explicit Print(int64_t r) : range(r) {}
    void step() override {
        int to = mc::choose(7);
        if (to == 6) { // every quarter of a unit
            int k = mc::choose(6), d = mc::choose(3);
            int64_t q = (int64_t)mc::choose(7000) * factor[k] / 4 + d - 1;
            return print<k_time_us>("us", mc::flip() ? -q : q, 1);
        }
        // values around every power, threshold and multiple that the choice of the unit can depend on
        static const int64_t at[] = {0, 1000, 999500, 1000000, 1500000, 59500000, 60000000, 899500000, 900000000, 930000000, 1800000000,
                                     3600000000LL, 86370000000LL, 86400000000LL, 129600000000LL, 172800000000LL, 31536000000000LL, 86400000000LL * 100000};
        int64_t us = at[mc::choose(18)];
        int64_t d = mc::choose((int)(2 * range + 1)) - range;
        bool neg = mc::flip();
        switch (to) {
        case 0: return print<k_time_us>("us", neg ? -(us + d) : us + d, 1);
        case 1: return print<k_time_ms>("ms", neg ? -(us / 1000 + d) : us / 1000 + d, 1000);
        case 2: return print<k_time_s>("s", neg ? -(us / 1000000 + d) : us / 1000000 + d, 1000000);
        case 3: return print<k_time_m>("m", neg ? -(us / 60000000 + d) : us / 60000000 + d, 60000000);
        case 4: return print<k_time_h>("h", neg ? -(us / 3600000000LL + d) : us / 3600000000LL + d, 3600000000LL);
        default: return print<k_time_d>("d", neg ? -(us / 86400000000LL + d) : us / 86400000000LL + d, 86400000000LL);
        }
    }
};
// text, as part of a larger one that would change the answer, or with nothing behind it
static void parse(const std::string& t) {
    size_t n = 0;
    I128 want = 0;
    bool ok = true;
    while (n < t.size() && isdigit((unsigned char)t[n])) {
        want = want * 10 + (t[n++] - '0');
        if (want > INT64_MAX) ok = false, want = INT64_MAX;
    }
    int k = 0;
    while (k < 6 && t.substr(n) != units[k]) k++;
    ok = ok && n > 0 && k < 6;
    mc::label("parse '%s' (%s)", t.c_str(), ok ? "valid" : "invalid");
    std::unique_ptr<char[]> exact(new char[t.size()]), inside(new char[t.size() + 2]);
    memcpy(exact.get(), t.data(), t.size());
    memcpy(inside.get() + 1, t.data(), t.size());
    for (char around : {'1', 's', 'm'}) {
        inside[0] = inside[t.size() + 1] = around;
        for (int ex = 0; ex < 2; ex++) {
            int unit = -1;
            int64_t amount = -1;
            bool got = parsed(ex ? std::string_view(exact.get(), t.size()) : std::string_view(inside.get() + 1, t.size()), unit, amount);
            mc::eq(got, ok, "accepted");
            if (ok) {
                mc::eq(unit, k, "unit");
                mc::eq(amount, (int64_t)want, "amount");
            }
        }
    }
    if (ok) mc::cover("accepted");
    else if (n == 0) mc::cover("no number");
    else if (k < 6) mc::cover("unrepresentable number");
    else mc::cover("no unit");
}
struct Words : mc::Model {
    const char* alphabet;
    int max;
    Words(const char* a, int m) : alphabet(a), max(m) {}
    void step() override {
        std::string t;
        int n = mc::choose(max + 1), a = (int)strlen(alphabet);
        for (int i = 0; i < n; i++) t += alphabet[mc::choose(a)];
        parse(t);
    }
};
struct Numbers : mc::Model {
    void step() override {
        static const char* number[] = {"0", "00", "007", "1", "9", "10", "999", "1000", "32767", "32768", "65536", "2147483647", "2147483648", "4294967296", "4294967301",
                                       "9223372036854775799", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "18446744073709551615",
                                       "18446744073709551616", "18446744073709551621", "92233720368547758070", "99999999999999999999999999999999999999999", "000000000000000000000000000000000000000000012",
                                       "-1", "+1", " 1", "1 ", "1.5", "1,5", "0x10", "1e3", "--1", ""};
        static const char* unit[] = {"us", "ms", "s", "m", "h", "d", "", "u", "S", "US", "Ms", "M", "sec", "min", "day", "hm", "dd", "uss", " s", "s ", "-s", "s1", "m5", "mss", "\xc2\xb5s", "W", "Y", "ns"};
        int a = mc::choose(37), b = mc::choose(28);
        parse(std::string(number[a]) + unit[b]);
    }
};
MC_MAIN {
    bool th = mc::thorough();
    mc::config("printing", [th] { return new Print(th ? 400 : 40); }, 1);
    mc::config("all words", [th] { return new Words("10usmhd", th ? 7 : 6); }, 1);
    mc::config("all signs", [th] { return new Words("1-+ s.m", th ? 6 : 5); }, 1);
    mc::config("numbers", [] { return new Numbers; }, 1);
}
