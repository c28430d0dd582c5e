// P21: dates and times, with the clock set to UTC.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include <ctime>
#include <new>
#ifndef MC_PART // it has no include guard
#include "spine/structure/time/datetime.hpp"
#endif

struct Civil { int64_t y; int m, d, wday, yday; };
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int month_days(int64_t y, int m) {
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return n[m - 1] + (m == 2 && leap(y));
}
static int64_t days_before(int64_t y) { // 1970-01-01 to 1 January of y
    auto before = [](int64_t n) { n--; return 365 * n + n / 4 - n / 100 + n / 400; };
    return before(y) - before(1970);
}
static const char* MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char* DOW[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};

struct Spec {
    std::vector<int> years, times; // seconds of the day
    std::vector<int> garbage{0, 0xFF, 1, 0x7F};
    bool format = false;
    int max_day = 31;
    std::vector<const char*> zones{}; // other than UTC
};
static void zone(const char* name) {
    setenv("TZ", name, 1);
    tzset();
}
struct Dates : mc::Model {
    const Spec* s;
    explicit Dates(const Spec* sp) : s(sp) {}

    void is(DateTime& t, const Civil& c, int sod, int64_t stamp, const char* how) {
        if (t.getYear() == c.y && t.getMonth() == c.m && t.getDay() == c.d && t.getHour() == sod / 3600
            && t.getMinute() == sod / 60 % 60 && t.getSecond() == sod % 60 && t.getWeekDay() == c.wday
            && t.getYearDay() == c.yday && t.getDST() == 0 && t.getUnixTime() == stamp
            && t.getY2kTime() == stamp - 946684800)
            return;
        mc::fail("%s %lld-%02d-%02d %02d:%02d:%02d (weekday %d, day %d of the year, %lld): got %d-%02d-%02d %02d:%02d:%02d "
                 "(weekday %d, day %d, dst %d, %lld, since 2000 %lld)",
                 how, (long long)c.y, c.m, c.d, sod / 3600, sod / 60 % 60, sod % 60, c.wday, c.yday, (long long)stamp,
                 t.getYear(), t.getMonth(), t.getDay(), t.getHour(), t.getMinute(), t.getSecond(), t.getWeekDay(),
                 t.getYearDay(), t.getDST(), (long long)t.getUnixTime(), (long long)t.getY2kTime());
    }
    template <typename... A> DateTime* make(void* mem, int garbage, A... a) {
        memset(mem, garbage, sizeof(DateTime));
        return new (mem) DateTime(a...);
    }
    void step() override {
        if (s->zones.empty()) return days();
        const char* name = mc::pick(s->zones); // where it is used must not matter for what a timestamp shows
        mc::label("time zone %s", name);
        zone(name);
        days();
        zone("UTC0");
    }
    void days() {
        int y = mc::pick(s->years), m = 1 + mc::choose(12);
        int g = mc::pick(s->garbage);
        int how = mc::choose(s->format || !s->zones.empty() ? 1 : 4);
        mc::label("%d-%02d, construction %d", y, m, how);
        alignas(DateTime) char mem[sizeof(DateTime)];
        Civil c{y, m, 1, 0, 0};
        for (int i = 1; i < m; i++) c.yday += month_days(y, i);
        int64_t day = days_before(y) + c.yday;
        for (c.d = 1; c.d <= std::min(month_days(y, m), s->max_day); c.d++, c.yday++, day++) {
            c.wday = (int)((day + 4) % 7); // 1970-01-01 was a Thursday
            for (int sod : s->times) {
                int64_t stamp = day * 86400 + sod;
                int h = sod / 3600, mi = sod / 60 % 60, se = sod % 60;
                if (s->format) format(c, sod, stamp);
                else if (how == 0) is(*make(mem, g, (time_t)stamp), c, sod, stamp, "from timestamp:");
                else if (how == 1) {
                    is(*make(mem, g, y, m, c.d, h, mi, se), c, sod, stamp, "from fields:");
                    // what is left out of the time of day is zero
                    if (!se) is(*make(mem, g, y, m, c.d, h, mi), c, sod, stamp, "from fields without seconds:");
                    if (!se && !mi) is(*make(mem, g, y, m, c.d, h), c, sod, stamp, "from fields without minutes:");
                    if (!sod) is(*make(mem, g, y, m, c.d), c, sod, stamp, "from a date alone:");
                }
                else if (how == 2) is(*make(mem, g, y, m, c.d, h, mi, se, c.wday + 1, c.yday, 0), c, sod, stamp, "from all fields:");
                else {
                    char d[32], t[32];
                    snprintf(d, sizeof d, "%s %2d %d", MON[m - 1], c.d, y);
                    snprintf(t, sizeof t, "%02d:%02d:%02d", h, mi, se);
                    is(*make(mem, g, (const char*)d, (const char*)t), c, sod, stamp, "from text:");
                    if (c.d < 10) {
                        d[4] = '0'; // both ways to pad
                        is(*make(mem, g, (const char*)d, (const char*)t), c, sod, stamp, "from zero-padded text:");
                    }
                }
            }
        }
        mc::observe(day);
    }
    void format(const Civil& c, int sod, int64_t stamp) {
        DateTime t((time_t)stamp);
        char want[3][512];
        snprintf(want[0], 512, "%s %s %02d %02d:%02d:%02d %lld", DOW[c.wday], MON[c.m - 1], c.d, sod / 3600, sod / 60 % 60, sod % 60, (long long)c.y);
        snprintf(want[1], 512, "%lld-%02d-%02d/%03d", (long long)c.y, c.m, c.d, c.yday + 1);
        static char many[512];
        for (int i = 0; i < 37; i++) memcpy(many + 7 * i, "%Y%m%d ", 8);
        char* w = want[2];
        for (int i = 0; i < 37; i++) w += snprintf(w, 16, "%04lld%02d%02d ", (long long)c.y, c.m, c.d);
        for (int f = 0; f < 3; f++) {
            size_t len = strlen(want[f]);
            for (size_t size = 0; size <= len + 2; size++) {
                if (size > 2 && size + 2 < len) continue;
                std::vector<char> b(size + 16, '!');
                size_t got = f ? t.strf_DateTime(b.data() + 8, size, f == 2 ? many : "%Y-%m-%d/%j") : t.strf_DateTime(b.data() + 8, size);
                if (size > len) {
                    if (got != len || strcmp(b.data() + 8, want[f])) mc::fail("formatting: got %s, expected %s", b.data() + 8, want[f]);
                } else {
                    mc::check(got <= size, "formatting into %zu bytes reports %zu", size, got);
                }
                for (size_t i = 0; i < b.size(); i++)
                    if ((i < 8 || i >= size + 8) && b[i] != '!') mc::fail("formatting into %zu bytes wrote byte %d", size, (int)i - 8);
            }
        }
    }
};
MC_MAIN {
    zone("UTC0");
    struct tm warm {};
    warm.tm_year = 100;
    mktime(&warm);
    char b[64];
    strftime(b, sizeof b, "%a %h %d %T %Y %j %m", &warm);
    bool th = mc::thorough();
    auto add = [](const char* name, Spec s) {
        auto* p = new Spec(std::move(s));
        mc::config(name, [p] { return new Dates(p); }, 1, {100});
    };
    std::vector<int> years, few = {1970, 1999, 2000, 2008, 2024, 2038, 2100, 2400};
    for (int y = 1970; y <= (th ? 2420 : 2110); y++) years.push_back(y);
    for (int y : {2199, 2200, 2399, 2400, 2401, 2800, 3000, 4000, 9999}) if (!th || y > 2420) years.push_back(y);
    add("every day", {years, {0, 1, 32888, 43200, 86399}});
    std::vector<int> minutes, seconds;
    for (int t = 0; t < 86400; t += 60) minutes.push_back(t + 59);
    for (int t = 0; t < 86400; t++) seconds.push_back(t);
    for (int h : {0, 7, 8, 9, 10, 18, 19, 20, 23})
        for (int k = 0; k < 60; k++) minutes.push_back(h * 3600 + k * 60 + k);
    add("every minute", {th ? few : std::vector<int>{2000, 2038}, minutes, {0, 0xFF}});
    if (th) add("every second", {{2024}, seconds, {0xFF}, false, 2});
    add("time zones", {few, {0, 1, 3599, 7200, 43200, 86399}, {0}, false, 31, {"EST5", "XYZ-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "ABC12", "DEF-14"}});
    add("formatting", {few, {0, 32888, 86399}, {0}, true});
}
