// P31: logging.
#include "ref.hpp"
#include <string>
#include "spine/core/debugging.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
using spn::logging::LogLevel;
static const char* name[] = {"OFF", "ERR", "WARN", "INFO", "DBG"};

static void at(int64_t ms) {
    spn::platform::MockStateInstance().millis = k_time_ms(ms);
    spn::platform::MockStateInstance().micros = k_time_us(0);
}
struct Quiet : mc::Model { // puts the process-wide state back
    Quiet() { reset(); }
    ~Quiet() override { reset(); }
    static void reset() {
        spn::logging::set_log_level(LogLevel::INFO);
        at(0);
    }
};
static std::string line(int level, int64_t ms, const std::string& text, const char* file, int ln, const char* fn) {
    char stamp[64];
    snprintf(stamp, sizeof stamp, "[%08u] [%s] ", (unsigned)(uint32_t)ms, name[level]);
    std::string s = stamp + text;
    if (level == 4) s += std::string(" (") + file + ":" + std::to_string(ln) + " " + fn + ")";
    if (s.size() > SPINE_LOGGING_MAX_MSG_SIZE - 1) {
        s.resize(SPINE_LOGGING_MAX_MSG_SIZE - 1);
        mc::cover("cut");
    }
    return s + "\n";
}
static void expect(size_t before, const std::string& want) {
    std::string got(mc::captured_cout().substr(before));
    mc::observe(want.size());
    if (got != want) mc::fail("printed %zu bytes '%s', expected %zu bytes '%s'", got.size(), got.c_str(), want.size(), want.c_str());
}
// every length of text, file and function name
struct Lengths : Quiet {
    std::vector<int> text, file, func;
    void step() override {
        int level = 1 + mc::choose(4), n = mc::pick(text), how = mc::choose(3);
        int f = level == 4 ? mc::pick(file) : 3, g = level == 4 ? mc::pick(func) : 1;
        int64_t ms = mc::pick(std::vector<int64_t>{0, 123456789});
        std::string t, ff((size_t)f, 'f'), gg((size_t)g, 'g');
        for (int i = 0; i < n; i++) t += (char)('a' + i % 26);
        mc::label("%s: %d characters, way %d, file name of %d, function name of %d", name[level], n, how, f, g);
        at(ms);
        spn::logging::set_log_level(LogLevel::DEBUG);
        size_t before = mc::captured_cout().size();
        auto l = (LogLevel)level;
        if (how == 0) spn::logging::detail::print(l, ff.c_str(), 77, gg.c_str(), "%s", t.c_str());
        if (how == 1) spn::logging::detail::print(l, ff.c_str(), 77, gg.c_str(), t.c_str());
        if (how == 2) spn::logging::detail::print(l, ff.c_str(), 77, gg.c_str(), "%d %s%c", n, t.c_str(), '!');
        if (how == 2) t = std::to_string(n) + " " + t + "!";
        expect(before, line(level, ms, t, ff.c_str(), 77, gg.c_str()));
        Quiet::reset();
    }
};
// the platform's own printing
struct Printing : mc::Model {
    void step() override {
        int n = mc::choose(400), how = mc::choose(5);
        std::string t, want;
        for (int i = 0; i < n; i++) t += (char)('a' + i % 26);
        mc::label("%d characters, way %d", n, how);
        size_t before = mc::captured_cout().size();
        if (how == 0) HAL::print(t.c_str()), want = t;
        if (how == 1) HAL::println(t), want = t + "\n";
        if (how == 2) HAL::printf("%s", t.c_str()), want = t.substr(0, 255);
        if (how == 3) HAL::printf(t.c_str()), want = t.substr(0, 255);
        if (how == 4) HAL::printf("%s|%d|%.2f%c", t.c_str(), n, 0.25, '!'), want = (t + "|" + std::to_string(n) + "|0.25!").substr(0, 255);
        HAL::printflush();
        expect(before, want);
    }
};
// level changes and the macros
struct Levels : Quiet {
    int64_t level = 3, ms = 0;
    void step() override {
        if (mc::choose(3) == 0) {
            level = mc::choose(5);
            mc::label("level %s", name[level]);
            spn::logging::set_log_level((LogLevel)level);
        } else {
            int m = 1 + mc::choose(4), how = mc::choose(2), n = mc::choose(4);
            static const int64_t times[] = {0, 7, 99999999, 4294967301LL};
            ms = times[n];
            at(ms);
            mc::label("message %d %s", m, name[m]);
            size_t before = mc::captured_cout().size();
            int ln = 0;
            std::string arg = "two";
            if (how == 0) {
                switch (m) {
                case 1: ln = __LINE__; SPN_ERR("%d %s%%", 1, arg.c_str()); break;
                case 2: ln = __LINE__; SPN_WARN("%d %s%%", 1, arg.c_str()); break;
                case 3: ln = __LINE__; SPN_LOG("%d %s%%", 1, arg.c_str()); break;
                default: ln = __LINE__; SPN_LOG_IMPL(LogLevel::DEBUG, "%d %s%%", 1, arg.c_str());
                }
            } else {
                switch (m) {
                case 1: ln = __LINE__; ERR("%d %s%%", 1, arg.c_str()); break;
                case 2: ln = __LINE__; WARN("%d %s%%", 1, arg.c_str()); break;
                case 3: ln = __LINE__; LOG("%d %s%%", 1, arg.c_str()); break;
                default: ln = __LINE__; SPN_LOG_IMPL(LogLevel::DEBUG, "%d %s%%", 1, arg.c_str());
                }
            }
            bool shown = m <= level;
            expect(before, shown ? line(m, ms, "1 two%", __FILE__, ln, __func__) : "");
            mc::cover(shown ? "shown" : "suppressed");
            // arguments are not even computed when the message is not shown
            int n2 = 0;
            SPN_LOG_IMPL((LogLevel)m, "%d", ++n2);
            mc::eq(n2, shown ? 1 : 0, "times the arguments were computed");
            at(0);
            ms = 0;
        }
        mc::eq((int64_t)spn::logging::log_level(), level, "log level");
        for (int m = 1; m <= 4; m++) mc::eq(spn::logging::is_loggable((LogLevel)m), m <= level, "is_loggable");
    }
};
MC_MAIN {
    bool th = mc::thorough();
    mc::config("lengths", [th] {
        auto* m = new Lengths;
        for (int i = 0; i <= 300; i++) m->text.push_back(i);
        for (int i : {511, 512, 1000, 5000}) m->text.push_back(i);
        m->file = {0, 1, 30, 300};
        m->func = {1, 20, 300};
        if (th) for (int i = 200; i < 260; i += 3) m->file.push_back(i), m->func.push_back(i);
        return m;
    }, 1);
    mc::config("printing", [] { return new Printing; }, 1);
    mc::config("levels", [th] { return new Levels; }, th ? 5 : 4);
}
