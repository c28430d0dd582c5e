// P37: debug builds report broken contracts, and only those.
// MC-FLAGS: -DDEBUG_SPINE
#include "debug_parts.hpp"
#include "ref.hpp"
#include "spine/controller/pid.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/io/stream/stream.hpp"
#include "spine/io/stream/transaction.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/vector.hpp"
#undef MC_MAIN
#define MC_MAIN extern "C" void mc_configs()

namespace dbg {
int64_t raised = 0, others = 0;
char first[200] = {};

struct Counter : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        bool assertion = !strcmp(e.error_type(), "Assertion exception");
        if (!(raised + others)) snprintf(first, sizeof first, "%s: %s", e.error_type(), e.what());
        (assertion ? raised : others)++;
    }
};
// runs another driver's model, which marks each broken contract by mc::broken()
struct Watch : mc::Model {
    std::unique_ptr<mc::Model> m;
    explicit Watch(mc::Maker* make) {
        spn::logging::set_log_level(spn::logging::LogLevel::DEBUG);
        (void)spn::core::set_machine_exception_handler(std::make_unique<Counter>());
        m.reset((*make)());
        judge();
    }
    ~Watch() override {
        m.reset();
        (void)spn::core::set_machine_exception_handler(nullptr);
        if (raised) mc::fail("an assertion failed in the destruction: %s", first);
    }
    void judge() {
        int64_t b = mc::broken_contracts(), r = raised, o = others;
        mc::broken_contracts() = raised = others = 0;
        mc::observe(r);
        mc::observe(o);
        if (o) mc::fail("a debug build raised an error: %s", first);
        if (r && !b) mc::fail("an assertion failed in legal use: %s", first);
        if (b && !r) mc::fail("a broken contract was not reported");
        if (b) mc::cover("a broken contract was reported");
        memset(first, 0, sizeof first);
    }
    void step() override {
        m->step();
        judge();
    }
};
void part(const char* property, void (*configs)()) {
    bool th = mc_tier() == 1;
    mc::adjust().tier = 0;
    mc::adjust().f = [property, th](std::string& name, mc::Maker& make, int& depth, mc::Opt& o) {
        name = std::string(property) + ": " + name;
        if (!th) depth -= depth > 6 ? 2 : depth > 2 ? 1 : 0;
        auto* inner = new mc::Maker(make);
        make = [inner]() -> mc::Model* { return new Watch(inner); };
        return true;
    };
    configs();
    mc::adjust() = mc::Adjust{};
}
} // namespace dbg
namespace macros {
using spn::logging::LogLevel;
struct Left {};
struct Seen {
    int64_t n = 0;
    char type[32] = {}, what[64] = {};
};
static Seen seen;
static bool handler_throws;
struct Handler : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        seen.n++;
        snprintf(seen.type, sizeof seen.type, "%s", e.error_type());
        snprintf(seen.what, sizeof seen.what, "%s", e.what());
        if (handler_throws) throw Left{};
    }
};
static const char* levels[] = {"off", "errors", "warnings", "informational", "debug"};
struct Base : mc::Model {
    ~Base() override {
        (void)spn::core::set_machine_exception_handler(nullptr);
        spn::logging::set_log_level(LogLevel::INFO);
    }
    void install(int handler, int level) {
        spn::logging::set_log_level(LogLevel::OFF);
        (void)spn::core::set_machine_exception_handler(handler ? std::make_unique<Handler>() : nullptr);
        handler_throws = handler == 2;
        spn::logging::set_log_level((LogLevel)level);
        seen = Seen{};
        mc_cout_clear();
    }
    void done() {
        seen = Seen{};
        handler_throws = false;
        (void)spn::core::set_machine_exception_handler(nullptr);
        spn::logging::set_log_level(LogLevel::INFO);
    }
};
// the macros themselves
struct Macros : Base {
    void step() override {
        int handler = mc::choose(3), level = mc::choose(5);
        bool assertion = mc::flip(), value = mc::flip();
        int form = mc::choose(4);
        static const char* handlers[] = {"no handler", "a handler that returns", "a handler that throws"};
        mc::label("%s of a %s condition, %s, log level %s", assertion ? "assertion" : "expectation", value ? "true" : "false", handlers[handler], levels[level]);
        install(handler, level);
        int evaluated = 0, rest = 0;
        bool left = false;
        auto cond = [&](bool v) { evaluated++; return v; };
        const char* text = form == 0 ? "cond(value)" : form == 1 ? "!cond(!value) && rest == 0" : form == 2 ? "cond(true) && value" : "value ? cond(true) : cond(false) && true";
        try {
            if (assertion) {
                if (form == 0) { spn_assert(cond(value)); }
                else if (form == 1) { spn_assert(!cond(!value) && rest == 0); }
                else if (form == 2) { spn_assert(cond(true) && value); }
                else { spn_assert(value ? cond(true) : cond(false) && true); }
            } else {
                if (form == 0) { spn_expect(cond(value)); }
                else if (form == 1) { spn_expect(!cond(!value) && rest == 0); }
                else if (form == 2) { spn_expect(cond(true) && value); }
                else { spn_expect(value ? cond(true) : cond(false) && true); }
            }
            rest++;
        } catch (const Left&) { left = true; }
        std::string out(mc::captured_cout());
        mc::eq(evaluated, 1, "evaluations of the condition");
        bool raises = assertion && !value;
        mc::eq(seen.n, (int64_t)(raises && handler), "errors that reached the handler");
        mc::eq(left, raises && handler == 2, "left by the handler");
        mc::eq(rest, left ? 0 : 1, "statements after it");
        if (raises && handler) {
            mc::eq(std::string_view(seen.type), std::string_view("Assertion exception"), "type");
            mc::eq(std::string_view(seen.what), std::string_view(text), "message");
        }
        bool told = out.find(text) != std::string::npos;
        if (value) mc::check(out.empty(), "a condition that holds is logged: %s", out.c_str());
        else {
            if (level == 4) mc::check(told, "the failed condition is not in the debug log: %s", out.c_str());
            if (level == 0) mc::check(out.empty(), "logged although logging is off: %s", out.c_str());
            if (!assertion && level < 4) mc::check(out.empty(), "an expectation is logged at level %s: %s", levels[level], out.c_str());
            mc::cover(assertion ? "assertion failed" : "expectation failed");
        }
        done();
        mc_cout_clear();
    }
};
// contracts at their boundary: the last legal use raises nothing, the first illegal one does
struct Contracts : Base {
    enum Kind { NOTHING, ASSERTS, EXPECTS };
    struct Quiet : spn::io::Stream {
        void initialize() override {}
    };
    struct Silent : spn::core::EventHandler {
        using EventHandler::EventHandler;
        spn::core::EventSystem* get() { return evsys(); }
    };
    struct Listener : spn::core::EventHandler {
        using EventHandler::EventHandler;
        void handle_event(const spn::core::Event&) override {}
    };
    struct In : spn::platform::AnalogueOutput<In> {
        void initialize() {}
        void set_value(float) {}
    };
    Kind want = NOTHING;
    std::string what;
    void use() {
        using namespace spn::structure;
        using namespace spn::structure::time;
        using spn::core::Event;
        switch (mc::choose(22)) {
        case 0: {
            float v = mc::pick(std::vector<float>{0, 1, 0.5f, -0.001f, 1.001f, NAN});
            what = "fade to " + std::to_string(v);
            want = v >= 0 && v <= 1 ? NOTHING : ASSERTS;
            In o;
            o.fade_to(v, 0.5f, k_time_ms(1));
            break;
        }
        case 1: {
            float v = mc::pick(std::vector<float>{0, 1, 0.5f, -0.001f, 1.001f, NAN});
            bool inverted = mc::flip();
            what = "analogue value " + std::to_string(v);
            want = v >= 0 && v <= 1 ? NOTHING : ASSERTS;
            spn::platform::MockAnalogueOutput o({1, inverted});
            o.set_value(v);
            break;
        }
        case 2: {
            int d = mc::pick(std::vector<int>{-1, 0, 1, 1000});
            what = "absolute alarm at now + " + std::to_string(d);
            want = d > 0 ? NOTHING : ASSERTS;
            AlarmTimer t(k_time_ms(HAL::millis().raw() + d), true);
            break;
        }
        case 3: {
            int a = mc::pick(std::vector<int>{0, 1, 43200}), b = mc::pick(std::vector<int>{0, 1, 43200, 43201, 86399});
            what = "schedule of " + std::to_string(a) + " and " + std::to_string(b) + " s";
            want = a > 0 && b > 0 && a + b <= 86400 ? NOTHING : ASSERTS;
            Schedule s{Schedule::Block{k_time_s(0), k_time_s(a), 1.f}, Schedule::Block{k_time_s(43200), k_time_s(b), 2.f}};
            break;
        }
        case 4: {
            int i = mc::pick(std::vector<int>{-1, 0, 1, 100});
            float g[3] = {0, 0, 0};
            int k = mc::choose(3);
            g[k] = mc::pick(std::vector<float>{0, 1, -0.001f});
            what = "PID with interval " + std::to_string(i) + " and gains " + std::to_string(g[0]) + " " + std::to_string(g[1]) + " " + std::to_string(g[2]);
            want = i > 0 && g[k] >= 0 ? NOTHING : ASSERTS;
            spn::controller::PID p({{g[0], g[1], g[2]}, 0, 255, k_time_ms(i)});
            break;
        }
        case 5: {
            int none = mc::choose(4);
            float v[3] = {};
            what = "PID controller without its variable " + std::to_string(none);
            want = none ? ASSERTS : NOTHING;
            using C = spn::controller::PIDController;
            C c(none == 1 ? nullptr : v, none == 2 ? nullptr : v + 1, none == 3 ? nullptr : v + 2, 1, 1, 1, C::Direction::FORWARD);
            break;
        }
        case 6: {
            size_t n = mc::choose(3);
            what = "ring of " + std::to_string(n);
            want = n ? NOTHING : ASSERTS;
            RingBuffer<int> r(n);
            break;
        }
        case 7: {
            Vector<int> v(4);
            size_t drop = mc::choose(2), n = mc::choose(3), i = mc::choose(4);
            for (size_t k = 0; k < n + drop; k++) v.push_back(1);
            for (size_t k = 0; k < drop; k++) (void)v.pop_front();
            what = "[" + std::to_string(i) + "] of " + std::to_string(n);
            want = i < n ? NOTHING : ASSERTS;
            mc::assume(i + drop < 4);
            const auto& c = v;
            if (mc::flip()) (void)v[i];
            else (void)c[i];
            break;
        }
        case 8: {
            Vector<int> v(2);
            size_t n = mc::choose(3);
            for (size_t k = 0; k < n; k++) v.push_back(1);
            bool back = mc::flip();
            what = "peek into " + std::to_string(n);
            want = n ? NOTHING : ASSERTS;
            if (back) (void)v.peek_back();
            else (void)v.peek_front();
            break;
        }
        case 9: {
            Vector<int> v(4);
            size_t n = mc::choose(3), i = mc::choose(5);
            for (size_t k = 0; k < n; k++) v.push_back(1);
            what = "remove " + std::to_string(i) + " of " + std::to_string(n);
            want = n && i <= n ? NOTHING : ASSERTS;
            (void)v.remove(i);
            break;
        }
        case 10: {
            Pool<int> p(2);
            int n = mc::choose(4), way = mc::choose(3);
            what = "populate a pool of 2 with " + std::to_string(n);
            want = n <= 2 ? NOTHING : ASSERTS;
            std::shared_ptr<int> o[3] = {std::make_shared<int>(1), std::make_shared<int>(2), std::make_shared<int>(3)};
            for (int i = 0; i < n; i++) {
                if (way == 0) p.populate(o[i]);
                else if (way == 1) p.populate(int(i));
                else if (i < 2) p.populate(new int(i));
                else {
                    std::unique_ptr<int> own(new int(i)); // stays with the caller when refused
                    p.populate(own.get());
                }
            }
            break;
        }
        case 11: {
            Pool<int> p(2);
            int n = mc::choose(3);
            for (int i = 0; i < n; i++) p.populate(int(i));
            if (mc::flip()) {
                what = "depopulate a pool of " + std::to_string(n);
                want = n ? NOTHING : ASSERTS;
                auto o = p.depopulate();
                break;
            }
            what = "acquire from a pool with " + std::to_string(n) + " of 2";
            want = n == 2 ? NOTHING : ASSERTS;
            auto o = p.acquire();
            break;
        }
        case 12: {
            int is = mc::choose(5), as = mc::choose(4);
            what = "data of kind " + std::to_string(is) + " read as " + std::to_string(as + 1);
            want = is == as + 1 ? NOTHING : ASSERTS;
            Event::Data d = is == 0 ? Event::Data() : is == 1 ? Event::Data(1.f) : is == 2 ? Event::Data(uint32_t(1)) : is == 3 ? Event::Data(k_time_ms(1)) : Event::Data(k_time_s(1));
            if (as == 0) (void)d.value();
            else if (as == 1) (void)d.unsigned_value();
            else if (as == 2) (void)d.ms();
            else (void)d.s();
            break;
        }
        case 13: {
            spn::core::EventSystem es({1, 1, 1, false});
            Silent s(nullptr), t(&es);
            int how = mc::choose(6);
            const char* name[] = {"attach the event system", "attach no event system", "attach a second event system", "handle nothing", "use the event system", "use no event system"};
            what = name[how];
            want = how == 0 || how == 4 ? NOTHING : ASSERTS;
            Event e;
            switch (how) {
            case 0: s.attach_event_system(&es); (void)s.get(); break;
            case 1: s.attach_event_system(nullptr); break;
            case 2: t.attach_event_system(&es); break;
            case 3: s.handle_event(e); break;
            case 4: (void)t.get(); break;
            default: (void)s.get(); break;
            }
            break;
        }
        case 14: {
            spn::core::EventSystem es({2, 1, 2, false});
            Listener l(&es);
            int how = mc::choose(8);
            const char* name[] = {"attach twice", "attach thrice", "attach nobody", "attach to an unknown event", "trigger", "trigger an unknown event", "trigger what nobody handles", "detach"};
            what = name[how];
            want = how == 0 || how == 4 ? NOTHING : ASSERTS;
            es.attach(0, &l);
            switch (how) {
            case 0: es.attach(0, &l); es.attach(1, &l); es.attach(1, &l); break;
            case 1: es.attach(0, &l); es.attach(0, &l); break;
            case 2: es.attach(1, nullptr); break;
            case 3: es.attach(2, &l); break;
            case 4: es.trigger(0); break;
            case 5: es.trigger(2); break;
            case 6: es.trigger(1); break;
            default: es.detach(l); break;
            }
            break;
        }
        case 15: {
            float m = mc::pick(std::vector<float>{1, 9.999f, 0.999f, 10, 0, -1});
            what = "band of mantissa " + std::to_string(m);
            want = m >= 1 && m < 10 ? NOTHING : ASSERTS;
            using F = spn::filter::BandPass<float>;
            typename F::Config c{};
            c.mantissa = m;
            c.decades = 1;
            c.rejection_limit = 1;
            F f(std::move(c));
            break;
        }
        case 16: {
            float lo = mc::pick(std::vector<float>{0, -5, 2}), hi = lo + 4, at = mc::pick(std::vector<float>{-0.01f, 0, 2, 4, 4.01f});
            what = "invert " + std::to_string(lo + at);
            want = at >= 0 && at <= 4 ? NOTHING : ASSERTS;
            typename spn::filter::Invert<float>::Config c{};
            c.input_lower_limit = lo;
            c.input_upper_limit = hi;
            spn::filter::Invert<float> f(std::move(c));
            (void)f.value(lo + at);
            break;
        }
        case 17: {
            Quiet q;
            uint8_t b = 0;
            int how = mc::choose(7);
            const char* name[] = {"read", "read a block", "available", "available_for_write", "write a block", "write", "flush"};
            what = std::string(name[how]) + " on a stream that lacks it";
            want = ASSERTS;
            switch (how) {
            case 0: (void)q.read(b); break;
            case 1: (void)q.read(&b, 1); break;
            case 2: (void)q.available(); break;
            case 3: (void)q.available_for_write(); break;
            case 4: (void)q.write(&b, 1); break;
            case 5: (void)q.write(b); break;
            case 6: q.flush(); break;
            }
            break;
        }
        case 18: {
            auto ms = std::make_shared<spn::io::MockStream>(spn::io::MockStream::Config{16, 16});
            spn::io::BufferedStream bs(ms, {16, 16, "\n"});
            bool line = mc::flip();
            int how = mc::choose(6), end = mc::choose(3);
            ms->inject_bytestream(line ? std::vector<uint8_t>{'a', '\n'} : std::vector<uint8_t>{'a'});
            (void)bs.pull_in_data();
            const char* name[] = {"incoming", "reply", "reply a byte", "commit", "abort", "nothing"};
            what = std::string(line ? "" : "transaction without a line, ") + name[how] + (end == 1 ? " after commit" : end == 2 ? " after abort" : "");
            if (!line) {
                mc::assume(how == 5 && end == 0);
                want = ASSERTS;
                spn::io::Transaction t(mc::flip() ? &bs : nullptr);
                break;
            }
            want = how < 5 && end ? ASSERTS : NOTHING;
            spn::io::Transaction t(&bs);
            if (end == 1) t.commit();
            if (end == 2) t.abort();
            switch (how) {
            case 0: (void)t.incoming(); break;
            case 1: (void)t.outgoing("xy"); break;
            case 2: (void)t.outgoing('x'); break;
            case 3: t.commit(); break;
            case 4: t.abort(); break;
            }
            break;
        }
        case 19: {
            struct A { int v; };
            struct B { int v; };
            struct C { int v; };
            using R = Result<A, B, C>;
            int is = mc::choose(3), as = mc::choose(7);
            R r = is == 0 ? R(A{1}) : is == 1 ? R::failed(B{2}) : R::intermediary(C{3});
            const char* name[] = {"value", "error_value", "intermediary_value", "unwrap", "unwrap_error_value", "unwrap_intermediary_value", "*"};
            what = std::string(name[as]) + " of a " + (is == 0 ? "success" : is == 1 ? "failure" : "intermediary");
            want = (as < 6 && as % 3 == is) || (as == 6 && is == 0) ? NOTHING : ASSERTS;
            switch (as) {
            case 0: (void)r.value(); break;
            case 1: (void)r.error_value(); break;
            case 2: (void)r.intermediary_value(); break;
            case 3: (void)r.unwrap(); break;
            case 4: (void)r.unwrap_error_value(); break;
            case 5: (void)r.unwrap_intermediary_value(); break;
            case 6: (void)*r; break;
            }
            break;
        }
        case 20: {
            spn::filter::Stack<float> f(1);
            int how = mc::choose(5);
            const char* name[] = {"one filter", "a second filter", "a missing filter", "detach", "detach what is not there"};
            what = name[how];
            want = how == 2 ? ASSERTS : how == 1 || how == 4 ? EXPECTS : NOTHING;
            auto p = [] { return std::make_unique<spn::filter::Passthrough<float>>(spn::filter::Passthrough<float>::Config{}); };
            if (how == 2) f.attach_filter(nullptr);
            else f.attach_filter(p());
            switch (how) {
            case 1: f.attach_filter(p()); break;
            case 3: (void)f.detach_filter(0); break;
            case 4: (void)f.detach_filter(1); break;
            }
            (void)f.value(1.f);
            break;
        }
        default: {
            using spn::eventsystem::Future;
            using spn::eventsystem::Pipeline;
            Pipeline p(2);
            int n = mc::choose(3), how = mc::choose(4);
            for (int i = 0; i < n; i++) p.push(std::make_shared<Future>(k_time_ms(5)));
            const char* name[] = {"push", "expire too early", "expire in time", "nothing"};
            what = std::string(name[how]) + " with " + std::to_string(n) + " of 2 futures queued";
            want = how == 0 ? (n < 2 ? NOTHING : ASSERTS) : how == 1 ? ASSERTS : how == 2 ? (n ? NOTHING : ASSERTS) : NOTHING;
            switch (how) {
            case 0: p.push(std::make_shared<Future>(k_time_ms(5))); break;
            case 1: (void)p.expire(); break;
            case 2: HAL::delay_ms(k_time_ms(5)); (void)p.expire(); break;
            default: break;
            }
        }
        }
    }
    void step() override {
        int level = mc::flip() ? 4 : 0;
        install(2, level);
        want = NOTHING;
        bool left = false;
        try {
            use();
        } catch (const Left&) { left = true; }
        mc::label("%s%s", what.c_str(), want == NOTHING ? "" : " (a broken contract)");
        if (left) mc::eq(std::string_view(seen.type), std::string_view("Assertion exception"), "type");
        if (left && want != ASSERTS) mc::fail("%s: an assertion failed in legal use: %s", what.c_str(), seen.what);
        if (!left && want == ASSERTS) mc::fail("%s: no assertion failed", what.c_str());
        if (want == EXPECTS) mc::check((level == 4) == (mc::captured_cout().find("xpectation") != std::string_view::npos), "%s: not logged as required", what.c_str());
        mc::cover(want == NOTHING ? "legal use" : want == ASSERTS ? "asserted" : "expected");
        want = NOTHING;
        what = std::string();
        done();
        mc_cout_clear();
    }
};
} // namespace macros
void debug_events();
void debug_buffers();
void debug_containers();
void debug_time();
void debug_control();
MC_MAIN {
    mc::config("assertions and expectations", [] { return new macros::Macros; }, 2);
    mc::config("contracts at their boundaries", [] { return new macros::Contracts; }, 1);
    debug_events();
    debug_buffers();
    debug_containers();
    debug_time();
    debug_control();
}
