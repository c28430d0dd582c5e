// P32: raised errors and the exception handler.
#include "ref.hpp"
#include <memory>
#include <string>
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
using spn::core::Exception;
using spn::core::ExceptionHandler;

struct Own : Exception { // a user's own error
    using Exception::Exception;
    const char* error_type() const override { return "Own error"; }
};
enum Way : int64_t { RETURNS, THROWS, NESTS, RESIGNS };
struct Book {
    int64_t alive[8] = {}, calls[8] = {};
    char type[40] = {}, msg[40] = {};
    int64_t last = -1;
};
struct Left {
    int64_t id;
};
struct Model;
struct Handler : ExceptionHandler {
    Model* m;
    int64_t id;
    Way way;
    Handler(Model* mm, int64_t i, Way w);
    ~Handler() override;
    void handle_exception(const Exception& e) override;
};
static const char* messages[] = {"", "disk full", "100% of it"};
static const char* types[] = {"Exception", "Runtime exception", "Logic exception", "Assertion exception", "Own error"};
struct Model : mc::Model {
    Book b;
    int64_t installed = -1, next = 0, depth = 0;
    int64_t way[8] = {};
    std::unique_ptr<ExceptionHandler> kept; // last one handed back
    int64_t kept_id = -1;
    Model() {
        (void)spn::core::set_machine_exception_handler(nullptr);
        spn::logging::set_log_level(spn::logging::LogLevel::WARN);
    }
    ~Model() override {
        (void)spn::core::set_machine_exception_handler(nullptr);
        spn::logging::set_log_level(spn::logging::LogLevel::INFO);
    }
    static void raise(int type, const char* msg) {
        switch (type) {
        case 0: spn::throw_exception(Exception(msg)); break;
        case 1: spn::throw_exception(spn::runtime_exception(msg)); break;
        case 2: spn::throw_exception(spn::logic_exception(msg)); break;
        case 3: spn::throw_exception(spn::assertion_exception(msg)); break;
        default: Own(msg).throw_error();
        }
    }
    void verify() {
        auto* h = static_cast<Handler*>(spn::core::machine_exception_handler());
        mc::check((h != nullptr) == (installed >= 0), "a handler is %s", h ? "still installed" : "missing");
        if (h) mc::eq(h->id, installed, "installed handler");
        for (int64_t i = 0; i < next; i++) mc::eq(b.alive[i], (int64_t)(i == installed || i == kept_id), "handler alive");
    }
    void handed_back(std::unique_ptr<ExceptionHandler> old, int64_t previous) {
        mc::check((old != nullptr) == (previous >= 0), "installing a handler returned %s", old ? "one that was not there" : "nothing");
        if (old) mc::eq(static_cast<Handler*>(old.get())->id, previous, "handler handed back");
        if (mc::flip()) {
            kept = std::move(old);
            kept_id = previous;
        } else
            old.reset();
    }
    void install(std::unique_ptr<Handler> h) {
        int64_t previous = installed;
        installed = h ? h->id : -1;
        handed_back(spn::core::set_machine_exception_handler(std::move(h)), previous);
    }
    void step() override {
        switch (mc::choose(4)) {
        case 0: {
            mc::assume(next < 8);
            Way w = (Way)mc::choose(4);
            mc::label("install handler %d (way %d)", (int)next, (int)w);
            way[next] = w;
            auto h = std::make_unique<Handler>(this, next, w);
            next++;
            install(std::move(h));
            break;
        }
        case 1:
            mc::label("remove the handler");
            install(nullptr);
            break;
        case 2: { // hand the kept one in again
            mc::assume(kept != nullptr);
            mc::label("reinstall handler %d", (int)kept_id);
            auto h = std::unique_ptr<Handler>(static_cast<Handler*>(kept.release()));
            kept_id = -1;
            install(std::move(h));
            break;
        }
        default: {
            int t = mc::choose(5), m = mc::choose(3);
            mc::label("raise %s '%s'", types[t], messages[m]);
            Book before = b;
            int64_t who = installed;
            size_t printed = mc::captured_cout().size();
            bool left = false;
            depth = 0;
            memset(b.type, 0, sizeof b.type);
            memset(b.msg, 0, sizeof b.msg);
            try {
                raise(t, messages[m]);
            } catch (const Left& l) {
                left = true;
                mc::eq(l.id, who, "handler that left");
            }
            std::string out(mc::captured_cout().substr(printed));
            if (who < 0) {
                mc::check(!left, "an exception escaped");
                for (int i = 0; i < 8; i++) mc::eq(b.calls[i], before.calls[i], "calls");
                mc::check(out.find("[WARN]") != std::string::npos && out.find(types[t]) != std::string::npos && out.find(messages[m]) != std::string::npos, "warning: '%s'", out.c_str());
                mc::check(std::count(out.begin(), out.end(), '\n') == 1, "more than the warning: '%s'", out.c_str());
                mc::cover("no handler");
            } else {
                Way w = (Way)way[who];
                for (int64_t i = 0; i < 8; i++) mc::eq(b.calls[i], before.calls[i] + (i == who ? (w == NESTS ? 2 : 1) : 0), "calls of the handler");
                mc::eq(left, w == THROWS, "left by an exception");
                if (w == NESTS) {
                    mc::check(!strcmp(b.type, "Own error") && !strcmp(b.msg, "nested"), "nested error: %s, %s", b.type, b.msg);
                    mc::cover("nested");
                } else
                    mc::check(!strcmp(b.type, types[t]) && !strcmp(b.msg, messages[m]), "handler was passed %s, %s", b.type, b.msg);
                if (left) {
                    mc::check(out.empty(), "printed '%s'", out.c_str());
                    mc::cover("left by an exception");
                }
            }
            memset(&b.calls, 0, sizeof b.calls);
        }
        }
        verify();
    }
};
Handler::Handler(Model* mm, int64_t i, Way w) : m(mm), id(i), way(w) { m->b.alive[id]++; }
Handler::~Handler() { m->b.alive[id]--; }
void Handler::handle_exception(const Exception& e) {
    Book& b = m->b;
    b.calls[id]++;
    snprintf(b.type, sizeof b.type, "%s", e.error_type());
    snprintf(b.msg, sizeof b.msg, "%s", e.what());
    switch (way) {
    case THROWS: throw Left{id};
    case NESTS: // an error while an error is handled
        if (m->depth++ == 0) Own("nested").throw_error();
        return;
    case RESIGNS: { // takes itself out of charge
        m->installed = -1;
        auto self = spn::core::set_machine_exception_handler(nullptr);
        mc::check(self.get() == this, "handed back another handler");
        m->kept = std::move(self);
        m->kept_id = id;
        mc::cover("resigned");
        return;
    }
    default: return;
    }
}
MC_MAIN {
    mc::config("handlers and errors", [] { return new Model; }, mc::thorough() ? 6 : 5, {4000000});
}
