// MC-FLAGS: -O1
// P36: no heap allocation after construction.
#include "array_model.hpp"
#include "event_model.hpp"
#include "pool_model.hpp"
#include "stack_model.hpp"
#include <array>
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/structure/static_string.hpp"
#include "spine/structure/time/timers.hpp"
using namespace std::literals;

// runs f and requires that it allocates nothing
#define QUIETLY(what, ...)                                                                                             \
    do {                                                                                                               \
        uint64_t a0_ = mc_allocs();                                                                                    \
        __VA_ARGS__;                                                                                                   \
        uint64_t a1_ = mc_allocs();                                                                                    \
        if (a1_ != a0_) mc::fail("%s allocated %llu times", what, (unsigned long long)(a1_ - a0_));                    \
    } while (0)

static const char letters[] = "ab\nc";
struct Ring : mc::Model {
    spn::structure::RingBuffer<int> r;
    size_t cap;
    explicit Ring(size_t c) : r(c), cap(c) {}
    void step() override {
        int op = mc::choose(9), n = 1 + mc::choose(2);
        bool roll = mc::flip();
        int v[3] = {1, 2, 3}, x = 0, *p = nullptr;
        mc::label("operation %d, %d elements", op, n);
        switch (op) {
        case 0: QUIETLY("push", r.push(n, roll)); break;
        case 1: QUIETLY("block push", r.push(v, (size_t)n, roll)); break;
        case 2: QUIETLY("pop", r.pop()); break;
        case 3: QUIETLY("pop", r.pop(x)); break;
        case 4: QUIETLY("block pop", r.pop(v, (size_t)n)); break;
        case 5: QUIETLY("peek", r.peek_at(x, 0); r.peek_at(&p, 0)); break;
        case 6: QUIETLY("drop_last", r.drop_last((size_t)n - 1)); break;
        case 7: QUIETLY("drop_first", r.drop_first((size_t)n - 1)); break;
        default: QUIETLY("clear", r.clear()); break;
        }
        size_t sum = 0;
        QUIETLY("queries", sum = r.used_space() + r.free_space() + r.capacity() + r.overrun_space() + r.full() + r.empty());
        mc::observe(sum);
        mc::cover("ring buffer");
    }
};
struct Lines : mc::Model {
    spn::structure::LineBuffer l;
    size_t cap;
    int chunk;
    Lines(size_t c, int k) : l(c, "\n"), cap(c), chunk(k) {}
    void step() override {
        char buf[700];
        switch (mc::choose(6)) {
        case 0: {
            char c = letters[mc::choose(3)];
            mc::label("push");
            QUIETLY("push", l.push(c, true));
            break;
        }
        case 1: {
            std::string s((size_t)(1 + mc::choose(chunk)) * (cap > 50 ? 60 : 1), letters[mc::choose(4)]);
            mc::label("push %zu bytes", s.size());
            QUIETLY("push of a text", l.push(std::string_view(s)));
            break;
        }
        case 2: mc::label("view"); QUIETLY("get_next_line_view", l.get_next_line_view()); break;
        case 3: mc::label("line"); QUIETLY("get_next_line", l.get_next_line(buf, sizeof buf)); break;
        case 4: mc::label("drop"); QUIETLY("drop_next_line", l.drop_next_line()); break;
        default: {
            bool b = mc::flip();
            mc::label("delimiters");
            QUIETLY("set_delimiters", l.set_delimiters(b ? "\r\n\t;, abcdefghijklmnopqrstuvwxyz" : "\n"));
        }
        }
        size_t n = 0;
        QUIETLY("length_of_next_line", n = l.length_of_next_line() + l.has_line());
        mc::observe(n);
        mc::cover("line buffer");
    }
};
struct Wire : spn::io::Stream { // a stream without any memory of its own on the heap
    int64_t in = 0, room = 0, next = 0;
    void initialize() override {}
    size_t available() const override { return (size_t)in; }
    size_t available_for_write() const override { return (size_t)room; }
    bool read(uint8_t& v) override {
        if (!in) return false;
        in--;
        v = (uint8_t)letters[next];
        next = (next + 1) % 4;
        return true;
    }
    size_t read(uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && read(b[k])) k++;
        return k;
    }
    bool write(uint8_t) override { return room > 0 && room--; }
    size_t write(const uint8_t* b, size_t n) override {
        size_t k = 0;
        while (k < n && write(b[k])) k++;
        return k;
    }
    void flush() override {}
};
struct Buffered : mc::Model {
    std::shared_ptr<Wire> w = std::make_shared<Wire>();
    spn::io::BufferedStream s;
    std::unique_ptr<std::optional<spn::io::Transaction>> t = std::make_unique<std::optional<spn::io::Transaction>>();
    int64_t burst;
    Buffered(size_t in, size_t out, int64_t b) : s(w, spn::io::BufferedStream::Config{in, out, "\n"}), burst(b) {}
    ~Buffered() override { t.reset(); }
    void step() override {
        char buf[700];
        int op = mc::choose(12);
        mc::label("operation %d", op);
        switch (op) {
        case 0: w->in = burst * (1 + mc::choose(2)); QUIETLY("pull_in_data", s.pull_in_data()); w->in = 0; break;
        case 1: w->room = burst * (1 + mc::choose(2)); QUIETLY("push_out_data", s.push_out_data()); w->room = 0; break;
        case 2: QUIETLY("buffered_write", s.buffered_write("xyz"sv); s.buffered_write((uint8_t)'q', true)); break;
        case 3: mc::assume(!*t); QUIETLY("get_next_line_view", s.get_next_line_view()); break;
        case 4: mc::assume(!*t); QUIETLY("get_next_line", s.get_next_line(buf, sizeof buf)); break;
        case 5: mc::assume(!*t); QUIETLY("drop_next_line", s.drop_next_line()); break;
        case 6:
            mc::assume(!*t);
            QUIETLY("new_transaction", *t = s.new_transaction());
            if (*t) mc::cover("transaction opened");
            break;
        case 7: mc::assume(t->has_value()); QUIETLY("outgoing", (*t)->outgoing("reply"sv); (*t)->outgoing('!')); break;
        case 8: mc::assume(t->has_value()); QUIETLY("commit", (*t)->commit(); t->reset()); break;
        case 9: mc::assume(t->has_value()); QUIETLY("abort", (*t)->abort(); t->reset()); break;
        case 10: mc::assume(t->has_value()); QUIETLY("end of a transaction", t->reset()); break;
        default: {
            mc::assume(t->has_value());
            size_t n = 0;
            QUIETLY("move and queries", spn::io::Transaction m(std::move(**t)); n = m.incoming().size() + m.outgoing_space_left() + m.outgoing_space_used(); **t = std::move(m));
            mc::observe(n);
        }
        }
        size_t n = 0;
        QUIETLY("queries", n = s.has_line() + s.length_of_next_line() + s.input_buffer_space_left() + s.output_buffer_space_used());
        mc::observe(n);
        mc::cover("buffered stream");
    }
};
struct Text : mc::Model {
    spn::structure::StaticString x;
    explicit Text(size_t n) : x(n) {}
    void step() override {
        size_t cap = x.capacity();
        int op = mc::choose(6);
        mc::label("operation %d", op);
        switch (op) {
        case 0: {
            size_t n = mc::pick(std::vector<size_t>{0, 1, cap / 2, cap - 1, cap, cap + 1, 2 * cap, 10 * cap});
            QUIETLY("set_size", x.set_size(n));
            break;
        }
        case 1: {
            size_t n = mc::pick(std::vector<size_t>{1, cap / 2, cap, cap + 1, 2 * cap});
            char* p = nullptr;
            QUIETLY("data", p = x.data(n));
            memset(p, mc::flip() ? 'a' : ' ', x.size());
            if (x.size() > 1) p[x.size() / 2] = 'b';
            break;
        }
        case 2: QUIETLY("lstrip", x.lstrip()); break;
        case 3: QUIETLY("rstrip", x.rstrip(" a")); break;
        case 4: {
            std::string n(cap + 3, 'a');
            bool r = false;
            QUIETLY("affix tests", r = x.starts_with("aaa") || x.ends_with(n) || x.starts_with(n));
            mc::observe(r);
            break;
        }
        default: {
            size_t n = 0;
            QUIETLY("queries", n = x.view().size() + x.size() + x.capacity() + strlen(x.c_str()));
            mc::observe(n);
        }
        }
        mc::cover("static string");
    }
};
struct Clocks : mc::Model {
    spn::structure::time::Timer t;
    spn::structure::time::AlarmTimer a{k_time_ms(5)};
    spn::structure::time::IntervalTimer i{k_time_ms(3)}, j{k_time_ms(3), true};
    void step() override {
        int op = mc::choose(5);
        mc::label("operation %d", op);
        bool b = false;
        switch (op) {
        case 0: HAL::delay_ms(k_time_ms(1 + 6 * mc::choose(2))); break;
        case 1: QUIETLY("timer", t.time_since_last(false); t.time_since_last()); break;
        case 2: QUIETLY("alarm", b = a.expired(); a.time_from_now()); break;
        case 3: QUIETLY("interval timer", b = i.expired(); b = j.expired(); i.time_until_next()); break;
        default: QUIETLY("resets", t.reset(); i.reset()); break;
        }
        mc::observe(b);
        mc::cover("timers");
    }
    ~Clocks() override {
        spn::platform::MockStateInstance().millis = k_time_ms(0);
        spn::platform::MockStateInstance().micros = k_time_us(0);
    }
};
static void ev(const char* name, em::Spec s, int depth) {
    auto* p = new em::Spec(std::move(s));
    mc::config(name, [p] { return new em::Events(p); }, depth, {3000000});
}
MC_MAIN {
    using P = std::shared_ptr<vm::Token>;
    bool th = mc::thorough();
    vm::Ops o;
    o.allocs = true;
    o.assign = false;
    vm::add<int, 1>("vector of int", th ? 30 : 12, o);
    vm::add<int, 3>("vector of int", th ? 12 : 6, o);
    vm::add<vm::Wide, 2>("vector of structs", th ? 9 : 6, o);
    vm::add<P, 2>("vector of handles", th ? 7 : 5, o);
    vm::add<int, 2, vm::Lent>("vector of int, lent storage", th ? 9 : 6, o);
    o.assign = true;
    vm::add<int, 2>("vector of int, assigned", th ? 7 : 5, o);
    o.ends_only = true;
    vm::add<int, 300>("vector of int", 3, o);
    am::add<int>("arrays of int", th ? 5 : 3, true);
    am::add<P>("arrays of handles", th ? 4 : 3, true);
    sm::add<int, 3>("stack of int", th ? 12 : 8, true);
    sm::add<P, 2>("stack of handles", th ? 9 : 7, true);
    pm::add<2>(th ? 8 : 6, true);
    pm::add<3>(th ? 7 : 5, true);
    for (size_t c : {1, 2, 4}) mc::config("ring buffer of " + std::to_string(c), [c] { return new Ring(c); }, th ? 8 : 6, {2000000});
    for (size_t c : {1, 2, 4}) mc::config("line buffer of " + std::to_string(c), [c] { return new Lines(c, 3); }, th ? 7 : 5, {2000000});
    mc::config("line buffer of 300", [] { return new Lines(300, 7); }, th ? 5 : 4);
    for (size_t c : {1, 3, 8}) mc::config("buffered stream of " + std::to_string(c), [c] { return new Buffered(c, 9 - c, (int64_t)c); }, th ? 8 : 6, {2000000});
    mc::config("buffered stream of 400", [] { return new Buffered(400, 400, 150); }, th ? 5 : 4);
    for (size_t c : {0, 15, 16, 64, 300}) mc::config("static string of " + std::to_string(c), [c] { return new Text(c); }, th ? 7 : 5);
    mc::config("timers", [] { return new Clocks; }, th ? 9 : 7);
    {
        em::Spec s;
        s.allocs = true;
        s.cap = 3;
        s.payloads = {0, 2, 3};
        s.delays = {0, 1, 2};
        s.advances = {1};
        ev("events", s, th ? 5 : 4);
        s.cap = 2;
        s.payloads = {2};
        s.reactions = 2;
        s.nested_loop = true;
        s.delays = {0, 2};
        s.advances = {2};
        s.attached = {{0, 1}, {}};
        ev("events, handlers that act", s, 3);
        s = em::Spec{};
        s.allocs = true;
        s.cap = 300;
        s.prefill = 299;
        s.payloads = {2};
        s.delays = {0, 1000, 1003, 1007};
        s.advances = {1000, 1003};
        s.attached = {{0}, {1, 0}};
        s.trigger = false;
        ev("many events", s, 3);
        s.cap = 3;
        s.prefill = 0;
        s.attached = {{0}};
        s.sleep = true;
        s.delays = {0, 5};
        s.advances = {3};
        ev("events and idle sleep", s, th ? 5 : 4);
    }
}
