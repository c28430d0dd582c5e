// P10: mock streams and UARTs.
#include "streams.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/hal.hpp"
using namespace std::literals;
using spn::io::MockStream;
using spn::io::Stream;
using spn::platform::MockUART;

struct Spec {
    size_t in_cap, out_cap;
    std::string alphabet;
    size_t chunk;
    std::vector<size_t> bulk;
    bool uart;
};
struct Mock : mc::Model {
    const Spec* s;
    MockStream ms;
    MockUART uart;
    Stream& io;
    st::Bytes in, out;
    explicit Mock(const Spec* sp)
        : s(sp), ms(MockStream::Config{s->in_cap, s->out_cap}), uart(MockUART::Config{&ms}),
          io(s->uart ? static_cast<Stream&>(uart) : ms), in(s->in_cap), out(s->out_cap) {
        io.initialize();
    }
    std::string bytes() {
        std::string b;
        if (!s->bulk.empty() && mc::flip()) {
            b = std::string(mc::pick(s->bulk), 'x');
            for (size_t i = 0; i < b.size(); i++) b[i] = (char)(i * 7);
            return b + s->alphabet[mc::choose((int)s->alphabet.size())];
        }
        size_t k = mc::choose((int)s->chunk + 1);
        for (size_t i = 0; i < k; i++) b += s->alphabet[mc::choose((int)s->alphabet.size())];
        return b;
    }
    void step() override {
        switch (mc::choose(7)) {
        case 0: {
            auto b = bytes();
            mc::label("inject %s", mc::show(b).c_str());
            ms.inject_bytestream(std::vector<uint8_t>(b.begin(), b.end()));
            if (in.push(b) < b.size()) mc::cover("injected more than fits");
            break;
        }
        case 1: {
            mc::label("read a byte");
            uint8_t v = 0x5A;
            mc::eq(io.read(v), in.size() > 0, "read");
            if (in.size()) {
                mc::eq((char)v, in[0], "byte read");
                in.drop_front(1);
            }
            break;
        }
        case 2: {
            std::vector<size_t> sizes = {0, 1, 2, in.size(), in.size() + 1};
            size_t k = mc::pick(sizes);
            mc::label("read %zu of %zu bytes", k, in.size());
            std::vector<unsigned char> g(k + 32, 0xE1);
            size_t got = mc::flip() ? io.read((char*)g.data() + 16, k) : io.read(g.data() + 16, k);
            // asking for more than there is may be answered with less, nothing in particular
            if (k <= in.size()) mc::eq(got, k, "bytes read");
            else mc::check(got <= in.size(), "%zu bytes read, %zu were there", got, in.size());
            mc::eq(std::string_view((char*)g.data() + 16, got), in.first(got), "bytes read");
            for (size_t i = 0; i < g.size(); i++)
                if (i < 16 || i >= 16 + k) mc::check(g[i] == 0xE1, "byte %d of the destination was written", (int)i - 16);
            in.drop_front(got);
            break;
        }
        case 3: {
            char c = s->alphabet[mc::choose((int)s->alphabet.size())];
            mc::label("write %s", mc::show(std::string_view(&c, 1)).c_str());
            bool want = out.push(c);
            mc::eq(mc::flip() ? io.write(c) : io.write((uint8_t)c), want, "write");
            break;
        }
        case 4: {
            auto b = bytes();
            mc::label("write %s", mc::show(b).c_str());
            size_t want = out.push(b);
            if (want < b.size()) mc::cover("wrote more than fits");
            int how = mc::choose(3);
            mc::eq(how == 0   ? io.write(std::string_view(b))
                   : how == 1 ? io.write(b.data(), b.size())
                              : io.write((const uint8_t*)b.data(), b.size()),
                   want, "bytes written");
            break;
        }
        case 5: {
            mc::label("extract");
            auto v = ms.extract_bytestream();
            std::string got = v ? std::string(v->begin(), v->end()) : std::string();
            mc::eq(got, std::string(out.view()), "bytes extracted");
            if (got.size()) mc::cover("extracted");
            out.clear();
            break;
        }
        case 6:
            mc::label("flush");
            io.flush();
            break;
        }
        mc::eq(io.available(), in.size(), "bytes available");
        mc::eq(io.available_for_write(), out.room(), "room to write");
    }
};

// a UART passes every call on
struct Recorder : Stream {
    struct Call { int what = 0; const void* p = nullptr; size_t n = 0; } last;
    size_t answer = 0;
    int calls = 0;
    void note(int w, const void* p = nullptr, size_t n = 0) {
        last = {w, p, n};
        calls++;
    }
    Recorder* self = this;
    void initialize() override { note(1); }
    using Stream::read;
    using Stream::write;
    size_t read(uint8_t* b, size_t n) override { return note(2, b, n), answer; }
    bool read(uint8_t& v) override { return note(3, &v), v = (uint8_t)answer, answer & 1; }
    size_t write(const uint8_t* const b, size_t n) override { return note(4, b, n), answer; }
    bool write(const uint8_t v) override { return note(5, nullptr, v), answer & 1; }
    size_t available() const override { return self->note(6), answer; }
    size_t available_for_write() const override { return self->note(7), answer; }
    void flush() override { note(8); }
};
struct Uart : mc::Model {
    Recorder r;
    MockUART uart{MockUART::Config{&r}};
    void step() override {
        int op = 1 + mc::choose(8);
        r.answer = mc::pick(std::vector<size_t>{0, 1, 2, 255, 256, 70000, (size_t)-1});
        int before = r.calls;
        uint8_t buf[4] = {1, 2, 3, 4};
        size_t n = mc::pick(std::vector<size_t>{0, 1, 4, 255, 256, 70000});
        mc::label("operation %d, size %zu, answer %zu", op, n, r.answer);
        switch (op) {
        case 1: uart.initialize(); break;
        case 2: mc::eq(uart.read(buf, n), r.answer, "read"); break;
        case 3: {
            uint8_t v = 0;
            mc::eq(uart.read(v), (r.answer & 1) == 1, "read");
            mc::eq((int)v, (int)(uint8_t)r.answer, "byte read");
            mc::check(r.last.p == &v, "read into something else");
            break;
        }
        case 4: mc::eq(uart.write(buf, n), r.answer, "write"); break;
        case 5: mc::eq(uart.write((uint8_t)n), (r.answer & 1) == 1, "write"); break;
        case 6: mc::eq(uart.available(), r.answer, "available"); break;
        case 7: mc::eq(uart.available_for_write(), r.answer, "available_for_write"); break;
        case 8: uart.flush(); break;
        }
        mc::eq(r.calls, before + 1, "calls passed on");
        mc::eq(r.last.what, op, "call passed on");
        if (op == 2 || op == 4) {
            mc::check(r.last.p == buf, "another buffer was passed on");
            mc::eq(r.last.n, n, "length passed on");
        }
        if (op == 5) mc::eq(r.last.n, (size_t)(uint8_t)n, "byte passed on");
        r.calls = 0;
        r.last = {};
        r.answer = 0;
    }
};
MC_MAIN {
    bool th = mc::thorough();
    auto add = [](std::string name, Spec s, int depth) {
        auto* p = new Spec(std::move(s));
        mc::config(name, [p] { return new Mock(p); }, depth, {3000000});
    };
    for (size_t a : {1, 2, 3})
        for (size_t b : {1, 2, 3}) {
            bool uart = (a + b) % 2;
            add("sizes " + std::to_string(a) + ", " + std::to_string(b) + (uart ? ", UART" : ""), {a, b, "\0\xff"s, 3, {}, uart},
                a + b >= 5 ? (th ? 40 : 6) : th ? 40 : 8);
        }
    add("byte values", {2, 2, "\0a\x7f\x80\xff\n"s, 2, {}, false}, th ? 7 : 4);
    add("sizes 5, 4", {5, 4, "ab", 2, {}, true}, th ? 10 : 4);
    add("sizes 256, 300", {256, 300, "a", 1, {100, 254, 255, 299}, true}, th ? 5 : 4);
    add("sizes 255, 65537", {255, 65537, "a", 0, {253, 254, 255, 65535, 65536}, false}, th ? 4 : 3);
    add("sizes 65537, 1", {65537, 1, "a", 0, {253, 65535, 65536}, false}, th ? 5 : 4);
    mc::config("forwarding", [] { return new Uart; }, 2);
}
