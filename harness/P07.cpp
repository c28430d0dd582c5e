// P07: pulling data into a buffered stream.
#include "streams.hpp"
#include "spine/io/stream/buffered_stream.hpp"
using namespace std::literals;
using spn::io::BufferedStream;

struct Spec {
    size_t cap, pending;           // input buffer, most bytes waiting in the stream
    std::string alphabet;
    std::string_view delimiters;
    size_t chunk = 1;              // bytes arrive in blocks of up to this size
    std::vector<size_t> bulk;      // or in longer blocks of 'x' with one last byte
    bool faults = true, shy = false, plain = false; // plain: without asking for delimiters
};
struct Pull : mc::Model {
    const Spec* s;
    std::shared_ptr<st::Script> stream;
    BufferedStream bs;
    st::Bytes ref;
    explicit Pull(const Spec* sp)
        : s(sp), stream(std::make_shared<st::Script>(sp->pending, 1)),
          bs(stream, sp->plain ? BufferedStream::Config{sp->cap, 1} : BufferedStream::Config{sp->cap, 1, sp->delimiters}), ref(sp->cap) {
        stream->shy = s->shy;
    }
    void look() {
        mc::eq(bs.input_buffer_space_used(), ref.size(), "bytes buffered");
        mc::eq(bs.input_buffer_space_left(), s->cap - ref.size(), "input space left");
        size_t len = ref.line(s->delimiters);
        mc::eq(bs.length_of_next_line(), len, "length of the next line");
        mc::eq(bs.has_line(), len > 0, "has_line");
        mc::eq(bs.output_buffer_space_used(), (size_t)0, "bytes to send");
    }
    void step() override {
        size_t len = ref.line(s->delimiters);
        switch (mc::choose(5)) {
        case 0: {
            std::string b;
            if (!s->bulk.empty()) {
                b = std::string(mc::pick(s->bulk), 'x');
                b += s->alphabet[mc::choose((int)s->alphabet.size())];
            } else {
                size_t k = 1 + mc::choose((int)s->chunk);
                for (size_t i = 0; i < k; i++) b += s->alphabet[mc::choose((int)s->alphabet.size())];
            }
            mc::assume(b.size() <= stream->in.room());
            mc::assume(s->bulk.empty() || stream->in.size() <= s->cap);
            mc::label("arrives: %s", mc::show(b).c_str());
            stream->in.push(b);
            break;
        }
        case 1: {
            // what should happen
            size_t waiting = stream->in.size();
            std::vector<size_t> points;
            if (waiting <= 6) for (size_t i = 0; i <= waiting; i++) points.push_back(i);
            else points = {0, 1, 2, waiting / 2, waiting - 1, waiting};
            size_t fail = s->faults ? points[mc::choose((int)points.size())] : 0;
            mc::label("pull with %zu bytes waiting%s %zu", waiting, fail ? ", failing read" : "; no failure", fail);
            std::string all(ref.view()), left(stream->in.view());
            size_t head = 0, taken = 0, delims = 0; // all[head..] is what the buffer holds, with so many delimiters
            auto is_delim = [&](char c) { return s->delimiters.find(c) != std::string_view::npos; };
            for (char c : all) delims += is_delim(c);
            bool overwrote = false;
            while (taken < left.size()) {
                bool full = all.size() - head == s->cap;
                if (full && delims) break;
                if (taken + 1 == fail) {
                    mc::cover("read failure");
                    break;
                }
                if (full) {
                    head++;
                    overwrote = true;
                }
                all += left[taken];
                delims += is_delim(left[taken++]);
            }
            left.erase(0, taken);
            ref.clear();
            ref.push(std::string_view(all).substr(head));
            if (overwrote) mc::cover("overwriting");
            if (overwrote && delims) mc::cover("line complete after overwriting");
            if (left.size() && !fail) mc::cover("held back");
            stream->fail_read = fail;
            mc::eq(bs.pull_in_data(), taken, "bytes pulled");
            stream->fail_read = 0;
            stream->settle();
            mc::eq(stream->in.view(), std::string_view(left), "bytes left in the stream");
            break;
        }
        case 2: {
            mc::label("read the next line");
            std::string b(s->cap + 1, '!');
            size_t got = bs.get_next_line(b.data(), b.size());
            mc::eq(got, len ? len - 1 : 0, "length of the line");
            if (len) {
                mc::eq(std::string_view(b.data(), got), ref.first(len - 1), "line");
                mc::cover("line read");
            }
            ref.drop_front(len);
            break;
        }
        case 3: {
            mc::label("drop the next line");
            mc::eq(bs.drop_next_line(), len > 0, "line dropped");
            ref.drop_front(len);
            break;
        }
        case 4: {
            mc::label("view the next line");
            auto v = bs.get_next_line_view();
            mc::eq(v.has_value(), len > 0, "there is a line");
            if (v) mc::eq(*v, ref.first(len - 1), "line");
            break;
        }
        }
        look();
    }
};
static void add(std::string name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new Pull(p); }, depth, {2000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.alphabet = "ab\n";
    s.delimiters = "\n";
    for (size_t cap : {1, 2, 3, 4, 5}) {
        s.cap = cap;
        s.pending = cap + 1;
        s.chunk = cap >= 3 ? 2 : 1;
        add("capacity " + std::to_string(cap), s, th ? (cap < 4 ? 20 : cap == 4 ? 10 : 9) : (cap < 3 ? 12 : 6));
    }
    s.shy = true;
    s.cap = 3;
    s.pending = 5;
    s.chunk = 5;
    s.alphabet = "a\n";
    add("long arrivals", s, th ? 14 : 7);
    s.pending = 3;
    s.chunk = 3;
    s.alphabet = "a\r\n";
    s.delimiters = "\r\n";
    add("two delimiters", s, th ? 14 : 7);
    s.plain = true;
    add("default delimiters", s, th ? 10 : 6);
    s.plain = false;
    s.alphabet = "a\0\xff"s;
    s.delimiters = "\0"sv;
    add("zero byte as delimiter", s, th ? 14 : 7);
    s.delimiters = "\xff"sv;
    add("byte 255 as delimiter", s, th ? 14 : 7);
    s.delimiters = "";
    add("no delimiter", s, th ? 14 : 7);
    for (size_t cap : {255, 256, 300}) {
        Spec l;
        l.cap = cap;
        l.pending = 600;
        l.alphabet = "y\n";
        l.delimiters = "\n";
        l.bulk = {0, 100, 254, 255, 299};
        l.bulk = cap == 300 ? std::vector<size_t>{0, 100, 299} : std::vector<size_t>{0, 254, 255};
        l.faults = cap == 256;
        add("capacity " + std::to_string(cap), l, th ? 7 : 6 - l.faults);
    }
    Spec l;
    l.cap = 65537;
    l.pending = 70000;
    l.alphabet = "y\n";
    l.delimiters = "\n";
    l.bulk = {0, 65535, 65536};
    l.faults = false;
    add("capacity 65537", l, th ? 5 : 4);
}
