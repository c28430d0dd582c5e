// P08: flushing a buffered stream.
#include "streams.hpp"
#include "spine/io/stream/buffered_stream.hpp"
using namespace std::literals;
using spn::io::BufferedStream;

struct Spec {
    size_t cap;
    std::string alphabet;
    size_t chunk = 2;
    std::vector<size_t> bulk;
    bool overwrite = true, shy = false;
};
struct Push : mc::Model {
    const Spec* s;
    std::shared_ptr<st::Script> stream;
    BufferedStream bs;
    st::Bytes ref;
    explicit Push(const Spec* sp)
        : s(sp), stream(std::make_shared<st::Script>(1, sp->cap + 1)),
          bs(stream, BufferedStream::Config{1, sp->cap, "\n"}), ref(sp->cap) {
        stream->shy = s->shy;
    }
    void look() {
        mc::eq(bs.output_buffer_space_used(), ref.size(), "bytes buffered");
        mc::eq(bs.output_buffer_space_left(), s->cap - ref.size(), "output space left");
        mc::eq(bs.input_buffer_space_used(), (size_t)0, "input bytes");
    }
    char pick_char() { return s->alphabet[mc::choose((int)s->alphabet.size())]; }
    void step() override {
        switch (mc::choose(5)) {
        case 0: {
            char c = pick_char();
            bool ow = s->overwrite && mc::flip();
            mc::label("write %s%s", mc::show(std::string_view(&c, 1)).c_str(), ow ? ", overwriting" : "");
            size_t want = ref.push(c, ow);
            mc::eq(bs.buffered_write((uint8_t)c, ow), want, "bytes accepted");
            break;
        }
        case 1: {
            std::string b;
            if (!s->bulk.empty()) {
                b = std::string(mc::pick(s->bulk), 'x');
                b += pick_char();
            } else {
                size_t k = mc::choose((int)s->chunk + 1);
                for (size_t i = 0; i < k; i++) b += pick_char();
            }
            int how = mc::choose(s->overwrite ? 3 : 2);
            mc::label("write %s%s", mc::show(b).c_str(), how == 2 ? ", overwriting" : "");
            size_t want = ref.push(b, how == 2);
            if (want < b.size()) mc::cover("partly accepted");
            if (how == 0) mc::eq(bs.buffered_write(std::string_view(b)), want, "bytes accepted");
            else mc::eq(bs.buffered_write(b.data(), b.size(), how == 2), want, "bytes accepted");
            break;
        }
        case 2: {
            size_t n = ref.size();
            std::vector<size_t> points;
            if (n <= 6) for (size_t i = 0; i <= n + 1; i++) points.push_back(i);
            else points = {0, 1, 2, n / 2, n - 1, n, n + 1};
            size_t room = points[mc::choose((int)points.size())];
            size_t refuse = points[mc::choose((int)points.size())];
            mc::assume(refuse <= room);
            mc::label("flush, the stream has room for %zu%s %zu", room, refuse ? ", refuses write" : "; refusals:", refuse);
            size_t want = std::min(n, room);
            if (refuse && refuse - 1 < want) {
                want = refuse - 1;
                mc::cover("write refused");
            }
            stream->out.clear();
            stream->room = room;
            stream->refuse_write = refuse;
            mc::eq(bs.push_out_data(), want, "bytes flushed");
            stream->room = stream->refuse_write = 0;
            mc::eq(stream->out.view(), ref.first(want), "bytes sent");
            stream->out.clear();
            ref.drop_front(want);
            break;
        }
        case 3: {
            size_t k = mc::choose(4);
            mc::label("drop the last %zu bytes", k);
            size_t want = k ? std::min(k, ref.size()) : ref.size();
            mc::eq(bs.output_buffer_drop_last(k), want, "bytes dropped");
            ref.drop_back(want);
            break;
        }
        case 4: {
            size_t k = mc::choose(4);
            mc::label("drop the first %zu bytes", k);
            size_t want = k ? std::min(k, ref.size()) : ref.size();
            mc::eq(bs.output_buffer_drop_first(k), want, "bytes dropped");
            ref.drop_front(want);
            break;
        }
        }
        look();
    }
};
static void add(std::string name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new Push(p); }, depth, {2000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.alphabet = "ab\n";
    for (size_t cap : {1, 2, 3, 4, 5}) {
        s.cap = cap;
        s.chunk = cap + 1 < 4 ? cap + 1 : 3;
        add("capacity " + std::to_string(cap), s, th ? (cap < 5 ? 16 : 9) : (cap < 3 ? 10 : 5));
    }
    s.cap = 3;
    s.chunk = 2;
    s.alphabet = "\0\xff\x80"s;
    s.shy = true;
    add("reluctant stream, byte values", s, th ? 12 : 6);
    for (size_t cap : {255, 256, 300}) {
        Spec l;
        l.cap = cap;
        l.alphabet = "yz";
        l.bulk = {0, 100, 254, 255, 299};
        add("capacity " + std::to_string(cap), l, th ? 5 : 4);
    }
    Spec l;
    l.cap = 65537;
    l.alphabet = "yz";
    l.bulk = {0, 65534, 65536};
    l.overwrite = false;
    add("capacity 65537", l, th ? 4 : 3);
}
