// P09: transactions on buffered streams. At most one transaction is open per stream.
#include "streams.hpp"
#include "spine/io/stream/buffered_stream.hpp"
using namespace std::literals;
using spn::io::BufferedStream;
using spn::io::Transaction;

struct Spec {
    size_t in_cap, out_cap, streams, slots;
    std::vector<std::string> arrivals;
    std::vector<std::string> replies;
    bool output = true; // bytes written and flushed outside transactions
};
struct Tx : mc::Model {
    const Spec* s;
    struct Side {
        std::shared_ptr<st::Script> stream;
        BufferedStream bs;
        st::Bytes in, out;
        explicit Side(const Spec* s)
            : stream(std::make_shared<st::Script>(s->in_cap + 4, s->out_cap + 1)),
              bs(stream, BufferedStream::Config{s->in_cap, s->out_cap, "\r\n"}), in(s->in_cap), out(s->out_cap) {}
        size_t line() const { return in.line("\r\n"); }
    };
    std::unique_ptr<Side> side[2];
    std::optional<Transaction> slot[2];
    struct Open { long on = -1; size_t queued = 0; } open[2]; // per slot: stream of the open transaction
    explicit Tx(const Spec* sp) : s(sp) {
        memset((void*)&slot, 0, sizeof slot); // disengaged optionals without stale bytes
        for (size_t i = 0; i < 2; i++) new (&slot[i]) std::optional<Transaction>();
        for (size_t i = 0; i < s->streams; i++) side[i] = std::make_unique<Side>(s);
    }
    ~Tx() override { // transactions refer to their stream
        for (auto& o : slot) o.reset();
    }
    long slot_on(long stream) const {
        for (long k = 0; k < 2; k++) if (open[k].on == stream) return k;
        return -1;
    }
    void finish(size_t k, bool keep) { // what the end of an open transaction does
        if (open[k].on < 0) return;
        auto& x = *side[open[k].on];
        if (!keep) x.out.drop_back(open[k].queued);
        x.in.drop_front(x.line());
        open[k] = {};
    }
    void look() {
        for (size_t i = 0; i < s->streams; i++) {
            auto& x = *side[i];
            mc::eq(x.bs.input_buffer_space_used(), x.in.size(), "input bytes buffered");
            mc::eq(x.bs.length_of_next_line(), x.line(), "length of the next line");
            mc::eq(x.bs.output_buffer_space_used(), x.out.size(), "output bytes queued");
        }
        for (size_t k = 0; k < s->slots; k++) {
            if (!slot[k]) continue;
            mc::eq(slot[k]->is_finalized(), open[k].on < 0, "transaction is finalized");
            if (open[k].on < 0) continue;
            auto& x = *side[open[k].on];
            mc::eq(slot[k]->incoming(), x.in.first(x.line() - 1), "incoming line");
            mc::eq(slot[k]->outgoing_space_used(), open[k].queued, "reply bytes queued");
            mc::eq(slot[k]->outgoing_space_left(), x.out.room(), "space for the reply");
        }
    }
    void step() override {
        int op = mc::choose(9);
        size_t i = op < 3 ? mc::choose((int)s->streams) : 0;
        size_t k = op > 2 ? mc::choose((int)s->slots) : 0;
        auto& x = *side[i];
        switch (op) {
        case 0: {
            auto& b = mc::pick(s->arrivals);
            mc::assume(x.stream->in.size() + b.size() <= s->in_cap + 4);
            mc::label("stream %zu: %s arrives and is pulled in", i, mc::show(b).c_str());
            x.stream->in.push(b);
            size_t n = 0;
            while (n < x.stream->in.size() && !(x.in.full() && x.line())) x.in.push(x.stream->in[n++], true);
            mc::eq(x.bs.pull_in_data(), n, "bytes pulled");
            x.stream->settle();
            break;
        }
        case 1: {
            mc::assume(s->output && slot_on((long)i) < 0);
            if (mc::flip()) {
                auto& b = mc::pick(s->replies);
                mc::label("stream %zu: write %s", i, mc::show(b).c_str());
                size_t want = x.out.push(b);
                mc::eq(x.bs.buffered_write(b), want, "bytes accepted");
            } else {
                size_t room = mc::choose((int)std::min<size_t>(x.out.size(), 3) + 1);
                if (room == 3) room = x.out.size();
                mc::label("stream %zu: flush %zu", i, room);
                x.stream->out.clear();
                x.stream->room = room;
                mc::eq(x.bs.push_out_data(), room, "bytes flushed");
                mc::eq(x.stream->out.view(), x.out.first(room), "bytes sent");
                x.stream->out.clear();
                x.stream->room = 0;
                x.out.drop_front(room);
            }
            break;
        }
        case 2: {
            k = mc::choose((int)s->slots);
            long at = slot_on((long)i);
            mc::assume(at < 0 || at == (long)k);
            bool line = x.line() > 0;
            mc::label("stream %zu: new transaction into slot %zu%s", i, k, at >= 0 ? ", which has it open already" : "");
            auto t = x.bs.new_transaction();
            mc::eq(t.has_value(), line, "a transaction is started");
            if (!t) break;
            mc::eq(t->incoming(), x.in.first(x.line() - 1), "incoming line");
            mc::eq(t->is_finalized(), false, "new transaction is finalized");
            mc::eq(t->outgoing_space_used(), (size_t)0, "reply bytes of a new transaction");
            if (at < 0) finish(k, true); // an open transaction of another stream ends
            else mc::cover("reopened");
            if (mc::flip()) slot[k] = std::move(t);
            else slot[k] = std::move(*t);
            open[k] = {(long)i, 0};
            break;
        }
        case 3: {
            mc::assume(open[k].on >= 0);
            auto& y = *side[open[k].on];
            auto& b = mc::pick(s->replies);
            int how = mc::choose(3);
            if (how == 0) {
                mc::label("slot %zu: reply %s", k, mc::show(b.substr(0, 1)).c_str());
                size_t want = y.out.push(b[0]);
                if (!want) mc::broken();
                mc::eq(slot[k]->outgoing(b[0]), want, "bytes accepted");
                open[k].queued += want;
            } else {
                mc::label("slot %zu: reply %s", k, mc::show(b).c_str());
                size_t want = y.out.push(b);
                if (want < b.size()) mc::broken(), mc::cover("reply cut off");
                mc::eq(how == 1 ? slot[k]->outgoing(std::string_view(b)) : slot[k]->outgoing(b.data(), b.size()), want, "bytes accepted");
                open[k].queued += want;
            }
            break;
        }
        case 4:
            mc::assume(open[k].on >= 0);
            mc::label("slot %zu: commit", k);
            finish(k, true);
            slot[k]->commit();
            break;
        case 5:
            mc::assume(open[k].on >= 0);
            mc::label("slot %zu: abort", k);
            if (open[k].queued && side[open[k].on]->out.size() > open[k].queued) mc::cover("abort with earlier output");
            finish(k, false);
            slot[k]->abort();
            break;
        case 6:
            mc::assume(slot[k].has_value());
            mc::label("slot %zu: destroy", k);
            finish(k, true);
            slot[k].reset();
            memset((void*)&slot[k], 0, sizeof slot[k]);
            new (&slot[k]) std::optional<Transaction>();
            break;
        case 7: {
            mc::assume(s->slots > 1 && slot[k].has_value());
            size_t to = 1 - k;
            mc::label("move slot %zu to slot %zu", k, to);
            if (slot[to]) {
                if (open[to].on >= 0) mc::cover("moved over an open transaction");
                finish(to, true);
                *slot[to] = std::move(*slot[k]);
            } else {
                slot[to].emplace(std::move(*slot[k]));
            }
            std::swap(open[to], open[k]);
            break;
        }
        case 8: {
            mc::assume(open[k].on >= 0);
            mc::label("slot %zu: look at the line on the stream, move to itself", k);
            auto& y = *side[open[k].on];
            auto v = y.bs.get_next_line_view();
            mc::check(v.has_value(), "the line of an open transaction is gone");
            mc::eq(*v, y.in.first(y.line() - 1), "line");
            auto& self = *slot[k];
            *slot[k] = std::move(self);
            break;
        }
        }
        look();
    }
};
static void add(std::string name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new Tx(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    for (size_t cap : {1, 3, 4}) {
        Spec s{cap, cap, 1, 1, {"\n", "a\n", "bc\r", "x", "d\ne\n"}, {"p", "qr"}};
        add("one stream, capacity " + std::to_string(cap), s, th ? 9 : 7);
    }
    add("one stream, two slots", {3, 3, 1, 2, {"a\n", "b\n"}, {"p", "qr"}}, th ? 10 : 8);
    add("two streams, one slot", {3, 2, 2, 1, {"a\n", "b"}, {"p"}}, th ? 10 : 8);
    add("two streams, two slots", {3, 2, 2, 2, {"a\n"}, {"p"}, false}, th ? 12 : 9);
    add("zero bytes and bytes above 127", {4, 4, 1, 1, {"\0\n"s, "\xff\0\r"s, "\0"s}, {"\0"s, "\xff\0"s}}, th ? 9 : 6);
    std::string l254(254, 'l');
    add("capacity 256", {256, 256, 1, 1, {"a\n", "bc", l254 + "\n"}, {"p", l254, l254 + "34"}}, th ? 8 : 7);
    add("capacity 300", {300, 300, 1, 1, {"a\n", "bc", l254 + "\n"}, {"p", l254, l254 + "34"}}, th ? 8 : 7);
}
