// P06: lines of a line buffer.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/linebuffer.hpp"
using spn::structure::LineBuffer;
using namespace std::literals;

struct Spec {
    size_t cap;
    std::string alphabet;
    std::vector<std::string_view> delimiters;
    bool change_delimiters = false, ring_ops = false;
    size_t chunk = 0;      // push blocks of up to this size
    size_t prefill = 0;    // go round the ring before exploration starts
    std::vector<size_t> bulk; // sizes of longer blocks of 'x'
};
struct Lines : mc::Model {
    const Spec* s;
    LineBuffer lb;
    std::unique_ptr<char[]> ref;   // what is buffered
    size_t n = 0;
    size_t delim;
    explicit Lines(const Spec* sp, size_t d) : s(sp), lb(sp->cap, sp->delimiters[d]), ref(new char[sp->cap]()), delim(d) {
        mc::label("capacity %zu, delimiters %s", s->cap, mc::show(s->delimiters[d]).c_str());
        size_t pre = s->prefill ? mc::choose((int)s->prefill) : 0;
        for (size_t i = 0; i < pre; i++) { // moves the ring position, without content
            lb.push('p');
            lb.pop();
        }
        if (pre) mc::label("ring position %zu", pre);
    }
    bool is_delim(char c) const { return s->delimiters[delim].find(c) != std::string_view::npos; }
    size_t length() const {
        for (size_t i = 0; i < n; i++) if (is_delim(ref[i])) return i + 1;
        return 0;
    }
    void erase(size_t k) {
        memmove(&ref[0], &ref[k], n - k);
        memset(&ref[n - k], 0, k);
        n -= k;
    }
    bool add(char c, bool roll) {
        if (n == s->cap) {
            if (!roll) return false;
            erase(1);
        }
        ref[n++] = c;
        return true;
    }
    char pick_char() { return s->alphabet[mc::choose((int)s->alphabet.size())]; }
    std::optional<size_t> discovered() {
        if (mc::flip()) return std::nullopt;
        return lb.length_of_next_line();
    }
    void look() {
        mc::eq(lb.used_space(), n, "used space");
        mc::eq(lb.free_space(), s->cap - n, "free space");
        size_t len = length();
        mc::eq(lb.length_of_next_line(), len, "length of the next line");
        mc::eq(lb.has_line(), len > 0, "has_line");
    }
    void step() override {
        int op = mc::choose(s->ring_ops ? 9 : 6);
        size_t len = length();
        switch (op) {
        case 0: {
            if (!s->bulk.empty() && mc::flip()) {
                size_t k = mc::pick(s->bulk);
                char last = pick_char();
                mc::label("push %zu bytes and %s", k, mc::show(last).c_str());
                std::string b(k, 'x');
                b += last;
                size_t fit = std::min(b.size(), s->cap - n);
                mc::eq(lb.push(std::string_view(b)), fit, "bytes accepted");
                for (size_t i = 0; i < fit; i++) add(b[i], false);
                break;
            }
            char b[8];
            size_t k = s->chunk ? mc::choose((int)s->chunk + 1) : 0;
            if (k == 0) {
                char c = pick_char();
                bool roll = mc::flip();
                mc::label("push %s%s", mc::show(std::string_view(&c, 1)).c_str(), roll ? ", overwriting" : "");
                bool want = add(c, roll);
                mc::eq(lb.push(c, roll), want, "push");
                break;
            }
            for (size_t i = 0; i < k; i++) b[i] = pick_char();
            mc::label("push %s", mc::show(std::string_view(b, k)).c_str());
            size_t fit = std::min(k, s->cap - n);
            for (size_t i = 0; i < fit; i++) add(b[i], false);
            mc::eq(lb.push(std::string_view(b, k)), fit, "bytes accepted");
            break;
        }
        case 1: {
            auto d = discovered();
            mc::label("view the next line%s", d ? ", known length" : "");
            auto v = lb.get_next_line_view(d);
            mc::eq(v.has_value(), len > 0, "there is a line");
            if (!v) break;
            mc::eq(v->size(), len - 1, "length of the line");
            mc::eq(*v, std::string_view(&ref[0], len - 1), "the next line");
            look();
            auto w = lb.get_next_line_view();
            mc::check(w.has_value(), "the line is gone after viewing it");
            mc::eq(*w, std::string_view(&ref[0], len - 1), "the next line, viewed again");
            mc::eq(*v, std::string_view(&ref[0], len - 1), "the first view, after viewing again");
            mc::cover("line viewed");
            break;
        }
        case 2: {
            auto d = discovered();
            size_t max = mc::choose(len < 6 ? (int)len + 3 : 3);
            if (len >= 6) max = len - 1 + max;
            mc::label("read the next line into %zu bytes%s", max, d ? ", known length" : "");
            std::vector<unsigned char> g(max + 32, 0xE1);
            size_t got = lb.get_next_line((char*)g.data() + 16, max, d);
            size_t used = 0;
            if (len == 0 || len > max) {
                mc::eq(got, (size_t)0, "bytes read");
                if (len > max) mc::cover("destination too small");
            } else {
                mc::eq(got, len - 1, "bytes read");
                mc::eq(std::string_view((char*)g.data() + 16, len - 1), std::string_view(&ref[0], len - 1), "the line");
                mc::eq((int)g[16 + len - 1], 0, "terminator");
                used = len;
                erase(len);
            }
            for (size_t i = 0; i < g.size(); i++)
                if (!(i >= 16 && i < 16 + used)) mc::check(g[i] == 0xE1, "byte %d of the destination was written", (int)i - 16);
            break;
        }
        case 3: {
            auto d = discovered();
            mc::label("drop the next line%s", d ? ", known length" : "");
            mc::eq(lb.drop_next_line(d), len > 0, "line dropped");
            erase(len);
            break;
        }
        case 4: {
            mc::label("pop");
            char c = '?';
            mc::eq(lb.pop(c), n > 0, "pop");
            if (n) {
                mc::eq(c, ref[0], "popped byte");
                erase(1);
            }
            break;
        }
        case 5: {
            mc::assume(s->change_delimiters);
            delim = mc::choose((int)s->delimiters.size());
            mc::label("set delimiters %s", mc::show(s->delimiters[delim]).c_str());
            lb.set_delimiters(s->delimiters[delim]);
            mc::eq(lb.delimiters(), s->delimiters[delim], "delimiters");
            break;
        }
        case 6: {
            size_t k = 1 + mc::choose(2);
            mc::label("drop the last %zu bytes", k);
            k = std::min(k, n);
            mc::eq(lb.drop_last(1 + (k ? k - 1 : 0)), k, "bytes dropped");
            while (k--) ref[--n] = 0;
            break;
        }
        case 7: {
            size_t k = 1 + mc::choose(2);
            mc::label("drop the first %zu bytes", k);
            k = std::min(k, n);
            mc::eq(lb.drop_first(1 + (k ? k - 1 : 0)), k, "bytes dropped");
            erase(k);
            break;
        }
        case 8:
            mc::label("clear");
            lb.clear();
            erase(n);
            break;
        }
        look();
    }
};
static void add(const char* name, Spec s, int depth) {
    auto* p = new Spec(std::move(s));
    mc::config(name, [p] { return new Lines(p, mc::choose((int)p->delimiters.size())); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    Spec s;
    s.alphabet = "ab\n";
    s.delimiters = {"\n"};
    s.ring_ops = true;
    for (size_t cap = 1; cap <= (th ? 7 : 5); cap++) {
        s.cap = cap;
        s.prefill = cap;
        add(("capacity " + std::to_string(cap)).c_str(), s, th ? (cap <= 5 ? 18 : 10) : (cap <= 2 ? 14 : 7));
    }
    s.cap = 3;
    s.prefill = 3;
    s.alphabet = "a\r\n\0\xff"s;
    s.delimiters = {"\r\n", "\n", "", "\0"sv, "\xff", "a"};
    s.change_delimiters = true;
    s.ring_ops = false;
    add("all kinds of delimiters", s, th ? 9 : 5);
    s.cap = 6;
    s.alphabet = "a\n\r";
    s.delimiters = {"\r\n"};
    s.change_delimiters = false;
    s.prefill = 6;
    s.chunk = 3;
    add("blocks", s, th ? 7 : 4);
    for (size_t cap : {255, 256, 300}) {
        Spec l;
        l.cap = cap;
        l.alphabet = "y\n";
        l.delimiters = {"\r\n"};
        l.bulk = {100, 254, 255, 256};
        add(("capacity " + std::to_string(cap)).c_str(), l, th ? 7 : 5);
    }
}
