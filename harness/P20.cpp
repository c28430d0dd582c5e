// P20: schedules over a day.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/time/schedule.hpp"
using spn::structure::time::Schedule;
using Block = Schedule::Block;
static constexpr int64_t DAY = 86400;

struct Spec {
    int max_blocks;
    std::vector<int64_t> starts, durations;
    bool every_second = false;
    std::vector<float> values = {}; // otherwise each block has one of its own
};
struct B { int64_t start, duration; float value; };
static Schedule* make(const std::vector<B>& v, bool config) {
    auto b = [&](int i) { return Block{k_time_s(v[i].start), k_time_s(v[i].duration), v[i].value}; };
    switch (v.size()) {
    case 0: return config ? new Schedule(Schedule::Config{{}}) : new Schedule(std::initializer_list<Block>{});
    case 1: return config ? new Schedule(Schedule::Config{{b(0)}}) : new Schedule({b(0)});
    case 2: return config ? new Schedule(Schedule::Config{{b(0), b(1)}}) : new Schedule({b(0), b(1)});
    case 3: return config ? new Schedule(Schedule::Config{{b(0), b(1), b(2)}}) : new Schedule({b(0), b(1), b(2)});
    case 4: return config ? new Schedule(Schedule::Config{{b(0), b(1), b(2), b(3)}}) : new Schedule({b(0), b(1), b(2), b(3)});
    default:
        return config ? new Schedule(Schedule::Config{{b(0), b(1), b(2), b(3), b(4)}})
                      : new Schedule({b(0), b(1), b(2), b(3), b(4)});
    }
}
struct Day : mc::Model {
    const Spec* s;
    std::vector<B> blocks;
    std::unique_ptr<Schedule> sched;
    explicit Day(const Spec* sp) : s(sp) {
        int n = mc::choose(s->max_blocks + 1);
        int64_t total = 0;
        for (int i = 0; i < n; i++) {
            B b{mc::pick(s->starts), mc::pick(s->durations), i == 2 ? -0.5f : i == 3 ? 1e30f : i + 1.5f};
            if (!s->values.empty()) b.value = mc::pick(s->values);
            total += b.duration;
            mc::assume(total <= DAY);
            blocks.push_back(b);
            mc::label("block from %lld for %lld s: %g", (long long)b.start, (long long)b.duration, b.value);
        }
        sched.reset(make(blocks, mc::flip()));
    }
    float value(int64_t t) const {
        for (auto& b : blocks)
            if ((t >= b.start && t < b.start + b.duration) || t + DAY < b.start + b.duration) return b.value;
        return 0;
    }
    int64_t next(int64_t t) const {
        int64_t n = DAY;
        for (auto& b : blocks) if (b.start > t) n = std::min(n, b.start);
        return n;
    }
    void ask(int64_t t) {
        float v = sched->value_at(k_time_s(t)), w = value(t);
        if (!(v == w)) mc::fail("value at %lld s: got %g, expected %g", (long long)t, v, w);
        int64_t a = sched->start_of_next_block(k_time_s(t)).raw(), e = next(t);
        if (a != e) mc::fail("start of the next block after %lld s: got %lld, expected %lld", (long long)t, (long long)a, (long long)e);
        mc::observe(v);
        mc::observe(a);
    }
    void step() override {
        if (s->every_second) {
            mc::label("ask for every second of the day");
            for (int64_t t = 0; t < DAY; t++) ask(t);
            for (int64_t t = DAY - 1; t >= 0; t -= 977) ask(t);
            return;
        }
        std::vector<int64_t> ts = {0, 1, DAY / 2, DAY - 1};
        for (auto& b : blocks)
            for (int64_t p : {b.start, b.start + b.duration})
                for (int64_t d : {-1, 0, 1}) ts.push_back(((p + d) % DAY + DAY) % DAY);
        int64_t t = mc::pick(ts);
        mc::label("ask for %lld s", (long long)t);
        ask(t);
        if (value(t) != 0)
            for (auto& b : blocks) if (t + DAY < b.start + b.duration) mc::cover("after midnight");
        int64_t u = ts[(size_t)mc::choose((int)ts.size())];
        ask(u);
        ask(t);
    }
};
MC_MAIN {
    bool th = mc::thorough();
    auto add = [](const char* name, Spec s) {
        auto* p = new Spec(std::move(s));
        mc::config(name, [p] { return new Day(p); }, 2, {6000000});
    };
    int64_t H = 3600;
    add("up to 2 blocks", {2, {0, 1, 59, 60, 6 * H, 6 * H + 1, 12 * H, 18 * H, DAY - H, DAY - 60, DAY - 1}, {1, 60, 90, 6 * H, 6 * H - 1, 12 * H, 12 * H + 1, DAY - 1, DAY}});
    add("up to 3 blocks", {3, th ? std::vector<int64_t>{0, 1, 6 * H, 8 * H, 12 * H, 20 * H, DAY - 1} : std::vector<int64_t>{0, 6 * H, 12 * H, DAY - H},
                           th ? std::vector<int64_t>{1, 4 * H, 6 * H, 8 * H, 12 * H} : std::vector<int64_t>{1, 6 * H, 8 * H}});
    add("up to 4 blocks", {4, {0, 8 * H, 20 * H}, th ? std::vector<int64_t>{60, 6 * H, 7 * H} : std::vector<int64_t>{6 * H}});
    if (th) add("up to 5 blocks", {5, {1, 8 * H, 20 * H}, {4 * H}});
    add("values", {th ? 3 : 2, {0, 1, 6 * H, 20 * H}, {1, 6 * H, 8 * H}, false, {0.0f, -1.5f, 2.25f}});
    add("every second", {2, {0, 7 * H + 13, 22 * H}, {5 * H, 10 * H + 7}, true});
}
