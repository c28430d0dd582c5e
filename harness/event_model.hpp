// The event system against a reference queue. The environment: any caller that schedules, triggers, holds events,
// lets time pass and runs the loop, and handlers that do all of this while an event is being delivered.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <optional>
#include "spine/core/debugging.hpp"
#include "spine/eventsystem/eventsystem.hpp"

namespace em {
using namespace spn::core;
using Ms = int64_t;
enum class Id : int {}; // callers use their own enumerations

struct Spec {
    size_t cap = 3;
    std::vector<std::vector<int>> attached = {{0, 1}, {1}, {2, 0, 2}}; // handlers per id, in order
    std::vector<Ms> bases = {0};
    std::vector<Ms> delays = {0, 1, 2};
    std::vector<Ms> advances = {1, 2};
    std::vector<int> payloads = {0};      // kinds of payload
    int reactions = 0;                    // handlers may do that many things per transition
    bool nested_loop = false;
    bool hold = false;                    // callers hold events
    bool trigger = true;
    bool sleep = false;
    std::vector<std::pair<Ms, Ms>> limits = {{100, 1000}};
    bool default_limits = false;
    bool allocs = false;
    std::vector<int> ids = {};            // the ids that callers use (all by default)
    int prefill = 0;                      // events scheduled (delay 1000 + i % 7) before the exploration starts
};

struct Payload {
    int64_t kind = 0;  // no padding in reference state: it is hashed
                       // 0 none 1 float 2 uint 3 ms 4 s
    int64_t value = 0; // quarter units for float
    bool operator==(const Payload& o) const { return kind == o.kind && value == o.value; }
    struct Buffer { // zeroed, so that padding does not tell equal states apart
        alignas(Event::Data) unsigned char b[sizeof(Event::Data)];
        Buffer() { memset(b, 0, sizeof b); }
    };
    const Event::Data& data(Buffer&& m = Buffer()) const {
        switch (kind) {
        case 1: return *new (m.b) Event::Data(value / 4.0f);
        case 2: return *new (m.b) Event::Data((uint32_t)value);
        case 3: return *new (m.b) Event::Data(k_time_ms(value));
        case 4: return *new (m.b) Event::Data(k_time_s(value));
        }
        return *new (m.b) Event::Data();
    }
    void check(const Event::Data& d) const {
        mc::eq(d.has_value(), kind != 0, "has_value");
        switch (kind) {
        case 1: mc::eq(d.value(), value / 4.0f, "float data"); break;
        case 2: mc::eq(d.unsigned_value(), (uint32_t)value, "unsigned data"); break;
        case 3: mc::eq(d.ms().raw(), value, "millisecond data"); break;
        case 4: mc::eq(d.s().raw(), value, "second data"); break;
        }
    }
};
struct Pending {
    Ms due;
    int64_t id;
    Payload data;
};
struct Queue { // like ref::Seq, sized by the capacity of the system under test
    std::unique_ptr<Pending[]> v;
    size_t n = 0, cap;
    explicit Queue(size_t c) : v(new Pending[c]()), cap(c) {}
    Pending& operator[](size_t i) { return v[i]; }
    void insert(size_t i, const Pending& p) {
        if (n >= cap) mc::fail("driver error: more events pending than there is room for");
        for (size_t k = n; k > i; k--) v[k] = v[k - 1];
        v[i] = p;
        n++;
    }
    Pending pop_front() {
        Pending p = v[0];
        for (size_t k = 0; k + 1 < n; k++) v[k] = v[k + 1];
        v[--n] = Pending{};
        return p;
    }
};

struct Events : mc::Model {
    struct Handler : EventHandler {
        Events* m;
        int no;
        Handler(Events* m_, int n) : EventHandler(nullptr), m(m_), no(n) {}
        void handle_event(const Event& e) override { m->handled(no, e, evsys()); }
    };
    struct Frame {
        int64_t loop;      // a running loop()
        int64_t from_loop; // delivery made by a loop pass
        int64_t id;
        Payload data;
        size_t next;       // handlers called so far
    };
    const Spec* s;
    std::unique_ptr<EventSystem> es;
    std::unique_ptr<Handler> h[4];
    Queue pending;
    ref::Seq<Frame, 16> frames;
    std::shared_ptr<Event> held;
    int held_id = 0;
    Ms held_delay = 0;
    Payload held_data;
    int budget = 0;
    Ms min_sleep, max_sleep;

    explicit Events(const Spec* sp) : s(sp), pending(sp->cap) {
        Ms base = mc::pick(s->bases);
        auto lim = mc::pick(s->limits);
        mc::label("clock at %lld, room for %zu events, sleeping %s %lld..%lld", (long long)base, s->cap, s->sleep ? "yes" : "no", (long long)lim.first, (long long)lim.second);
        HAL::delay_ms(k_time_ms(base));
        min_sleep = lim.first, max_sleep = lim.second;
        if (s->default_limits)
            es = std::make_unique<EventSystem>(EventSystem::Config{.events_count = s->attached.size(), .events_cap = s->cap, .handler_cap = cap_of_handlers(), .delay_between_ticks = s->sleep});
        else
            es = std::make_unique<EventSystem>(EventSystem::Config{.events_count = s->attached.size(), .events_cap = s->cap, .handler_cap = cap_of_handlers(), .delay_between_ticks = s->sleep, .min_delay_between_ticks = k_time_ms(lim.first), .max_delay_between_ticks = k_time_ms(lim.second)});
        for (int i = 0; i < 4; i++) {
            h[i] = std::make_unique<Handler>(this, i);
            h[i]->attach_event_system(es.get());
        }
        // in rounds, so that attachments to different ids interleave
        for (size_t k = 0; k < cap_of_handlers(); k++)
            for (size_t i = 0; i < s->attached.size(); i++)
                if (k < s->attached[i].size()) es->attach(Id(i), h[s->attached[i][k]].get());
        for (int i = 0; i < s->prefill; i++) {
            Payload p{2, i + 1};
            Ms d = 1000 + i * 5 % 7;
            es->schedule(Id(0), k_time_ms(d), p.data());
            add(0, d, p);
        }
    }
    static Ms now() { return HAL::millis().raw(); }
    void add(int id, Ms delay, const Payload& p) {
        if (delay <= 0) mc::broken(); // it fires at once all the same
        Ms due = now() + delay;
        size_t i = 0;
        while (i < pending.n && pending[i].due <= due) i++;
        if (i < pending.n) mc::cover("scheduled before a pending event");
        else if (pending.n && pending[pending.n - 1].due == due) mc::cover("equal due times");
        pending.insert(i, Pending{due, id, p});
    }
    Payload payload() {
        Payload p;
        p.kind = mc::pick(s->payloads);
        if (p.kind) p.value = fresh();
        return p;
    }
    int64_t fresh() { // the smallest number that no live event carries
        for (int64_t v = 1;; v++) {
            bool used = held && held_data.value == v;
            for (size_t i = 0; i < pending.n && !used; i++) used = pending[i].data.value == v;
            for (size_t i = 0; i < frames.n && !used; i++) used = frames[i].data.value == v;
            if (!used) return v;
        }
    }
    size_t surely_used() const { return pending.n + (held ? 1 : 0); }
    size_t maybe_used() const { // a slot may stay occupied while its event is being delivered
        size_t n = surely_used();
        for (size_t i = 0; i < frames.n; i++) n += frames[i].from_loop;
        return n;
    }

    // ---- called by the event system -------------------------------------------------------------------------
    void silent() { // an event that nobody listens to
        pending.pop_front();
        mc::broken();
    }
    void skip_silent() {
        while (pending.n && pending[0].due <= now() && s->attached[pending[0].id].empty()) silent();
    }
    void handled(int no, const Event& e, EventSystem* via) {
        mc::check(via == es.get(), "the handler knows another event system");
        if (!frames.n) mc::fail("handler %d was called by an operation that delivers nothing (event %zu)", no, e.id());
        Frame* f = &frames[frames.n - 1];
        if (!f->loop && f->from_loop && f->next == s->attached[f->id].size()) {
            frames.pop_back();
            f = &frames[frames.n - 1];
        }
        if (f->loop) {
            skip_silent();
            if (!pending.n) mc::fail("event %zu delivered although nothing is pending", e.id());
            Pending p = pending.pop_front();
            if (p.due > now()) mc::fail("event %zu delivered %lld ms early", e.id(), (long long)(p.due - now()));
            if (frames.n > 1) mc::cover("delivery by a nested loop pass");
            frames.push_back(Frame{false, true, p.id, p.data, 0});
            f = &frames[frames.n - 1];
        }
        const auto& order = s->attached[f->id];
        mc::label("  handler %d gets event %zu", no, e.id());
        if (f->next >= order.size()) mc::fail("event %d delivered to handler %d in addition to all of its handlers", (int)f->id, no);
        mc::eq((int64_t)e.id(), f->id, "id of the delivered event");
        mc::eq(no, order[f->next], "handler that gets the event");
        f->data.check(e.data());
        f->next++;
        last_quiet = now();
        if (budget > 0) {
            int op = mc::choose(6);
            if (op == 5 && !s->nested_loop) mc_prune();
            if (op == 0) return;
            budget--;
            size_t depth = frames.n;
            switch (op) {
            case 1: schedule(); break;
            case 2: trigger(); break;
            case 3: pass_time(); break;
            case 4: if (!s->hold) mc_prune(); hold(); break;
            case 5: loop(); break;
            }
            mc::cover("handler acted during a delivery");
            if (frames.n != depth) mc::fail("driver error: unbalanced frames");
            // the event stays what it was while the handler runs
            f = &frames[frames.n - 1];
            mc::eq((int64_t)e.id(), f->id, "id of the event after its handler acted");
            f->data.check(e.data());
            last_quiet = now();
        }
    }
    size_t cap_of_handlers() const {
        size_t n = 3;
        for (auto& a : s->attached) n = std::max(n, a.size());
        return n;
    }
    int some_id() { return s->ids.empty() ? mc::choose((int)s->attached.size()) : mc::pick(s->ids); }
    // ---- what callers do ------------------------------------------------------------------------------------
    void schedule() {
        int id = some_id();
        Ms d = mc::pick(s->delays);
        Payload p = payload();
        if (surely_used() >= s->cap) {
            mc::label("schedule event %d in %lld: no room", id, (long long)d);
            mc::cover("refused, full");
            mc::broken();
            if (mc::flip()) es->schedule(Id(id), k_time_ms(d), p.data());
            else {
                auto e = es->event(Id(id), k_time_ms(d), p.data());
                mc::check(e == nullptr, "an event beyond the capacity");
                es->schedule(std::move(e));
            }
            return;
        }
        int how = mc::choose(d % 1000 == 0 ? 3 : 2);
        if (maybe_used() >= s->cap) how = 1; // only a visible answer is of use
        mc::label("schedule event %d in %lld%s", id, (long long)d, how == 1 ? " (event, then schedule)" : how == 2 ? " (in seconds)" : "");
        if (how == 1) {
            auto e = es->event(Id(id), k_time_ms(d), p.data());
            if (!e) {
                if (maybe_used() < s->cap) mc::fail("event refused with %zu of %zu slots in use", maybe_used(), s->cap);
                mc::cover("refused, last slot being delivered");
                mc::broken();
                return;
            }
            mc::eq((int)e->id(), id, "id of a new event");
            p.check(e->data());
            es->schedule(std::move(e));
        } else if (how == 2) es->schedule(id, k_time_s(d / 1000), p.data());
        else es->schedule(Id(id), k_time_ms(d), p.data());
        add(id, d, p);
    }
    void trigger() {
        mc::assume(s->trigger);
        int id = some_id();
        int how = mc::choose(held ? 3 : 1);
        Payload p = how ? held_data : payload();
        if (how) id = held_id;
        mc::label("trigger event %d%s", id, how ? " (held)" : "");
        if (surely_used() >= s->cap && !how) mc::cover("triggered while full");
        frames.push_back(Frame{false, false, id, p, 0});
        size_t depth = frames.n;
        auto keep = held;
        if (s->attached[id].empty()) mc::broken();
        if (how == 0) es->trigger(Id(id), p.data());
        else if (how == 1) es->trigger(keep);
        else es->trigger(*keep);
        if (frames.n != depth) mc::fail("driver error: unbalanced frames after a trigger");
        mc::eq(frames.back().next, s->attached[id].size(), "handlers called by a trigger");
        frames.pop_back();
    }
    void pass_time() {
        int k = mc::choose((int)s->advances.size() + 2);
        Ms d;
        if (k < (int)s->advances.size()) d = s->advances[k];
        else {
            if (!pending.n) mc_prune();
            Ms due = k == (int)s->advances.size() ? pending[pending.n - 1].due : pending[0].due - 1;
            d = due - now();
            mc::assume(d > 0);
        }
        mc::label("%lld ms pass", (long long)d);
        HAL::delay_ms(k_time_ms(d));
    }
    void hold() {
        switch (mc::choose(3)) {
        case 0: {
            mc::assume(!held);
            held_id = some_id();
            held_delay = mc::pick(s->delays);
            held_data = payload();
            bool must = maybe_used() < s->cap, cannot = surely_used() >= s->cap;
            mc::label("hold an event %d due in %lld", held_id, (long long)held_delay);
            held = es->event(Id(held_id), k_time_ms(held_delay), held_data.data());
            if (must) mc::check(held != nullptr, "event refused although there is room");
            if (cannot) mc::check(held == nullptr, "an event beyond the capacity");
            if (!held) mc::broken(), held_id = 0, held_delay = 0, held_data = Payload{};
            break;
        }
        case 1:
            mc::assume((bool)held);
            mc::label("schedule the held event");
            add(held_id, held_delay, held_data);
            es->schedule(std::move(held));
            forget();
            break;
        case 2:
            mc::assume((bool)held);
            mc::label("release the held event");
            forget();
            break;
        }
    }
    void forget() {
        held = nullptr;
        held_id = 0, held_delay = 0, held_data = Payload{};
    }
    void loop() {
        mc::label("loop {");
        mc::assume(frames.n < 8);
        frames.push_back(Frame{true, false, 0, Payload{}, 0});
        size_t depth = frames.n;
        uint64_t a0 = mc_allocs();
        // when the last handler of this pass returns, time stands still until the pass sleeps
        last_quiet = now();
        es->loop();
        if (s->allocs) mc::eq(mc_allocs() - a0, (uint64_t)0, "heap allocations made by a loop pass");
        if (frames.n == depth + 1) {
            mc::eq(frames.back().next, s->attached[frames.back().id].size(), "handlers that got the last event");
            frames.pop_back();
        }
        if (frames.n != depth) mc::fail("driver error: unbalanced frames after a loop");
        frames.pop_back();
        // what is due when the deliveries have ended must have been delivered; then the pass may sleep
        Ms end = now();
        Ms asleep_since = quiet();
        while (pending.n && pending[0].due <= asleep_since && s->attached[pending[0].id].empty()) silent();
        if (pending.n && pending[0].due <= asleep_since) mc::fail("event %d, due at %lld, not delivered by a loop pass at %lld", (int)pending[0].id, (long long)pending[0].due, (long long)asleep_since);
        Ms want = 0;
        if (s->sleep) {
            if (!pending.n) want = min_sleep;
            else {
                want = std::min(pending[0].due - asleep_since, max_sleep);
                mc::cover(want == max_sleep ? "slept for the maximum" : "slept until the next event");
            }
        }
        mc::label("} slept %lld ms", (long long)(end - asleep_since));
        mc::eq(end - asleep_since, want, "milliseconds slept by a loop pass");
        last_quiet = now();
    }
    // the time at which the last handler call (or nested loop) of the running pass ended
    Ms last_quiet = 0;
    Ms quiet() const { return last_quiet; }

    void step() override {
        budget = s->reactions;
        uint64_t a0 = mc_allocs();
        switch (mc::choose(s->hold ? 5 : 4)) {
        case 0: schedule(); break;
        case 1: pass_time(); break;
        case 2: loop(); break;
        case 3: trigger(); break;
        case 4: hold(); break;
        }
        if (s->allocs) mc::eq(mc_allocs() - a0, (uint64_t)0, "heap allocations");
        budget = 0;
        last_quiet = 0;
        if (frames.n) mc::fail("driver error: frames left");
    }
};
} // namespace em
