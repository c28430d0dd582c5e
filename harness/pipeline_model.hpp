// eventsystem::Pipeline and Future used directly, against a list in chronological order (P38, P37).
#pragma once
#include "ref.hpp"
#include <memory>
#include <string>
#include "spine/core/debugging.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"

namespace ppm {
using spn::eventsystem::Future;
using spn::eventsystem::Pipeline;
using Ms = int64_t;
constexpr int N = 5; // futures that exist
struct Spec {
    size_t cap = 3;
    int futures = 4;
    std::vector<Ms> delays = {1, 2, 3}, advances = {1, 2}, bases = {0};
    bool text = true;
    bool overflow = true;
};
struct F : Future {
    int64_t id;
    int64_t* alive;
    F(int64_t i, Ms d, int64_t* a) : Future(k_time_ms(d)), id(i), alive(a) { ++*alive; }
    ~F() { --*alive; }
};
using Ptr = std::shared_ptr<F>;

struct Model : mc::Model {
    const Spec* s;
    std::unique_ptr<Pipeline> p;
    int64_t alive[N]{};
    std::shared_ptr<F> mine[N];   // held by the caller
    int64_t held[N]{}, queued[N]{}, delay[N]{}, due[N]{};
    ref::Seq<int, N> order;       // in the pipeline, by due time, first pushed first
    explicit Model(const Spec* sp) : s(sp) {
        Ms base = mc::pick(s->bases);
        HAL::delay_ms(k_time_ms(base));
        p = std::make_unique<Pipeline>(s->cap);
        mc::label("clock at %lld, room for %zu", (long long)base, s->cap);
    }
    static Ms now() { return HAL::millis().raw(); }
    int some(int64_t* flag, bool value, int64_t* flag2 = nullptr, bool value2 = false) {
        ref::Seq<int, N> c;
        for (int i = 0; i < s->futures; i++) if ((flag[i] != 0) == value && (!flag2 || (flag2[i] != 0) == value2)) c.push_back(i);
        mc::assume(!c.empty());
        return c[mc::choose((int)c.size())];
    }
    void drop(int i) {
        if (!held[i] && !queued[i]) delay[i] = due[i] = 0;
    }
    void step() override {
        switch (mc::choose(7)) {
        case 0: { // a new future
            int i = -1;
            for (int k = 0; k < s->futures && i < 0; k++) if (!held[k] && !queued[k]) i = k;
            mc::assume(i >= 0);
            delay[i] = mc::pick(s->delays);
            due[i] = now() + delay[i];
            mc::label("make future %d in %lld", i, (long long)delay[i]);
            mine[i] = std::make_shared<F>(i, delay[i], &alive[i]);
            held[i] = 1;
            break;
        }
        case 1: { // into the pipeline, keeping a reference or not
            int i = some(held, true, queued, false);
            bool keep = mc::flip(), full = order.size() == s->cap;
            if (full) {
                mc::assume(s->overflow);
                mc::broken();
                mc::cover("pushed into a full pipeline");
            }
            mc::label("push future %d, due in %lld%s", i, (long long)delay[i], keep ? ", keeping it" : "");
            std::shared_ptr<Future> f = keep ? std::shared_ptr<Future>(mine[i]) : std::shared_ptr<Future>(std::move(mine[i]));
            if (!keep) mine[i].reset(), held[i] = 0;
            p->push(std::move(f));
            due[i] = now() + delay[i]; // counts from the moment it is pushed
            if (!full) {
                size_t at = 0;
                while (at < order.size() && due[order[at]] <= due[i]) at++;
                if (at && due[order[at - 1]] == due[i]) mc::cover("due at the same time as another one");
                if (at < order.size()) mc::cover("pushed ahead of another one");
                order.insert(at, i);
                queued[i] = 1;
            }
            drop(i);
            break;
        }
        case 2: { // the next one
            if (order.empty()) {
                mc::label("expire: nothing there");
                mc::broken();
                mc::check(p->expire() == nullptr, "a future from an empty pipeline");
                break;
            }
            int i = order[0];
            mc::assume(due[i] <= now());
            auto f = p->expire();
            mc::label("expire -> %d", f ? (int)static_cast<F*>(f.get())->id : -1);
            mc::check(f != nullptr, "no future although future %d is due", i);
            mc::eq(static_cast<F*>(f.get())->id, (int64_t)i, "future");
            mc::check(f->expired(), "a future that is not ready");
            mc::eq((int64_t)f.use_count(), 1 + held[i], "references to the future");
            mc::cover("expired");
            order.pop_front();
            queued[i] = 0;
            if (mc::flip() && !held[i]) mine[i] = std::static_pointer_cast<F>(f), held[i] = 1;
            f.reset();
            drop(i);
            break;
        }
        case 3: {
            Ms d = 0;
            int k = mc::choose((int)s->advances.size() + 2);
            if (k < (int)s->advances.size()) d = s->advances[k];
            else {
                mc::assume(!order.empty());
                d = due[k == (int)s->advances.size() ? order[0] : order.back()] - now() - (k == (int)s->advances.size() ? 1 : 0);
                mc::assume(d > 0);
            }
            mc::label("%lld ms pass", (long long)d);
            HAL::delay_ms(k_time_ms(d));
            break;
        }
        case 4: { // a future that is not queued is given another time; 0: the same delay as before
            int i = some(held, true, queued, false);
            Ms d = mc::flip() ? 0 : mc::pick(s->delays);
            mc::label("reschedule future %d in %lld", i, (long long)d);
            if (d) mine[i]->reschedule(k_time_ms(d));
            else mine[i]->reschedule();
            if (d) delay[i] = d;
            due[i] = now() + delay[i];
            mc::cover("rescheduled");
            break;
        }
        case 5: {
            int i = some(held, true);
            mc::label("let go of future %d", i);
            mine[i].reset();
            held[i] = 0;
            drop(i);
            break;
        }
        case 6: { // all that are due, in a row
            mc::label("expire all that are due");
            while (p->contains_expired_futures()) {
                if (order.empty()) mc::fail("a due future in an empty pipeline");
                int i = order.pop_front();
                auto f = p->expire();
                if (!f) mc::fail("no future although there is a due one");
                mc::eq(static_cast<F*>(f.get())->id, (int64_t)i, "future");
                queued[i] = 0;
                f.reset();
                drop(i);
            }
            if (!order.empty() && due[order[0]] <= now()) mc::fail("future %d is due but was not handed out", order[0]);
            break;
        }
        }
        verify();
    }
    void verify() {
        Ms t = now();
        const Pipeline& c = *p;
        mc::eq(c.contains_futures(), !order.empty(), "contains_futures");
        mc::eq(c.contains_expired_futures(), !order.empty() && due[order[0]] <= t, "contains_expired_futures");
        mc::eq(c.time_until_next_future().raw(), order.empty() ? Ms(0) : std::max<Ms>(0, due[order[0]] - t), "time_until_next_future");
        size_t n = 0;
        std::string text = "Pipeline: [";
        for (const auto& f : c.pipe()) {
            if (n >= order.size()) mc::fail("more than %zu futures are queued", order.size());
            int i = order[n];
            mc::eq(static_cast<F*>(f.get())->id, (int64_t)i, "queued future");
            look(*f, i, t);
            if (n++) text += ", ";
            text += spn::core::utils::repr(k_time_ms(due[i] - t));
        }
        mc::eq(n, order.size(), "futures queued");
        text += "]";
        if (s->text) mc::eq(c.to_string(), text, "text");
        for (int i = 0; i < s->futures; i++) {
            mc::eq(alive[i], (int64_t)(held[i] || queued[i]), "future alive");
            if (!mine[i]) continue;
            look(*mine[i], i, t);
            mc::eq((int64_t)mine[i].use_count(), held[i] + queued[i], "references");
            for (int k = 0; k < s->futures; k++)
                if (mine[k]) {
                    mc::eq(*mine[i] < *mine[k], due[i] < due[k], "order of two futures");
                    mc::eq(*mine[i] == *mine[k], due[i] == due[k], "equality of two futures");
                }
        }
    }
    void look(Future& f, int i, Ms t) {
        mc::eq(f.future().raw(), due[i], "moment");
        mc::eq(f.time_until_future().raw(), due[i] - t, "time until the moment");
        mc::eq(f.expired(), due[i] <= t, "ready");
    }
};
// more futures than a byte counts
struct Many : mc::Model {
    void step() override {
        int n = mc::pick(std::vector<int>{16, 255, 256, 257, 300}), how = mc::choose(5), at = mc::choose(3);
        mc::label("%d futures, pattern %d, a further one %s", n, how, at == 0 ? "first" : at == 1 ? "in between" : "last");
        Pipeline p((size_t)n + 1);
        std::vector<std::pair<Ms, int>> want;
        std::vector<Future*> f;
        for (int i = 0; i <= n; i++) {
            Ms d = i == n ? (at == 0 ? 1 : at == 1 ? 10 + n : 100000) : how == 0 ? 10 + 2 * i : how == 1 ? 10 + 2 * (n - i) : how == 2 ? 10 + n : how == 3 ? 10 + i * 37 % n * 2 : 10 + i / 100;
            auto q = std::make_shared<Future>(k_time_ms(d));
            f.push_back(q.get());
            p.push(std::move(q));
            want.push_back({d, i});
        }
        std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::string text;
        for (auto& w : want) text += (text.empty() ? "Pipeline: [" : ", ") + std::string(spn::core::utils::repr(k_time_ms(w.first)));
        mc::eq(p.to_string(), text + "]", "text");
        Ms passed = 0;
        for (auto& w : want) {
            mc::eq(p.time_until_next_future().raw(), w.first - passed, "time until the next");
            HAL::delay_ms(k_time_ms(w.first - passed));
            passed = w.first;
            mc::check(p.contains_expired_futures(), "future %d is not due", w.second);
            auto q = p.expire();
            mc::check(q.get() == f[(size_t)w.second], "another future than %d", w.second);
        }
        mc::check(!p.contains_futures(), "futures are left");
        mc::cover("long pipelines");
    }
};
// what an event system has pending, as text
struct Text : mc::Model {
    struct H : spn::core::EventHandler {
        using EventHandler::EventHandler;
        void handle_event(const spn::core::Event&) override {}
    };
    static constexpr size_t CAP = 4;
    spn::core::EventSystem es{{1, CAP, 1, false}};
    H h{&es};
    ref::Seq<int64_t, CAP> due;
    Text() { es.attach(0, &h); }
    void step() override {
        Ms now = HAL::millis().raw();
        if (mc::flip()) {
            mc::assume(due.size() < CAP);
            Ms d = mc::pick(std::vector<Ms>{1, 999, 1000, 61000, 3600000, 90000000});
            mc::label("schedule in %lld", (long long)d);
            es.schedule(0, k_time_ms(d));
            size_t at = 0;
            while (at < due.size() && due[at] <= now + d) at++;
            due.insert(at, now + d);
        } else {
            Ms d = mc::pick(std::vector<Ms>{0, 1, 1000, 3600000});
            mc::label("%lld ms pass, loop", (long long)d);
            HAL::delay_ms(k_time_ms(d));
            now += d;
            es.loop();
            while (!due.empty() && due[0] <= now) due.pop_front();
        }
        std::string text = "Pipeline: [";
        for (size_t i = 0; i < due.size(); i++) text += (i ? ", " : "") + std::string(spn::core::utils::repr(k_time_ms(due[i] - now)));
        mc::eq(es.pipeline_as_string(), text + "]", "text");
    }
};
} // namespace ppm
