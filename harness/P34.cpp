// P34: digital and analogue outputs, fades, and inputs seen through their interface.
#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include "spine/core/debugging.hpp"
#include "spine/platform/hal.hpp"
namespace pf = spn::platform;
using pf::MockStateInstance;
using spn::core::LogicalState;

static int64_t now_us() { return (int64_t)k_time_us(MockStateInstance().millis).raw() + (int64_t)MockStateInstance().micros.raw(); }
static void reset_clock() {
    MockStateInstance().millis = k_time_ms(0);
    MockStateInstance().micros = k_time_us(0);
}
struct Set {
    double value;
    int64_t at;
};
static ref::Seq<Set, 4096>* g_sets; // what reached the pin, and when
struct Digital : pf::DigitalOutput<Digital> {
    int64_t initialised = 0, pin = 0, writes = 0;
    void initialize_impl() { initialised++; }
    void set_state_impl(LogicalState s) {
        pin = s;
        writes++;
    }
};
struct DigitalModel : mc::Model {
    Digital d;
    int64_t want = 0, started = 0;
    void step() override {
        int64_t writes = d.writes, inits = d.initialised;
        int op = mc::choose(7);
        int64_t more = 1, init = 0;
        switch (op) {
        case 0: mc::label("initialize()"); d.initialize(); want = 0; init = 1; break;
        case 1: mc::label("initialize(true)"); d.initialize(true); want = 1; init = 1; break;
        case 2: mc::label("flip()"); d.flip(); want = !want; mc::cover("flipped"); break;
        case 3: mc::label("set_state(true)"); d.set_state(true); want = 1; break;
        case 4: mc::label("set_state(false)"); d.set_state(false); want = 0; break;
        case 5: mc::label("set_state(ON)"); d.set_state(LogicalState::ON); want = 1; break;
        default: mc::label("set_state(OFF)"); d.set_state(LogicalState::OFF); want = 0; break;
        }
        started = 1;
        mc::eq((int64_t)d.state(), want, "state");
        mc::eq(d.pin, want, "state of the pin");
        mc::eq(d.writes - writes, more, "writes to the pin");
        mc::eq(d.initialised - inits, init, "initialisations of the pin");
        d.writes = d.initialised = 0;
    }
};
struct Analogue : pf::AnalogueOutput<Analogue> {
    int64_t initialised = 0;
    double pin = 0;
    void initialize() { initialised++; }
    void set_value(float v) {
        pin = v;
        g_sets->push_back({v, now_us()});
    }
};
struct AnalogueModel : mc::Model {
    std::vector<float> values, increments;
    std::vector<int> intervals;
    ref::Seq<Set, 4096> sets;
    Analogue a;
    float want = 0;
    void step() override {
        g_sets = &sets;
        sets.clear();
        reset_clock();
        pf::AnalogueOutput<Analogue>& out = a;
        const pf::AnalogueOutput<Analogue>& c = a;
        if (mc::choose(4) == 0) {
            want = mc::pick(values);
            mc::label("set_value(%g)", want);
            out.set_value(want);
            mc::eq(sets.size(), (size_t)1, "values set");
            mc::eq(sets[0].value, (double)want, "value set");
        } else {
            float start = want, target = mc::pick(values), inc = mc::pick(increments);
            int interval = mc::pick(intervals);
            bool standard = inc == 0.1f && interval == 250;
            mc::label("fade from %g to %g by %g every %d ms", start, target, inc, interval);
            if (standard) out.fade_to(target);
            else out.fade_to(target, inc, k_time_ms(interval));
            double last = start, lo = std::min(start, target), hi = std::max(start, target);
            for (size_t i = 0; i < sets.size(); i++) {
                double v = sets[i].value;
                if (v < lo || v > hi) mc::fail("set to %.9g, outside of %g .. %g", v, lo, hi);
                if (target >= start ? v < last : v > last) mc::fail("went back from %.9g to %.9g", last, v);
                if (std::fabs(v - last) > inc * (1 + 1e-5) + 1e-6) mc::fail("step from %.9g to %.9g", last, v);
                if (i) mc::eq(sets[i].at - sets[i - 1].at, (int64_t)interval * 1000, "time between steps (us)");
                last = v;
            }
            if (start != target) {
                mc::check(!sets.empty(), "nothing was set");
                // no more steps than needed, but for rounding
                if ((double)sets.size() > std::ceil((hi - lo) / inc) + 1) mc::fail("%zu steps", sets.size());
                mc::cover(sets.size() > 1 ? "steps" : "at once");
            }
            if (last != (double)target) mc::fail("ended at %.9g instead of %.9g", last, target);
            want = target;
        }
        mc::eq(c.value(), want, "value()");
        mc::eq(a.pin, (double)want, "value at the pin");
        sets.clear();
        reset_clock();
    }
    ~AnalogueModel() override { reset_clock(); }
};
// inputs and interrupts through their interface
struct DIn : pf::DigitalInput<DIn> {
    int64_t inits = 0, pin = 0;
    void initialize() { inits++; }
    bool state() const { return pin; }
};
struct AIn : pf::AnalogueInput<AIn> {
    int64_t inits = 0;
    float pin = 0;
    void initialize() { inits++; }
    float read() const { return pin; }
};
static void isr() {}
struct Irq : pf::Interrupt<Irq> {
    int64_t inits = 0, on = 0;
    spn::core::TriggerType trigger{};
    void initialize() { inits++; }
    void attach_interrupt(void (*cb)() = nullptr, spn::core::TriggerType t = spn::core::TriggerType::UNDEFINED) {
        on = cb ? 2 : 1;
        trigger = t;
    }
    void detach_interrupt() { on = 0; }
};
struct Inputs : mc::Model {
    DIn d;
    AIn a;
    Irq q;
    Analogue o;
    void step() override {
        pf::DigitalInput<DIn>& di = d;
        pf::AnalogueInput<AIn>& ai = a;
        pf::Interrupt<Irq>& qi = q;
        switch (mc::choose(5)) {
        case 0: mc::label("initialize"); di.initialize(); ai.initialize(); qi.initialize();
            static_cast<pf::AnalogueOutput<Analogue>&>(o).initialize();
            mc::eq(d.inits, (int64_t)1, "initialisations of the digital input");
            mc::eq(a.inits, (int64_t)1, "initialisations of the analogue input");
            mc::eq(q.inits, (int64_t)1, "initialisations of the interrupt");
            mc::eq(o.initialised, (int64_t)1, "initialisations of the analogue output");
            d.inits = a.inits = q.inits = o.initialised = 0;
            break;
        case 1: d.pin = mc::choose(2); mc::label("digital pin %d", (int)d.pin); break;
        case 2: a.pin = 0.25f * (float)mc::choose(5); mc::label("analogue pin %g", a.pin); break;
        case 3: {
            bool cb = mc::flip();
            auto t = (spn::core::TriggerType)mc::choose(4);
            mc::label("attach");
            qi.attach_interrupt(cb ? isr : nullptr, t);
            mc::eq(q.on, (int64_t)(cb ? 2 : 1), "callback attached");
            mc::check(q.trigger == t, "trigger");
            break;
        }
        default: mc::label("detach"); qi.detach_interrupt(); mc::eq(q.on, (int64_t)0, "attached");
        }
        const pf::DigitalInput<DIn>& dc = d;
        mc::eq((int64_t)dc.state(), d.pin, "digital input");
        mc::eq(ai.read(), a.pin, "analogue input");
    }
};
MC_MAIN {
    bool th = mc::thorough();
    mc::config("digital", [] { return new DigitalModel; }, 6);
    mc::config("analogue", [th] {
        auto* m = new AnalogueModel;
        m->values = {0, 1, 0.5f, 0.24f, 0.25f, 0.26f, 0.99f, 0.05f};
        m->increments = {0.1f, 0.3f, 0.25f, 1, 0.01f};
        m->intervals = {250, 1};
        if (th) for (int i = 0; i < 64; i++) m->values.push_back((float)i / 63), m->increments.push_back((float)(i + 1) / 40);
        return m;
    }, th ? 3 : 4);
    mc::config("every thousandth", [] {
        auto* m = new AnalogueModel;
        for (int i = 0; i <= 100; i++) m->values.push_back((float)i / 100);
        m->increments = {0.1f, 0.07f, 0.013f, 0.5f};
        m->intervals = {250};
        return m;
    }, 2);
    mc::config("inputs", [] { return new Inputs; }, 5);
}
