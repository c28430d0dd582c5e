// P02: capacity of the event system, recycling and release of events.
#include "event_model.hpp"
static void add(const char* name, em::Spec s, int depth) {
    auto* p = new em::Spec(std::move(s));
    mc::config(name, [p] { return new em::Events(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    em::Spec s;
    s.payloads = {2};
    s.delays = {0, 1};
    s.advances = {1};
    s.attached = {{0, 1}};
    s.hold = true;
    for (size_t cap : {1, 2, 3}) {
        s.cap = cap;
        s.reactions = 1;
        add(cap == 1 ? "one slot" : cap == 2 ? "two slots" : "three slots", s, (th ? 10 : 8) - (int)cap);
    }
    s.cap = 2;
    s.reactions = 2;
    s.nested_loop = true;
    s.attached = {{0}, {}};
    s.hold = false;
    add("two slots, handlers that act", s, th ? 6 : 5);
    s = em::Spec{};
    s.payloads = {0};
    s.cap = 5;
    s.delays = {0, 3, 1};
    s.advances = {1, 3};
    s.attached = {{0}};
    add("five slots, long histories", s, th ? 9 : 7);
    s.trigger = false;
    for (int cap : {255, 256, 257}) {
        s.cap = (size_t)cap;
        s.prefill = cap - 1;
        s.payloads = {2};
        s.delays = {0, 1003};
        s.advances = {1003};
        add(cap == 255 ? "255 slots" : cap == 256 ? "256 slots" : "257 slots", s, th ? 6 : 4);
    }
}
