// P01: delivery of events.
#include "event_model.hpp"
static void add(const char* name, em::Spec s, int depth) {
    auto* p = new em::Spec(std::move(s));
    mc::config(name, [p] { return new em::Events(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    {
        em::Spec s;
        s.cap = 4;
        s.delays = {0, 1, 2, 3, 1000};
        s.advances = {1, 2, 2000};
        s.payloads = {1};
        s.bases = {0, 4294967295LL};
        s.attached = {{0, 1}, {2}};
        s.trigger = false;
        s.delays = {0, 1, 2, 1000};
        s.advances = {1, 2000};
        add("order of deliveries", s, th ? 6 : 5);
    }
    {
        em::Spec s;
        s.cap = 2;
        s.payloads = {0, 1, 2, 3, 4};
        s.delays = {0, 7};
        s.advances = {7};
        s.attached = {{0, 1, 1}, {1, 0, 1}, {}};
        add("payloads, events without handlers", s, th ? 5 : 4);
    }
    {
        em::Spec s;
        s.cap = 3;
        s.payloads = {2};
        s.delays = {0, 1, 3};
        s.advances = {1, 2};
        s.attached = {{0, 1}, {1}};
        s.reactions = 1;
        add("handlers that act", s, th ? 6 : 5);
        s.reactions = 2;
        s.nested_loop = true;
        s.delays = {0, 2};
        s.advances = {2};
        s.attached = {{0, 1}, {}};
        add("handlers that act, loops within deliveries", s, th ? 4 : 3);
    }
    {
        em::Spec s;
        s.cap = 3;
        s.hold = true;
        s.payloads = {2};
        s.delays = {0, 2};
        s.advances = {1};
        s.attached = {{0, 1}, {1}};
        s.reactions = 1;
        add("held events", s, th ? 5 : 4);
    }
    {
        em::Spec s;
        s.cap = 3;
        s.delays = {0, 999, 1000, 16777217, 2147483647LL, 2147483648LL, 4294967295LL, 4294967297LL};
        s.advances = {1, 2147483648LL, 4294967295LL};
        s.bases = {0, 16777215, 2147483647LL, 4294967295LL, (1LL << 40)};
        s.attached = {{0}};
        s.payloads = {2};
        s.trigger = false;
        add("far future", s, th ? 5 : 4);
    }
    {
        em::Spec s;
        s.cap = 300;
        s.prefill = 299;
        s.payloads = {2};
        s.delays = {0, 1000, 1003, 1005, 1007};
        s.advances = {1000, 1003};
        s.attached = {{0}, {1, 0}};
        s.trigger = false;
        add("many pending events", s, th ? 4 : 3);
    }
    {
        em::Spec s;
        s.cap = 3;
        s.payloads = {0};
        s.delays = {0, 1};
        s.advances = {1};
        s.attached = std::vector<std::vector<int>>(300);
        s.ids = {0, 43, 44, 127, 128, 255, 256, 299};
        s.attached[0] = {0};
        s.attached[43] = {1};
        s.attached[44] = {2, 3};
        s.attached[128] = {1, 0};
        s.attached[255] = {2};
        s.attached[256] = {3, 1, 2};
        s.attached[299] = {1, 2};
        add("many kinds of events", s, th ? 4 : 3);
        s.ids = {};
        s.attached = {{}};
        for (int i = 0; i < 300; i++) s.attached[0].push_back(i * 7 % 5 % 3);
        add("many handlers of an event", s, th ? 4 : 3);
    }
}
