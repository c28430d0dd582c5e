// P03: idle sleeping of the event loop.
#include "event_model.hpp"
static void add(const char* name, em::Spec s, int depth) {
    auto* p = new em::Spec(std::move(s));
    mc::config(name, [p] { return new em::Events(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    em::Spec s;
    s.cap = 3;
    s.attached = {{0}, {}};
    s.sleep = true;
    s.limits = {{100, 1000}, {1, 2}, {5, 5}, {10, 3}, {0, 50}, {1000, 100000}, {3600000, 86400000}};
    s.delays = {0, 1, 2, 3, 50, 100, 101, 999, 1000, 1001, 5000, 100001};
    s.advances = {1, 99};
    s.trigger = false;
    add("limits and due times", s, th ? 4 : 3);
    s.default_limits = true;
    s.limits = {{100, 1000}};
    add("default limits", s, th ? 5 : 4);
    s.sleep = false;
    add("no sleeping", s, th ? 5 : 4);
    s.sleep = true;
    s.default_limits = false;
    s.limits = {{10, 60}, {7, 2000}};
    s.delays = {0, 30, 60, 100};
    s.advances = {30, 45};
    s.reactions = 1;
    add("handlers that act", s, th ? 6 : 5);
    s.nested_loop = true;
    s.reactions = 2;
    s.cap = 2;
    add("handlers that act, loops within deliveries", s, th ? 5 : 4);
    s = em::Spec{};
    s.cap = 3;
    s.attached = {{0}};
    s.sleep = true;
    s.trigger = false;
    s.bases = {2147483647LL, 4294967294LL, 1LL << 40};
    s.limits = {{4294967296LL, 2147483649LL}, {4294968LL, 4294967296LL}, {1, 9000000000LL}};
    s.delays = {0, 1, 2147483647LL, 2147483648LL, 4294967LL, 4294968LL, 4294967296LL, 8589934593LL};
    s.advances = {1, 2147483648LL};
    add("far future", s, th ? 5 : 4);
}
