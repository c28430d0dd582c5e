// P38: the pipeline of futures, used directly.
#include "pipeline_model.hpp"
static void add(const char* name, ppm::Spec s, int depth) {
    auto* p = new ppm::Spec(std::move(s));
    mc::config(name, [p] { return new ppm::Model(p); }, depth, {3000000});
}
MC_MAIN {
    bool th = mc::thorough();
    ppm::Spec s;
    add("three places, four futures", s, th ? 8 : 7);
    s.cap = 1;
    s.futures = 2;
    add("one place", s, th ? 12 : 10);
    s.cap = 4;
    s.futures = 5;
    s.delays = {1, 3};
    s.advances = {2};
    add("four places, five futures", s, th ? 9 : 8);
    s.cap = 3;
    s.futures = 3;
    s.bases = {0, 2147483647LL, 4294967295LL, (1LL << 40)};
    s.delays = {1, 2147483648LL, 4294967295LL, 4294967296LL};
    s.advances = {1, 2147483648LL};
    add("far future", s, th ? 7 : 6);
    mc::config("many futures", [] { return new ppm::Many; }, 1);
    mc::config("text of an event system", [] { return new ppm::Text; }, th ? 6 : 5);
}
