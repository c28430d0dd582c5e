// P12: reference-counted handles in every container: alive exactly as long as held, one reference per occurrence.
// (The event queue's handles are covered by P02's driver, which checks the events alive and the memory released.)
#include "array_model.hpp"
#include "pool_model.hpp"
#include "stack_model.hpp"
MC_MAIN {
    using namespace vm;
    using P = std::shared_ptr<Token>;
    bool th = mc::thorough();
    Ops o;
    add<P, 1>("vector of handles", th ? 8 : 5, o);
    add<P, 2>("vector of handles", th ? 7 : 5, o);
    add<P, 3>("vector of handles", th ? 6 : 4, o);
    o.discard = true;
    add<P, 2>("vector of handles, values discarded", th ? 7 : 5, o);
    o.assign = o.alias = false;
    add<P, 3>("vector of handles, values discarded", th ? 30 : 9, o);
    add<P, 3, Lent>("vector of handles, lent storage", th ? 30 : 9, o);
    o.discard = false;
    add<P, 4>("vector of handles, plain operations", th ? 16 : 8, o);
    am::add<P>("two arrays of handles", th ? 4 : 3);
    sm::add<P, 3>("stack of handles", th ? 12 : 9);
    pm::add<2>(th ? 8 : 6);
    pm::add<3>(th ? 7 : 5);
}
