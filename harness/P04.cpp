// P04: Pool against the set of objects it was populated with and the references that users hold.
#include "pool_model.hpp"
MC_MAIN {
    bool th = mc::thorough();
    pm::add<1>(th ? 10 : 7);
    pm::add<2>(th ? 9 : 7);
    pm::add<3>(th ? 8 : 6);
    pm::add<4>(th ? 6 : 5);
    mc::config("pools moved", [] { return new pm::MovedPools(); }, th ? 6 : 5);
    pm::add_big<257>(th ? 7 : 6);
    pm::add_big<65540>(th ? 4 : 3);
}
