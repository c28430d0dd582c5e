#include "debug_parts.hpp"
#include "array_model.hpp"
#include "pool_model.hpp"
#include "stack_model.hpp"
#include "vector_model.hpp"
namespace p11 {
#include "P11.cpp"
}
namespace p12 {
#include "P12.cpp"
}
namespace p13 {
#include "P13.cpp"
}
namespace p14 {
#include "P14.cpp"
}
namespace p15 {
#include "P15.cpp"
}
void debug_containers() {
    dbg::part("P11", p11::configs);
    dbg::part("P12", p12::configs);
    dbg::part("P13", p13::configs);
    dbg::part("P14", p14::configs);
    dbg::part("P15", p15::configs);
}
