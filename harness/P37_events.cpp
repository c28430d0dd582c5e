#include "debug_parts.hpp"
#include "event_model.hpp"
#include "pipeline_model.hpp"
#include "pool_model.hpp"
namespace p01 {
#include "P01.cpp"
}
namespace p02 {
#include "P02.cpp"
}
namespace p03 {
#include "P03.cpp"
}
namespace p04 {
#include "P04.cpp"
}
namespace p38 {
#include "P38.cpp"
}
void debug_events() {
    dbg::part("P01", p01::configs);
    dbg::part("P02", p02::configs);
    dbg::part("P03", p03::configs);
    dbg::part("P04", p04::configs);
    dbg::part("P38", p38::configs);
}
