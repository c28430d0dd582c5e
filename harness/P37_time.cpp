#include "debug_parts.hpp"
#include "ref.hpp"
#include "spine/core/utils/time_repr.hpp"
#include "spine/structure/time/datetime.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
namespace p19 {
#include "P19.cpp"
}
namespace p20 {
#include "P20.cpp"
}
namespace p21 {
#include "P21.cpp"
}
namespace p30 {
#include "P30.cpp"
}
void debug_time() {
    dbg::part("P19", p19::configs);
    dbg::part("P20", p20::configs);
    dbg::part("P21", p21::configs);
    dbg::part("P30", p30::configs);
}
