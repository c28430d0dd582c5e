#include "debug_parts.hpp"
#include "units_model.hpp"
#include "spine/controller/pid.hpp"
#include "spine/controller/sr_latch.hpp"
#include "spine/core/utils/concatenate.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
namespace p22 {
#include "P22.cpp"
}
namespace p23 {
#include "P23.cpp"
}
namespace p24 {
#include "P24.cpp"
}
namespace p25 {
#include "P25.cpp"
}
namespace p28 {
#include "P28.cpp"
}
namespace p34 {
#include "P34.cpp"
}
void debug_control() {
    dbg::part("P22", p22::configs);
    dbg::part("P23", p23::configs);
    dbg::part("P24", p24::configs);
    dbg::part("P25", p25::configs);
    dbg::part("P28", p28::configs);
    dbg::part("P34", p34::configs);
}
