#include "debug_parts.hpp"
#include "ref.hpp"
#include "streams.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/linebuffer.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/static_string.hpp"
namespace p05 {
#include "P05.cpp"
}
namespace p06 {
#include "P06.cpp"
}
namespace p07 {
#include "P07.cpp"
}
namespace p08 {
#include "P08.cpp"
}
namespace p09 {
#include "P09.cpp"
}
namespace p10 {
#include "P10.cpp"
}
namespace p29 {
#include "P29.cpp"
}
void debug_buffers() {
    dbg::part("P05", p05::configs);
    dbg::part("P06", p06::configs);
    dbg::part("P07", p07::configs);
    dbg::part("P08", p08::configs);
    dbg::part("P09", p09::configs);
    dbg::part("P10", p10::configs);
    dbg::part("P29", p29::configs);
}
