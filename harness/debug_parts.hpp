// Part of P37: drivers of other properties, explored once more in debug builds, one namespace each. Everything they
// include must have been included before, outside of the namespaces.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <ctime>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include "spine/core/debugging.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#define MC_PART
#undef MC_MAIN
#define MC_MAIN inline void configs()

namespace dbg {
extern int64_t raised;   // assertions reported in this step
extern int64_t others;   // other errors
extern char first[200];  // the first of them
void part(const char* property, void (*configs)());
// The driver's configurations, each of them one step shorter in the quick tier, under watch.
} // namespace dbg
