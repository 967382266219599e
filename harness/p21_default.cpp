// the default clock is the steady one
#include <pluto/stopwatch.hpp>
#include <type_traits>
static_assert(std::is_same<pluto::stopwatch::clock_type, std::chrono::steady_clock>::value, "");
