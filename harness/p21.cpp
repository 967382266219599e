#define VARIANT nanoseconds
#define CLOCK_REP std::int64_t
#define CLOCK_PERIOD std::nano
#define TestClock TestClockNano
#include "p21_body.hpp"
#include <type_traits>
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P21", "cases: histories of start, stop, restart, reset, reading, copying and passing time on up to four stopwatches whose clock (of nanosecond, microsecond or 100 ns resolution) the test controls; all readings are compared with exact arithmetic after every step; non-trivial: started at least twice and time measured");
}
