#define VARIANT micro
#define CLOCK_REP std::int64_t
#define CLOCK_PERIOD std::micro
#define TestClock TestClockMicro

#include "p21_body.hpp"
