#define VARIANT hundred_ns
#define CLOCK_REP std::int64_t
#define CLOCK_PERIOD Period
#define TestClock TestClockHundred
#include <ratio>
typedef std::ratio<1, 10000000> Period;
#include "p21_body.hpp"
