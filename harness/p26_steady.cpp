#define VARIANT steady
#define PLUTO_THREAD_POOL_CLOCK_TYPE std::chrono::steady_clock
#include <chrono>
#include "p26_body.hpp"
