#define VARIANT coarse
#define COARSE_CLOCK
#include "p26_body.hpp"
