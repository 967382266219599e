#define VARIANT cpp17
#include "p10_body.hpp"
