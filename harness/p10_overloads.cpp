#define VARIANT overloads
#define OVERLOADS 1
#include "p10_body.hpp"
