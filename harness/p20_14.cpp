#define VARIANT cxx14
#include "p20_body.hpp"
