#define VARIANT cxx14
#include "p19_body.hpp"
