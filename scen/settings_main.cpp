#define SIMXX_MAIN
#include "../sim/simxx.hpp"
