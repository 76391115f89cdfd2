#define SIMXX_MAIN
#include "../sim/simxx.hpp"
void ring_part0(int), ring_part1(int), ring_part2(int), ring_part3(int), ring_part4(int), ring_part5(int);
static void go(int mode) {
    switch (sim_cfg("ws", 0, 5)) {
    case 0: return ring_part0(mode);
    case 1: return ring_part1(mode);
    case 2: return ring_part2(mode);
    case 3: return ring_part3(mode);
    case 4: return ring_part4(mode);
    default: return ring_part5(mode);
    }
}
SIM_SCENARIO(ring_once) { go(0); }
SIM_SCENARIO(ring_halt) { go(1); }
SIM_SCENARIO(ring_throw) { go(2); }
