#define SIMXX_MAIN
#include "../sim/simxx.hpp"
#define D(n) void dag_part##n(int), pool_part##n(int), dyn_part##n(int);
D(0) D(1) D(2) D(3) D(4) D(5)
typedef void (*F)(int);
static F dag[] = { dag_part0, dag_part1, dag_part2, dag_part3, dag_part4, dag_part5 };
static F pool[] = { pool_part0, pool_part1, pool_part2, pool_part3, pool_part4, pool_part5 };
static F dyn[] = { dyn_part0, dyn_part1, dyn_part2, dyn_part3, dyn_part4, dyn_part5 };
SIM_SCENARIO(dag) { dag[sim_cfg("ws", 0, 5)](0); }
SIM_SCENARIO(dag_throw) { dag[sim_cfg("ws", 0, 5)](1); }
SIM_SCENARIO(wpool) { pool[sim_cfg("ws", 0, 5)](0); }
SIM_SCENARIO(ring_dyn) { dyn[sim_cfg("ws", 0, 5)](0); }
