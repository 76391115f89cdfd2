// Control of the simulated network and of nodes (implementation: scen/simzmq.cpp).
#pragma once
#include "sim.h"
namespace netsim {
struct Cfg {
    uint64_t lat_min = 20000, lat_max = 300000; // tcp latency, ns
    unsigned delay_ppm = 0;                     // a message is delayed by up to delay_max
    uint64_t delay_max = 50000000;
    unsigned drop_ppm = 0;                      // per message: the connection breaks
    unsigned refuse_ppm = 0;                    // per connection attempt
    unsigned again_ppm = 0;                     // queue reported full
    unsigned stall_ppm = 0;                     // a thread stalls when it returns from zmq_poll
    uint64_t stall_max = 8000000000ull;
};
extern Cfg cfg;
void node(int group);                           // the calling thread, its children and their contexts belong to this node
void crash(int group);                          // threads of the node never run again, its connections break
void partition(int a, int b, uint64_t ns);      // connections between the two nodes break and are refused for that long
void breakAll(int a, int b);                    // breaks current connections between two nodes (-1: any)
long openSockets();
extern bool (*fdReady)(int fd, short events);   // readiness of non-zmq descriptors
extern short (*fdEvents)(int fd);               // poll(2) events of simulated tcp sockets
extern uint64_t (*fdNext)();                    // next time at which these can change (0: none)
void wakeAll();
void waitWake(uint64_t deadline);                // until wakeAll or the deadline (0: none)
} // namespace netsim
