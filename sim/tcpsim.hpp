// Control of the simulated TCP (implementation: scen/simtcp.cpp).
#pragma once
#include "sim.h"
namespace tcpsim {
struct Cfg {
    uint64_t lat_min = 20000, lat_max = 300000; // ns
    size_t   buf = 65536;                       // bytes under way and unread per direction
    unsigned short_ppm = 0;                     // short reads and writes
    unsigned reset_ppm = 0;                     // per send: the connection is reset
    unsigned refuse_ppm = 0;                    // per connection attempt
    unsigned gateway_ppm = 0;                   // per get request: a gateway in front of the server answers 504
};
extern Cfg cfg;
bool faulted(int fd);     // was this connection reset by an injected fault?
void resetAll();          // resets every connection
void crash(int node);     // the sockets of the node vanish
long open();              // open sockets
} // namespace tcpsim
