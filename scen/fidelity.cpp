// Development only: upstream's own tests over the simulated ZeroMQ, as a check of the stand-in.
#include "../sim/simxx.hpp"
#include "net_stubs.hpp"
#include <array>
#include <print>
#include FIDELITY_TEST
#include <catch2/catch_session.hpp>
SIM_SCENARIO(fidelity) {
    sim_limits(3000000, 1000000);
    const char *argv[] = { "t", getenv("FID_ARGS") ? getenv("FID_ARGS") : "*", "-d", "yes" };
    int r = Catch::Session().run(4, argv);
    SIM_CHECK(r == 0, "fidelity", "upstream test failed (%d)", r);
}
