// C++ helpers for scenario files.
#pragma once
#include "sim.h"
#include <exception>
#include <string>
#include <thread>
#include <vector>
#include <typeinfo>

#define NOSIM __attribute__((no_sanitize("thread")))
// assertion of the oracle; the condition is evaluated without scheduling points when wrapped in SimGuard by the caller
#define SIM_CHECK(cond, sig, ...) do { if (!(cond)) sim_fail(sig, __VA_ARGS__); } while (0)

extern "C" __attribute__((weak)) const char *sim_current_exception(void);
#ifdef SIMXX_MAIN
extern "C" const char *sim_current_exception(void) {
    static char buf[256];
    auto        p = std::current_exception();
    if (!p) return "";
    try {
        std::rethrow_exception(p);
    } catch (const std::exception &e) {
        snprintf(buf, sizeof buf, "%s", e.what());
        return buf;
    } catch (...) {
        return "non-standard exception";
    }
}
#endif

// waits in simulated time until the predicate holds; the caller has normally called sim_calm() before
template<typename F>
inline void sim_until(F &&f, uint64_t step_ns = 20000) {
    while (true) {
        bool ok;
        {
            SimGuard g;
            ok = f();
        }
        if (ok) return;
        sim_sleep(step_ns);
    }
}
