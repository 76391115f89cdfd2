// Deterministic simulator: C API for scenarios.  See ../DESIGN.md.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// ---- configuration and workload (pure functions of the run seed, never of the schedule) ----
int64_t  sim_cfg(const char *name, int64_t lo, int64_t hi); // uniform in [lo,hi]; recorded, overridable on replay
int      sim_cfg_pct(const char *name, int percent);        // 1 with the given probability
uint64_t sim_wl(unsigned stream, uint64_t n);               // workload stream PRNG, in [0,n)
// ---- decisions of the simulator (recorded in the trace) ----
int      sim_fault(const char *kind, unsigned per_million); // does fault `kind` fire here?  (never after sim_calm)
uint64_t sim_choice(const char *site, uint64_t n);          // simulator choice in [0,n); default on replay is 0
// ---- verdicts, observations ----
void sim_fail(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_probe(const char *name);                           // reached-state counter (once per call)
void sim_event(uint64_t v);                                 // mixed into the event-log hash
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_class(uint64_t v);                                 // mixed into the behaviour-class hash (distinct count)
// ---- time and scheduling ----
uint64_t sim_now(void);                                     // simulated ns since the start of the run
void     sim_point(void);                                   // explicit scheduling point
void     sim_yield(void);
void     sim_sleep(uint64_t ns);
void     sim_enter(void);                                   // no scheduling points until sim_leave (per thread, nests)
void     sim_leave(void);
void     sim_calm(void);                                    // faults stop, scheduling becomes fair; liveness budget starts
int      sim_is_calm(void);
void     sim_limits(uint64_t chaos_points, uint64_t fair_points);
void     sim_time_limits(uint64_t chaos_ns, uint64_t fair_ns); // simulated-time equivalents (0: unlimited)
int      sim_tid(void);
int      sim_active(void);
void     sim_sysclock_jump(int64_t ns);
// block the calling thread until sim_wake(addr) or deadline (absolute sim ns, 0: none); returns 1 when woken, 0 on timeout
int      sim_block(const void *addr, uint64_t deadline);
void     sim_wake(const void *addr, int n);
void     sim_set_group(int g);                              // node of the calling thread, inherited by its children
int      sim_get_group(void);
int      sim_kill_group(int g);
void     sim_slow_wait(unsigned per_million, uint64_t max_ns); // a thread may be delayed before it waits on a condition variable
void     sim_allocfail(unsigned per_million);               // failing allocations for the calling thread (0: off)
void     sim_expect_deadlock_ok(int on);                    // all threads blocked ends the run quietly
size_t   sim_live_bytes(void);
int      sim_verbose(void);
const char *sim_current_exception(void); // provided by simxx.hpp (weak)
typedef void (*sim_fn)(void);
void sim_register(const char *name, sim_fn fn);
#ifdef __cplusplus
}
struct SimReg { SimReg(const char *n, sim_fn f) { sim_register(n, f); } };
#define SIM_SCENARIO(nm) static void scen_##nm(void); static SimReg reg_##nm(#nm, scen_##nm); static void scen_##nm(void)
struct SimGuard { SimGuard() { sim_enter(); } ~SimGuard() { sim_leave(); } };
#endif
