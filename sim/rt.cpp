// Deterministic simulation runtime.  No STL here: this file is compiled without instrumentation and must not
// instantiate templates that the instrumented code also instantiates.
//
//  * every simulated thread is a real pthread, but only the holder of the baton runs;
//  * scheduling points: every atomic operation (through the -fsanitize=thread compile-time instrumentation, whose
//    runtime library is this file), every pthread/futex/sleep/yield call (interposed symbols), and -- in a share of
//    the runs -- every plain access to memory that is not the thread's own stack;
//  * one seeded PRNG decides every switch, delay, timer lateness and fault; decisions that differ from the default
//    rule are recorded and can be replayed/minimised;
//  * simulated clocks, deterministic malloc with redzones/quarantine (use-after-free and overflow detection).
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <cxxabi.h>
#include <exception>
#include <initializer_list>
#include <execinfo.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

// ------------------------------------------------------------------------------------------------ raw syscalls
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long          ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static uint64_t real_ns() {
    struct timespec ts;
    rsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &ts);
    return (uint64_t) ts.tv_sec * 1000000000ull + (uint64_t) ts.tv_nsec;
}

// ------------------------------------------------------------------------------------------------ PRNG
static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
};
static uint64_t hstr(const char *s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h;
}

// ------------------------------------------------------------------------------------------------ shared result
enum { D_SCHED = 1, D_FAULT = 2, D_CHOICE = 3 };
struct Dec {
    uint8_t  kind, who, stay, pad; // who: tid (D_SCHED) or name index (D_FAULT/D_CHOICE)
    uint32_t idx;
    uint64_t val;
};
struct CfgV {
    char    name[40];
    int64_t v, lo, hi;
};
struct Cnt {
    char     name[48];
    uint64_t offered, fired;
};
enum { MAXDEC = 1 << 17, MAXCFG = 96, MAXCNT = 96, MAXTH = 96 };
enum { OUT_NONE = 0, OUT_OK = 1, OUT_FAIL = 2, OUT_SKIP = 3 };
struct Shared {
    int      outcome;
    char     sig[200];
    char     msg[4096];
    uint64_t hash, shash, chash, points, switches, simns, preempts;
    uint32_t ndec, ncfg, nfault, nprobe;
    int      overflow, calm_reached;
    CfgV     cfg[MAXCFG];
    Cnt      fault[MAXCNT]; // faults and choices
    Cnt      probe[MAXCNT];
    Dec      dec[MAXDEC];
};
static Shared *S;

// run inputs
static int      g_replay; // 0 explore, 1 explicit decisions
static uint64_t g_seed;
static int      g_verbose;
static CfgV     g_ovr[MAXCFG];
static int      g_novr;
// replay decision table
static Dec     *g_rdec;
static uint32_t g_nrdec;
enum { RH = 1 << 19 };
static uint32_t *g_rhash; // index+1

static uint32_t rh_slot(int kind, int who, uint32_t idx) { return (uint32_t) (mix64(((uint64_t) kind << 56) ^ ((uint64_t) who << 40) ^ idx) & (RH - 1)); }
static Dec     *r_find(int kind, int who, uint32_t idx) {
    if (!g_rhash) return nullptr;
    for (uint32_t s = rh_slot(kind, who, idx);; s = (s + 1) & (RH - 1)) {
        if (!g_rhash[s]) return nullptr;
        Dec *d = &g_rdec[g_rhash[s] - 1];
        if (d->kind == kind && d->who == who && d->idx == idx) return d;
    }
}

// ------------------------------------------------------------------------------------------------ threads
enum { TS_RUN, TS_BLOCK, TS_DONE };
struct Th {
    int       id, state, word;
    uint32_t  idx;
    int       nopre;
    const void *waddr;
    const char *wkind;
    uint64_t  deadline;
    int       woken;
    uint64_t  wseq;
    uint64_t  stall_until;
    int64_t   prio;
    uint64_t  runlen;
    uint64_t  plain;
    pthread_t pt;
    int       started;
    void *(*fn)(void *);
    void     *arg, *ret;
    int       detached, joined;
    char      name[32];
    char     *stk_lo, *stk_hi;
    unsigned  allocfail;
    int       grp; // node the thread belongs to
};
static Th           g_th[MAXTH];
static int          g_nth;
static __thread Th *self;
static int          g_active;
static Th          *g_cur;
static uint64_t     g_now, g_mindl = ~0ull;
static int64_t      g_sysoff;
static uint64_t     g_points, g_switches, g_hash, g_shash, g_chash, g_wseq;
static Rng          R_s, R_f;
// strategy
static int      st_kind, st_plain, st_focus_mask, st_focus_val, st_stall;
static uint64_t st_p, st_cnt, st_maxrun, st_tick, st_ytick, st_plainp;
static uint64_t pct_pts[16];
static int      pct_n;
static int64_t  pct_low;
static int      g_calm, g_faultfree;
static uint64_t g_calm_at, lim_chaos = 80000, lim_fair = 600000, limt_chaos, limt_fair, calm_t;
static int      g_dl_ok;
static uint64_t g_wlc[64];

static void finish(int outcome) __attribute__((noreturn));
static void finish(int outcome) {
    S->hash     = g_hash;
    S->shash    = g_shash;
    S->chash    = g_chash;
    S->points   = g_points;
    S->switches = g_switches;
    S->simns    = g_now;
    S->calm_reached = g_calm;
    __atomic_store_n(&S->outcome, outcome, __ATOMIC_SEQ_CST);
    rsys(SYS_exit_group, 0);
    for (;;) {}
}

static inline void h_add(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }

static char vbuf[8192];
static void vout(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(vbuf, sizeof vbuf, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof vbuf) n = sizeof vbuf;
    rsys(SYS_write, 2, (long) vbuf, n);
}
static const char *symname(void *pc) {
    static char buf[8][256];
    static int  k;
    char       *b = buf[k++ & 7];
    Dl_info     di;
    if (dladdr(pc, &di) && di.dli_sname) snprintf(b, 256, "%s", di.dli_sname);
    else snprintf(b, 256, "%p", pc);
    return b;
}
static int g_failing;
static void print_bt() {
    void *bt[48];
    if (self) self->nopre++;
    int n = backtrace(bt, 48);
    for (int i = 1; i < n; i++) vout("    #%d %s\n", i, symname(bt[i]));
}
extern "C" void sim_fail(const char *sig, const char *fmt, ...) {
    if (!g_active) { fprintf(stderr, "sim_fail outside run: %s\n", sig); _exit(3); }
    if (g_failing++) rsys(SYS_exit_group, 0);
    snprintf(S->sig, sizeof S->sig, "%s", sig);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    if (g_verbose) {
        vout("[%10lu ns] T%d FAIL %s: %s\n", g_now, self ? self->id : -1, S->sig, S->msg);
        print_bt();
    }
    h_add(hstr(sig));
    finish(OUT_FAIL);
}
extern "C" void sim_log(const char *fmt, ...) {
    if (!g_verbose) return;
    char    b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    vout("[%10lu ns] T%d %s\n", g_now, self ? self->id : -1, b);
}
extern "C" int sim_verbose(void) { return g_verbose; }
extern "C" void sim_event(uint64_t v) { h_add(v); }
extern "C" void sim_class(uint64_t v) { g_chash = mix64(g_chash ^ v); }
extern "C" uint64_t sim_now(void) { return g_now; }
extern "C" int sim_tid(void) { return self ? self->id : -1; }
extern "C" int sim_active(void) { return g_active; }
extern "C" int sim_is_calm(void) { return g_calm; }
extern "C" void sim_limits(uint64_t c, uint64_t f) { lim_chaos = c; lim_fair = f; }
extern "C" void sim_time_limits(uint64_t c, uint64_t f) { limt_chaos = c; limt_fair = f; }
extern "C" void sim_expect_deadlock_ok(int on) { g_dl_ok = on; }
extern "C" void sim_allocfail(unsigned ppm) { if (self) self->allocfail = ppm; }

static Cnt *cnt_get(Cnt *tab, uint32_t *n, const char *name, int *id) {
    for (uint32_t i = 0; i < *n; i++) if (!strcmp(tab[i].name, name)) { if (id) *id = (int) i; return &tab[i]; }
    if (*n >= MAXCNT) { if (id) *id = MAXCNT - 1; return &tab[MAXCNT - 1]; }
    Cnt *c = &tab[*n];
    snprintf(c->name, sizeof c->name, "%s", name);
    c->offered = c->fired = 0;
    if (id) *id = (int) *n;
    ++*n;
    return c;
}
extern "C" void sim_probe(const char *name) { if (g_active) cnt_get(S->probe, &S->nprobe, name, nullptr)->fired++; }

extern "C" int64_t sim_cfg(const char *name, int64_t lo, int64_t hi) {
    for (uint32_t i = 0; i < S->ncfg; i++) if (!strcmp(S->cfg[i].name, name)) return S->cfg[i].v;
    int64_t v = lo + (int64_t) (mix64(mix64(g_seed ^ 0x1234567) ^ hstr(name)) % (uint64_t) (hi - lo + 1));
    for (int i = 0; i < g_novr; i++) if (!strcmp(g_ovr[i].name, name)) v = g_ovr[i].v;
    if (S->ncfg < MAXCFG) {
        CfgV *c = &S->cfg[S->ncfg++];
        snprintf(c->name, sizeof c->name, "%s", name);
        c->v = v; c->lo = lo; c->hi = hi;
    }
    return v;
}
extern "C" int sim_cfg_pct(const char *name, int percent) { return sim_cfg(name, 0, 99) >= 100 - percent; }
extern "C" uint64_t sim_wl(unsigned stream, uint64_t n) {
    uint64_t k = g_wlc[stream & 63]++;
    uint64_t r = mix64(mix64(g_seed + 77) ^ mix64(((uint64_t) (stream & 63) << 40) + k));
    return n <= 1 ? 0 : r % n;
}

static void rec(int kind, int who, uint32_t idx, uint64_t val, int stay = 0) {
    if (S->ndec >= MAXDEC) { S->overflow = 1; return; }
    Dec *d  = &S->dec[S->ndec++];
    d->kind = (uint8_t) kind; d->who = (uint8_t) who; d->idx = idx; d->val = val; d->stay = (uint8_t) stay; d->pad = 0;
}

extern "C" int sim_fault(const char *kind, unsigned ppm) {
    if (!g_active || g_calm || !ppm) return 0;
    int  id;
    Cnt *c = cnt_get(S->fault, &S->nfault, kind, &id);
    uint32_t occ = (uint32_t) c->offered++;
    int fire = 0;
    if (g_replay) {
        fire = r_find(D_FAULT, id, occ) != nullptr;
    } else if (!g_faultfree) {
        char nm[64];
        snprintf(nm, sizeof nm, "f.%s", kind);
        int lvl = (int) sim_cfg(nm, 0, 3); // swarm: 0 off, 1 rare, 2 normal, 3 frequent
        if (lvl) {
            uint64_t p = ppm;
            if (lvl == 1) p = p / 8 + 1;
            if (lvl == 3) p = p * 4;
            fire = R_f.below(1000000) < p;
        }
        if (fire) rec(D_FAULT, id, occ, 1);
    }
    if (fire) {
        c->fired++;
        h_add(0xFA000000u + (unsigned) id);
        if (g_verbose) vout("[%10lu ns] T%d FAULT %s (#%u)\n", g_now, self ? self->id : -1, kind, occ);
    }
    return fire;
}
extern "C" uint64_t sim_choice(const char *site, uint64_t n) {
    if (!g_active || n <= 1) return 0;
    int  id;
    Cnt *c = cnt_get(S->fault, &S->nfault, site, &id);
    uint32_t occ = (uint32_t) c->offered++;
    uint64_t v = 0;
    if (g_replay) {
        Dec *d = r_find(D_CHOICE, id, occ);
        if (d) v = d->val % n;
    } else if (!g_calm) {
        v = R_f.below(n);
        if (v) rec(D_CHOICE, id, occ, v);
    }
    if (v) c->fired++;
    h_add(v + 3);
    return v;
}

// ------------------------------------------------------------------------------------------------ scheduler core
static void bwait(Th *t) {
    while (!__atomic_load_n(&t->word, __ATOMIC_ACQUIRE)) rsys(SYS_futex, (long) &t->word, FUTEX_WAIT_PRIVATE, 0, 0);
    t->word = 0;
}
static void bpost(Th *t) {
    __atomic_store_n(&t->word, 1, __ATOMIC_RELEASE);
    rsys(SYS_futex, (long) &t->word, FUTEX_WAKE_PRIVATE, 1);
}
static inline bool can_run(Th *t) { return t->state == TS_RUN; }
static void recalc_mindl() {
    g_mindl = ~0ull;
    for (int i = 0; i < g_nth; i++) if (g_th[i].state == TS_BLOCK && g_th[i].deadline && g_th[i].deadline < g_mindl) g_mindl = g_th[i].deadline;
}
static void expire() {
    for (int i = 0; i < g_nth; i++) {
        Th *t = &g_th[i];
        if (t->state == TS_BLOCK && t->deadline && t->deadline <= g_now) { t->state = TS_RUN; t->woken = 0; t->waddr = nullptr; t->runlen = 0; }
    }
    recalc_mindl();
}
static int runnable(Th **out, Th *except) { // stalled threads only when there is nobody else
    int n = 0;
    for (int pass = 0; pass < 2 && !n; pass++)
        for (int i = 0; i < g_nth; i++) {
            Th *t = &g_th[i];
            if (t == except || !can_run(t)) continue;
            if (pass == 0 && !g_calm && t->stall_until > g_points) continue;
            out[n++] = t;
        }
    return n;
}
static Th *rr_next(Th *from) {
    for (int pass = 0; pass < 2; pass++)
        for (int k = 1; k <= g_nth; k++) {
            Th *t = &g_th[(from->id + k) % g_nth];
            if (t == from || !can_run(t)) continue;
            if (pass == 0 && !g_calm && t->stall_until > g_points) continue;
            return t;
        }
    return nullptr;
}
static void do_switch(Th *from, Th *to, const char *why) {
    if (from == to) return;
    g_switches++;
    h_add(((uint64_t) from->id << 48) ^ ((uint64_t) to->id << 40) ^ from->idx);
    g_shash = mix64(g_shash ^ (((uint64_t) from->id << 48) ^ ((uint64_t) to->id << 40) ^ from->idx));
    if (g_verbose > 1) vout("[%10lu ns] T%d@%u -> T%d (%s)\n", g_now, from->id, from->idx, to->id, why);
    to->runlen  = 0;
    to->plain   = 0;
    g_cur       = to;
    bpost(to);
    if (from->state == TS_DONE) { int w = 0; for (;;) rsys(SYS_futex, (long) &w, FUTEX_WAIT_PRIVATE, 0, 0); }
    bwait(from);
}
static void describe_threads(char *b, size_t n) {
    size_t k = 0;
    for (int i = 0; i < g_nth && k + 100 < n; i++) {
        Th *t = &g_th[i];
        if (t->state == TS_DONE) continue;
        k += (size_t) snprintf(b + k, n - k, " T%d%s%s%s:%s", t->id, t->name[0] ? "(" : "", t->name, t->name[0] ? ")" : "", t->state == TS_RUN ? "runnable" : t->wkind ? t->wkind : "?");
    }
}
extern "C" void sim_calm(void) {
    if (g_calm) return;
    g_calm = 1;
    g_calm_at = g_points;
    calm_t = g_now;
    for (int i = 0; i < g_nth; i++) g_th[i].stall_until = 0;
    if (g_verbose) vout("[%10lu ns] T%d CALM (faults stop, fair scheduling)\n", g_now, self->id);
}
static void check_limits() {
    if (!g_calm) {
        if (g_points > lim_chaos || (limt_chaos && g_now > limt_chaos)) { sim_probe("budget:auto-calm"); sim_calm(); }
    } else if (g_points - g_calm_at > lim_fair || (limt_fair && g_now - calm_t > limt_fair)) {
        char b[1500] = "";
        describe_threads(b, sizeof b);
        sim_fail("stuck", "no completion within %lu fair, fault-free steps (%lu ns):%s", g_points - g_calm_at, g_now - calm_t, b);
    }
}
static void draw_cnt() {
    st_cnt = 1 + (st_p <= 1 ? 0 : R_s.below(2 * st_p - 1));
}
static uint64_t stall_len() {
    static const uint64_t L[] = { 30, 200, 1000, 5000, 20000 };
    return L[R_s.below(5)] + R_s.below(50);
}
enum { P_ATOMIC, P_SYNC, P_PLAIN, P_YIELD };

static Th *pct_best(Th **r, int n) {
    Th *b = r[0];
    for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
    return b;
}
static void point(int kind, uintptr_t pc) {
    Th *t = self;
    if (!g_active || !t || t->nopre) return;
    if (pc - 0x400000 > 0x10000000) pc = 0; // in a shared library, at an address that differs between processes
    t->idx++;
    g_points++;
    if (__builtin_expect(g_verbose > 2, 0)) vout("pt %lu T%d kind %d pc %lx\n", g_points, t->id, kind, (unsigned long) pc);
    t->runlen++;
    g_now += kind == P_YIELD ? (g_calm ? (st_ytick > 5000 ? st_ytick : 5000) : st_ytick) : st_tick;
    if (g_calm) g_now += (g_points - g_calm_at) / 100; // spinning threads must not keep sleepers from waking: time accelerates
    if (g_now >= g_mindl) expire();
    if ((g_points & 255) == 0) check_limits();
    Th *def = t; // default rule
    const char *why = "preempt";
    if (kind == P_YIELD || t->runlen > (g_calm ? 64 : st_maxrun)) { def = rr_next(t); if (!def) def = t; why = kind == P_YIELD ? "yield" : "maxrun"; if (def == t) { t->runlen = 0; if (g_calm) g_now += 5000; } }
    Th *to = def;
    if (g_calm) {
        // fair: default rule only
    } else if (g_replay) {
        Dec *d = r_find(D_SCHED, t->id, t->idx);
        if (d) {
            int target = (int) (d->val & 0xff);
            if (target < g_nth && can_run(&g_th[target])) { to = &g_th[target]; if (d->val >> 8) t->stall_until = g_points + (d->val >> 8); }
        }
    } else {
        Th *r[MAXTH];
        uint64_t stall = 0;
        bool chosen = false;
        if (kind == P_YIELD) {
            int n = runnable(r, t);
            if (st_kind == 2) t->prio = --pct_low;
            if (n) to = st_kind == 2 ? pct_best(r, n) : (R_s.below(8) == 0 ? t : r[R_s.below((uint64_t) n)]);
            chosen = true;
        } else if (to != t) { // maxrun exceeded: keep default
            if (st_kind == 2) t->prio = --pct_low;
            chosen = true;
        } else if (st_kind == 2) {
            for (int i = 0; i < pct_n; i++) if (pct_pts[i] == g_points) t->prio = --pct_low;
            int n = runnable(r, nullptr);
            to = pct_best(r, n);
            if (!can_run(to)) to = t;
            chosen = true;
        } else {
            bool hit = false;
            if (kind == P_PLAIN) hit = R_s.below(st_plainp) == 0;
            else if (st_kind == 1) { if (((mix64(pc) >> 7) & (uint64_t) st_focus_mask) == (uint64_t) st_focus_val) hit = R_s.below(2) == 0; else if (--st_cnt == 0) { hit = true; draw_cnt(); } }
            else if (--st_cnt == 0) { hit = true; draw_cnt(); }
            if (hit) {
                int n = runnable(r, t);
                if (n) { to = r[R_s.below((uint64_t) n)]; if (st_stall && R_s.below((uint64_t) st_stall) == 0) stall = stall_len(); }
                chosen = true;
            }
        }
        (void) chosen;
        if (to != def || stall) { rec(D_SCHED, t->id, t->idx, (uint64_t) to->id | (stall << 8)); }
        if (stall) t->stall_until = g_points + stall;
    }
    if (to != t) {
        if (to != def && kind != P_YIELD) S->preempts++;
        if (t->stall_until > g_points) cnt_get(S->fault, &S->nfault, "stall", nullptr)->fired++;
        do_switch(t, to, why);
    }
}
// the current thread cannot continue: pick somebody else
static void block_switch(Th *t) {
    for (;;) {
        t->idx++;
        g_points++;
        g_now += st_tick;
        if (g_now >= g_mindl) expire();
        check_limits();
        Th *def = rr_next(t);
        if (!def && can_run(t)) { return; } // woken by time already
        if (!def) {
            if (g_mindl == ~0ull) {
                if (g_dl_ok) finish(OUT_OK);
                char b[1500] = "";
                describe_threads(b, sizeof b);
                sim_fail("deadlock", "every thread is blocked:%s", b);
            }
            if (g_mindl > g_now) g_now = g_mindl;
            expire();
            if (can_run(t)) return;
            def = rr_next(t);
            if (!def) continue;
        }
        Th *to = def;
        if (g_calm) {
        } else if (g_replay) {
            Dec *d = r_find(D_SCHED, t->id, t->idx);
            if (d) { int k = (int) (d->val & 0xff); if (k < g_nth && can_run(&g_th[k])) to = &g_th[k]; }
        } else {
            Th *r[MAXTH];
            int n = runnable(r, nullptr);
            to = st_kind == 2 ? pct_best(r, n) : r[R_s.below((uint64_t) n)];
            if (to != def) rec(D_SCHED, t->id, t->idx, (uint64_t) to->id);
        }
        if (to == t) return;
        do_switch(t, to, t->state == TS_DONE ? "exit" : "block");
        if (t->state == TS_RUN) return;
    }
}
static int block_on(const void *addr, const char *kind, uint64_t deadline) {
    Th *t       = self;
    t->waddr    = addr;
    t->wkind    = kind;
    t->deadline = deadline;
    t->woken    = 0;
    t->wseq     = ++g_wseq;
    t->state    = TS_BLOCK;
    if (deadline && deadline < g_mindl) g_mindl = deadline;
    block_switch(t);
    t->waddr = nullptr;
    t->wkind = nullptr;
    if (t->deadline) { t->deadline = 0; recalc_mindl(); }
    return t->woken;
}
static int wake_on(const void *addr, int n) {
    int done = 0;
    while (n > 0) {
        Th *w[MAXTH];
        int k = 0;
        for (int i = 0; i < g_nth; i++) if (g_th[i].state == TS_BLOCK && g_th[i].waddr == addr) w[k++] = &g_th[i];
        if (!k) break;
        int pick = 0;
        if (n < k) { // FIFO by default, any order by choice
            for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (w[j]->wseq < w[i]->wseq) { Th *x = w[i]; w[i] = w[j]; w[j] = x; }
            pick = (int) sim_choice("wake-order", (uint64_t) k);
        }
        Th *t    = w[pick];
        t->state = TS_RUN;
        t->woken = 1;
        t->waddr = nullptr;
        t->runlen = 0;
        if (t->deadline) { t->deadline = 0; recalc_mindl(); }
        n--;
        done++;
    }
    return done;
}
extern "C" void sim_point(void) { point(P_SYNC, (uintptr_t) __builtin_return_address(0)); }
extern "C" void sim_yield(void) { point(P_YIELD, (uintptr_t) __builtin_return_address(0)); }
extern "C" void sim_enter(void) { if (self) self->nopre++; }
extern "C" void sim_leave(void) { if (self) self->nopre--; }
extern "C" int sim_block(const void *addr, uint64_t deadline) { return block_on(addr, "sim_block", deadline); }
extern "C" void sim_wake(const void *addr, int n) { if (self) wake_on(addr, n); }
extern "C" void sim_set_group(int g) { if (self) self->grp = g; }
extern "C" int  sim_get_group(void) { return self ? self->grp : 0; }
extern "C" int  sim_kill_group(int g) { // crash: the threads of the group never run again
    int n = 0;
    for (int i = 0; i < g_nth; i++) {
        Th *t = &g_th[i];
        if (t == self || t->grp != g || t->state == TS_DONE) continue;
        t->state    = TS_DONE;
        t->waddr    = nullptr;
        t->deadline = 0;
        wake_on(t, 1000);
        n++;
    }
    recalc_mindl();
    return n;
}
static uint64_t late() {
    if (sim_fault("timer-late", 50000)) return 1000 + 1000 * sim_choice("late-us", 20000);
    return 0;
}
static int insim() { return g_active && self; }
extern "C" void sim_sleep(uint64_t ns) {
    if (!insim()) return;
    point(P_SYNC, (uintptr_t) __builtin_return_address(0));
    uint64_t d = g_now + (ns ? ns : 1) + late();
    block_on(nullptr, "sleep", d);
}
extern "C" void sim_sysclock_jump(int64_t ns) { g_sysoff += ns; sim_log("system clock jumps by %ld ns", (long) ns); }

// ------------------------------------------------------------------------------------------------ heap
static const uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 0x100000000ull, REG_B = ARENA + 0x10000000ull;
static const uintptr_t SHADOW = 0x0f0000000000ull;
static uintptr_t       hp_cur, hp_end;
static int             hp_ready;
static size_t          hp_live;
static void           *hp_free[320];
struct QEnt { void *p; };
enum { QN = 8192 };
static void    *q_ring[QN];
static uint32_t q_head, q_tail;
static size_t   q_bytes;
struct Hdr { // 16 bytes before the user pointer
    uint32_t size, off; // off: user pointer - block start
    uint32_t cls, magic;
};
static const uint32_t MG_LIVE = 0xA11C0DEDu, MG_FREE = 0xDEADF4EEu;
static inline bool inar(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static inline uint8_t *shad(uintptr_t a) { return (uint8_t *) (SHADOW + ((a - ARENA) >> 3)); }
static void hp_init() {
    void *a = mmap((void *) ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *b = mmap((void *) SHADOW, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || b == MAP_FAILED) { static const char m[] = "rt: arena mmap failed\n"; rsys(SYS_write, 2, (long) m, sizeof m - 1); rsys(SYS_exit_group, 4); }
    hp_cur = ARENA + 64;
    hp_end = REG_B;
    hp_ready = 1;
}
static inline uint32_t cls_of(size_t tot, size_t *rounded) {
    if (tot <= 2048) { uint32_t c = (uint32_t) ((tot + 15) / 16); *rounded = (size_t) c * 16; return c; }
    uint32_t c = 129;
    size_t   s = 2560;
    for (;; c++) {
        if (tot <= s) { *rounded = s; return c; }
        s += s / 4;
        s = (s + 15) & ~(size_t) 15;
        if (c > 300) { *rounded = (tot + 4095) & ~(size_t) 4095; return 0; }
    }
}
static void set_shadow(uintptr_t p, size_t n) {
    uint8_t *s = shad(p);
    memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = (uint8_t) (n & 7);
}
static void *hp_alloc(size_t n, size_t al) {
    if (!hp_ready) hp_init();
    if (n > 0xC0000000ull) { errno = ENOMEM; return nullptr; }
    size_t extra = 32 + (al > 16 ? al : 0), r;
    uint32_t c = cls_of(n + extra, &r);
    uintptr_t base;
    if (c && hp_free[c]) { base = (uintptr_t) hp_free[c]; hp_free[c] = *(void **) base; }
    else {
        if (hp_cur + r + 64 > hp_end) { errno = ENOMEM; return nullptr; }
        base = hp_cur;
        hp_cur += r;
    }
    uintptr_t u = base + 16;
    if (al > 16) u = (u + al - 1) & ~(uintptr_t) (al - 1);
    Hdr *h = (Hdr *) (u - 16);
    h->size = (uint32_t) n; h->off = (uint32_t) (u - base); h->cls = c; h->magic = MG_LIVE;
    set_shadow(u, n);
    hp_live += n;
    return (void *) u;
}
static void hp_release(void *u) {
    Hdr *h = (Hdr *) ((uintptr_t) u - 16);
    uintptr_t base = (uintptr_t) u - h->off;
    if (!h->cls) return;
    uint32_t c = h->cls;
    *(void **) base = hp_free[c];
    hp_free[c] = (void *) base;
}
static void hp_dealloc(void *p, void *pc) {
    if (!p) return;
    uintptr_t u = (uintptr_t) p;
    if (!inar(u)) return;
    Hdr *h = (Hdr *) (u - 16);
    if (h->magic != MG_LIVE) {
        if (g_active && self) sim_fail(h->magic == MG_FREE ? "mem:double-free" : "mem:invalid-free", "free(%p) from %s", p, symname(pc));
        return;
    }
    if (u >= REG_B || !g_active) hp_live -= h->size;
    h->magic = MG_FREE;
    memset(shad(u), 0xFD, (h->size + 7) >> 3);
    if (g_active && u < REG_B) return;
    q_ring[q_tail++ % QN] = p;
    q_bytes += h->size;
    while (q_tail - q_head >= QN || q_bytes > (2u << 20)) {
        void *o = q_ring[q_head++ % QN];
        q_bytes -= ((Hdr *) ((uintptr_t) o - 16))->size;
        hp_release(o);
    }
}
extern "C" size_t sim_live_bytes(void) { return hp_live; }
static inline int af() { return self && self->allocfail && g_active && !self->nopre && sim_fault("bad-alloc", self->allocfail); }
extern "C" void *malloc(size_t n) { if (__builtin_expect(af(), 0)) { errno = ENOMEM; return nullptr; } return hp_alloc(n, 16); }
extern "C" void  free(void *p) { hp_dealloc(p, __builtin_return_address(0)); }
extern "C" void *calloc(size_t a, size_t b) {
    size_t n = a * b;
    void  *p = hp_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
extern "C" void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return nullptr; }
    size_t o = ((Hdr *) ((uintptr_t) p - 16))->size;
    void  *q = hp_alloc(n, 16);
    if (q) { memcpy(q, p, o < n ? o : n); hp_dealloc(p, __builtin_return_address(0)); }
    return q;
}
extern "C" int posix_memalign(void **o, size_t al, size_t n) { void *p = hp_alloc(n, al); if (!p) return ENOMEM; *o = p; return 0; }
extern "C" void *aligned_alloc(size_t al, size_t n) { if (__builtin_expect(af(), 0)) { errno = ENOMEM; return nullptr; } return hp_alloc(n, al); }
extern "C" void *memalign(size_t al, size_t n) { return hp_alloc(n, al); }
extern "C" void *valloc(size_t n) { return hp_alloc(n, 4096); }
extern "C" size_t malloc_usable_size(void *p) { return p ? ((Hdr *) ((uintptr_t) p - 16))->size : 0; }

static void __attribute__((noinline, noreturn)) bad_access(uintptr_t a, size_t n, int w, void *pc) {
    uint8_t s = *shad(a);
    if (s >= 1 && s <= 8) s = *shad(a + n - 1);
    sim_fail(s == 0xFD ? "mem:use-after-free" : "mem:out-of-bounds", "%s of %zu bytes at %p in %s", w ? "write" : "read", n, (void *) a, symname(pc));
}
static inline void chk(uintptr_t a, size_t n, int w, void *pc) {
    if (!inar(a) || !g_active || !n) return;
    uint8_t s = *shad(a);
    if (__builtin_expect(s == 8 && (a & 7) + n <= 8, 1)) return;
    if ((a & 7) + n <= 8) { if (s <= 8 && (a & 7) + n <= s) return; bad_access(a, n, w, pc); }
    uint8_t e = *shad(a + n - 1);
    if (s != 8 || e > 8 || ((a + n - 1) & 7) + 1 > e) bad_access(a, n, w, pc);
}
static inline void plain(uintptr_t a, size_t n, int w, void *pc) {
    chk(a, n, w, pc);
    Th *t = self;
    if (!t || !g_active) return;
    if (__builtin_expect(++t->plain > 300000, 0)) { t->plain = 0; t->runlen = 1ull << 40; point(P_SYNC, (uintptr_t) pc); return; }
    if (st_plain && a - (uintptr_t) t->stk_lo >= (uintptr_t) (t->stk_hi - t->stk_lo)) point(P_PLAIN, (uintptr_t) pc);
}

// ------------------------------------------------------------------------------------------------ TSan ABI
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *a) { plain((uintptr_t) a, N, 0, RA); } \
    void __tsan_write##N(void *a) { plain((uintptr_t) a, N, 1, RA); } \
    void __tsan_unaligned_read##N(void *a) { plain((uintptr_t) a, N, 0, RA); } \
    void __tsan_unaligned_write##N(void *a) { plain((uintptr_t) a, N, 1, RA); } \
    void __tsan_volatile_read##N(void *a) { plain((uintptr_t) a, N, 0, RA); } \
    void __tsan_volatile_write##N(void *a) { plain((uintptr_t) a, N, 1, RA); } \
    void __tsan_read_write##N(void *a) { plain((uintptr_t) a, N, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { plain((uintptr_t) a, (size_t) n, 0, RA); }
void __tsan_write_range(void *a, long n) { plain((uintptr_t) a, (size_t) n, 1, RA); }
void __tsan_vptr_update(void **a, void *) { plain((uintptr_t) a, 8, 1, RA); }
void __tsan_vptr_read(void **a) { plain((uintptr_t) a, 8, 0, RA); }
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int  __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_mutex_pre_divert(void *, unsigned) {}
void __tsan_mutex_post_divert(void *, unsigned) {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}

#define PT(a, n, w) chk((uintptr_t) (a), n, w, RA); point(P_ATOMIC, (uintptr_t) RA)
#define ATOM(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int) { PT(a, B / 8, 0); return *a; } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { PT(a, B / 8, 1); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) (o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) (o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) (o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) (o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) (o ^ v); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { PT(a, B / 8, 1); T o = *a; *a = (T) ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { PT(a, B / 8, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { PT(a, B / 8, 1); if (insim() && !self->nopre && sim_fault("weak-cas-fail", 60000)) { *c = *a; return 0; } T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { PT(a, B / 8, 1); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, __int128)
void __tsan_atomic_thread_fence(int) { point(P_ATOMIC, (uintptr_t) RA); }
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { plain((uintptr_t) s, n, 0, RA); plain((uintptr_t) d, n, 1, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { plain((uintptr_t) s, n, 0, RA); plain((uintptr_t) d, n, 1, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) plain((uintptr_t) d, n, 1, RA); return __real_memset(d, c, n); }
}

// ------------------------------------------------------------------------------------------------ time
static const int64_t SYS0 = 1700000000ll * 1000000000ll, MONO0 = 1000ll * 1000000000ll;
static void to_ts(int64_t ns, struct timespec *ts) { ts->tv_sec = ns / 1000000000ll; ts->tv_nsec = ns % 1000000000ll; }
static int64_t clk(clockid_t c) { return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? SYS0 + g_sysoff + (int64_t) g_now : MONO0 + (int64_t) g_now; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (!insim()) return (int) rsys(SYS_clock_gettime, c, (long) ts);
    g_now += st_tick;
    to_ts(clk(c), ts);
    return 0;
}
extern "C" time_t time(time_t *t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
static uint64_t rel_ns(const struct timespec *ts) { return (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec; }
extern "C" int nanosleep(const struct timespec *ts, struct timespec *) {
    if (!insim()) return 0;
    sim_sleep(rel_ns(ts));
    return 0;
}
extern "C" int usleep(useconds_t us) { if (insim()) sim_sleep((uint64_t) us * 1000); return 0; }
static uint64_t abs_to_now(clockid_t c, const struct timespec *ts) { // absolute deadline on clock c -> absolute sim ns
    int64_t d = (int64_t) rel_ns(ts) - clk(c);
    if ((int64_t) ts->tv_sec < 0 || d < 0) d = 0;
    if (d > 4000000000ll * 1000000000ll) return 0;
    return g_now + (uint64_t) d + 1;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *) {
    if (!insim()) return 0;
    if (flags & TIMER_ABSTIME) { uint64_t d = abs_to_now(c, ts); sim_sleep(d ? d - g_now : 1ull << 60); }
    else sim_sleep(rel_ns(ts));
    return 0;
}
extern "C" int sched_yield() noexcept { point(P_YIELD, (uintptr_t) RA); return 0; }
extern "C" int get_nprocs() noexcept { return 4; }
extern "C" int get_nprocs_conf() noexcept { return 4; }

// ------------------------------------------------------------------------------------------------ pthread
static uintptr_t STK = 0x120000000000ull;
enum { STKSZ = 1 << 20 };
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);

static void *tramp(void *a) {
    Th *t = (Th *) a;
    self  = t;
    bwait(t);
    t->ret   = t->fn(t->arg);
    t->nopre = 0;
    t->state = TS_DONE;
    if (g_verbose > 1) vout("[%10lu ns] T%d exits\n", g_now, t->id);
    wake_on(t, 1000);
    block_switch(t);
    for (;;) rsys(SYS_pause);
}
static int spawn(pthread_t *out, void *(*fn)(void *), void *arg) {
    if (g_nth >= MAXTH) { sim_fail("harness:too-many-threads", "thread table full"); }
    Th *t = &g_th[g_nth];
    memset(t, 0, sizeof *t);
    t->id    = g_nth;
    t->fn    = fn;
    t->arg   = arg;
    t->state = TS_RUN;
    t->grp   = self ? self->grp : 0;
    t->prio  = (int64_t) (R_s.next() >> 20);
    t->stk_lo = (char *) (STK + (uintptr_t) t->id * (STKSZ + 65536));
    t->stk_hi = t->stk_lo + STKSZ;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stk_lo, STKSZ);
    if (self) self->nopre++;
    int rc = real_create(&t->pt, &at, tramp, t);
    if (self) self->nopre--;
    pthread_attr_destroy(&at);
    if (rc) { vout("rt: real pthread_create failed %d\n", rc); rsys(SYS_exit_group, 5); }
    g_nth++;
    *out = t->pt;
    return 0;
}
static Th *th_of(pthread_t p) {
    for (int i = 0; i < g_nth; i++) if (g_th[i].pt == p) return &g_th[i];
    return nullptr;
}
extern "C" int pthread_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void *), void *arg) noexcept {
    if (!insim()) { // only before/outside a run: not supported
        vout("rt: pthread_create outside a simulated run\n");
        return EAGAIN;
    }
    if (sim_fault("thread-create-EAGAIN", 0)) return EAGAIN;
    spawn(p, fn, arg);
    point(P_SYNC, (uintptr_t) RA);
    return 0;
}
extern "C" int pthread_join(pthread_t p, void **ret) {
    if (!insim()) return EINVAL;
    point(P_SYNC, (uintptr_t) RA);
    Th *t = th_of(p);
    if (!t || t->joined || t->detached) sim_fail("thread:bad-join", "pthread_join of an unknown, detached or already joined thread");
    if (t == self) return EDEADLK;
    while (t->state != TS_DONE) block_on(t, "join", 0);
    t->joined = 1;
    if (ret) *ret = t->ret;
    return 0;
}
extern "C" int pthread_detach(pthread_t p) noexcept { Th *t = th_of(p); if (t) t->detached = 1; return 0; }
extern "C" int pthread_setname_np(pthread_t p, const char *n) noexcept { if (strlen(n) > 15) return ERANGE; Th *t = th_of(p); if (t) snprintf(t->name, sizeof t->name, "%s", n); return 0; }
extern "C" int pthread_getname_np(pthread_t p, char *b, size_t n) noexcept { Th *t = th_of(p); snprintf(b, n, "%s", t ? t->name : "?"); return 0; }
extern "C" int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) noexcept { return 0; }
extern "C" int pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t *s) noexcept { memset(s, 0, n); *(unsigned char *) s = 0xf; return 0; }
extern "C" int pthread_setschedparam(pthread_t, int, const struct sched_param *) noexcept { return 0; }
extern "C" int pthread_getschedparam(pthread_t, int *pol, struct sched_param *sp) noexcept { *pol = SCHED_OTHER; sp->sched_priority = 0; return 0; }

// mutex: __lock = owner tid+1, __count = recursion, __kind = type
static inline int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static int mtx_lock(pthread_mutex_t *m, uint64_t deadline, bool timed, void *pc) {
    if (!insim() || self->nopre) { return 0; }
    chk((uintptr_t) m, sizeof *m, 1, pc);
    point(P_SYNC, (uintptr_t) pc);
    int me = self->id + 1;
    if (m->__data.__lock == me) {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (!timed) sim_fail("mutex:self-deadlock", "thread relocks a non-recursive mutex it holds (in %s)", symname(pc));
    }
    while (m->__data.__lock) {
        int w = block_on(m, "mutex", deadline);
        chk((uintptr_t) m, sizeof *m, 1, pc);
        if (!w && timed && m->__data.__lock) return ETIMEDOUT;
    }
    m->__data.__lock  = me;
    m->__data.__count = 1;
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return mtx_lock(m, 0, false, RA); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!insim() || self->nopre) return 0;
    chk((uintptr_t) m, sizeof *m, 1, RA);
    point(P_SYNC, (uintptr_t) RA);
    int me = self->id + 1;
    if (m->__data.__lock) {
        if (m->__data.__lock == me && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        return EBUSY;
    }
    m->__data.__lock  = me;
    m->__data.__count = 1;
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept { return mtx_lock(m, insim() ? abs_to_now(CLOCK_REALTIME, ts) : 0, true, RA); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) noexcept { return mtx_lock(m, insim() ? abs_to_now(c, ts) : 0, true, RA); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (!insim() || self->nopre) return 0;
    chk((uintptr_t) m, sizeof *m, 1, RA);
    if (m->__data.__lock != self->id + 1) sim_fail("mutex:unlock-not-owner", "unlock of a mutex the thread does not hold (in %s)", symname(RA));
    if (--m->__data.__count == 0) { m->__data.__lock = 0; wake_on(m, 1000); }
    point(P_SYNC, (uintptr_t) RA);
    return 0;
}
static unsigned g_slow_ppm;
static uint64_t g_slow_max;
extern "C" void sim_slow_wait(unsigned ppm, uint64_t max_ns) { g_slow_ppm = ppm; g_slow_max = max_ns; }
static int cnd_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline, bool timed, void *pc) {
    if (!insim()) return 0;
    chk((uintptr_t) c, sizeof *c, 1, pc);
    point(P_SYNC, (uintptr_t) pc);
    if (g_slow_ppm && sim_fault("slow-wait", g_slow_ppm)) sim_sleep(1 + sim_choice("slow-len", g_slow_max)); // the thread is off the processor for a while before it waits
    if (m->__data.__lock != self->id + 1) sim_fail("cond:wait-without-mutex", "condition wait without holding the mutex (in %s)", symname(pc));
    uint32_t cnt = m->__data.__count;
    m->__data.__lock = 0;
    m->__data.__count = 0;
    wake_on(m, 1000);
    int w = 1;
    if (sim_fault("spurious-wakeup", 40000)) point(P_YIELD, (uintptr_t) pc);
    else w = block_on(c, timed ? "cond-timed" : "cond", timed ? (deadline ? deadline + late() : 0) : 0);
    while (m->__data.__lock) block_on(m, "mutex", 0);
    m->__data.__lock  = self->id + 1;
    m->__data.__count = cnt;
    return w || !timed ? 0 : ETIMEDOUT;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cnd_wait(c, m, 0, false, RA); }
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cnd_wait(c, m, insim() ? abs_to_now(CLOCK_REALTIME, ts) : 0, true, RA); }
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts) { return cnd_wait(c, m, insim() ? abs_to_now(ck, ts) : 0, true, RA); }
extern "C" int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!insim()) return 0;
    chk((uintptr_t) c, sizeof *c, 1, RA);
    point(P_SYNC, (uintptr_t) RA);
    wake_on(c, 1);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!insim()) return 0;
    chk((uintptr_t) c, sizeof *c, 1, RA);
    point(P_SYNC, (uintptr_t) RA);
    wake_on(c, 1000);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t *c) noexcept {
    if (!insim()) return 0;
    for (int i = 0; i < g_nth; i++) if (g_th[i].state == TS_BLOCK && g_th[i].waddr == c) sim_fail("cond:destroyed-with-waiters", "condition variable destroyed while T%d waits on it (in %s)", i, symname(RA));
    return 0;
}
// rwlock: __readers = reader count, __cur_writer = tid+1
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tryonly, uint64_t deadline, bool timed, void *pc) {
    if (!insim() || self->nopre) return 0;
    chk((uintptr_t) l, sizeof *l, 1, pc);
    point(P_SYNC, (uintptr_t) pc);
    for (;;) {
        bool free_ = wr ? (l->__data.__readers == 0 && l->__data.__cur_writer == 0) : l->__data.__cur_writer == 0;
        if (free_) break;
        if (tryonly) return EBUSY;
        if (wr && l->__data.__cur_writer == self->id + 1) return EDEADLK;
        int w = block_on(l, "rwlock", deadline);
        if (!w && timed) return ETIMEDOUT;
    }
    if (wr) l->__data.__cur_writer = self->id + 1;
    else l->__data.__readers++;
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, false, 0, false, RA); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, false, 0, false, RA); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, true, 0, false, RA); }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, true, 0, false, RA); }
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) noexcept { return rw_lock(l, false, false, insim() ? abs_to_now(CLOCK_REALTIME, ts) : 0, true, RA); }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) noexcept { return rw_lock(l, true, false, insim() ? abs_to_now(CLOCK_REALTIME, ts) : 0, true, RA); }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) noexcept { return rw_lock(l, false, false, insim() ? abs_to_now(c, ts) : 0, true, RA); }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) noexcept { return rw_lock(l, true, false, insim() ? abs_to_now(c, ts) : 0, true, RA); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    if (!insim() || self->nopre) return 0;
    chk((uintptr_t) l, sizeof *l, 1, RA);
    if (l->__data.__cur_writer == self->id + 1) l->__data.__cur_writer = 0;
    else if (l->__data.__readers > 0) l->__data.__readers--;
    else sim_fail("rwlock:unlock-not-held", "rwlock unlock without lock (in %s)", symname(RA));
    wake_on(l, 1000);
    point(P_SYNC, (uintptr_t) RA);
    return 0;
}
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    int *s = (int *) o;
    if (!insim()) { if (!*s) { *s = 1; fn(); *s = 2; } return 0; }
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) break;
        block_on(s, "once", 0);
    }
    *s = 1;
    try { fn(); } catch (...) { *s = 0; wake_on(s, 1000); throw; }
    *s = 2;
    wake_on(s, 1000);
    return 0;
}
extern "C" long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && insim()) {
        int op = (int) b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            chk((uintptr_t) a, 4, 0, RA);
            point(P_SYNC, (uintptr_t) RA);
            if (*(volatile int *) a != (int) c) { errno = EAGAIN; return -1; }
            uint64_t dl = 0;
            if (d) {
                const struct timespec *ts = (const struct timespec *) d;
                if (op == FUTEX_WAIT) dl = g_now + rel_ns(ts) + 1;
                else dl = abs_to_now((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (sim_fault("spurious-wakeup", 40000)) { point(P_YIELD, (uintptr_t) RA); return 0; }
            int w = block_on((void *) a, "futex", dl);
            if (!w) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(P_SYNC, (uintptr_t) RA);
            return wake_on((void *) a, (int) c);
        }
        return 0;
    }
    long r = rsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}

// ------------------------------------------------------------------------------------------------ crashes
extern "C" __attribute__((weak)) const char *sim_current_exception(void) { return ""; }
static void on_sig(int s, siginfo_t *si, void *uc) {
    ucontext_t *u = (ucontext_t *) uc;
    void *pc = (void *) u->uc_mcontext.gregs[REG_RIP];
    if (!g_active || !self) { vout("rt: signal %d outside run pc=%s\n", s, symname(pc)); rsys(SYS_exit_group, 6); }
    char sig[64];
    snprintf(sig, sizeof sig, "crash:%s", s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "SIGABRT" : "SIGILL");
    sim_fail(sig, "signal %d at pc %s, address %p", s, symname(pc), si->si_addr);
}
static void on_term() {
    if (!g_active || !self) { vout("rt: terminate outside run\n"); rsys(SYS_exit_group, 6); }
    self->nopre++;
    std::type_info *ti = abi::__cxa_current_exception_type();
    char nm[128] = "none";
    if (ti) snprintf(nm, sizeof nm, "%s", ti->name());
    char sig[160];
    snprintf(sig, sizeof sig, "terminate:%s", nm);
    sim_fail(sig, "std::terminate: exception %s: %s", nm, ti ? sim_current_exception() : "");
}
extern "C" void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) noexcept {
    const char *b = strrchr(file, '/');
    char sig[200];
    snprintf(sig, sizeof sig, "assert:%.120s", e);
    if (!g_active) { vout("assert %s %s:%u\n", e, file, line); rsys(SYS_exit_group, 6); }
    sim_fail(sig, "assertion '%s' failed at %s:%u (%s)", e, b ? b + 1 : file, line, fn);
}
extern "C" void abort() noexcept {
    if (!g_active) rsys(SYS_exit_group, 6);
    sim_fail("crash:abort", "abort() called from %s", symname(RA));
}

// ------------------------------------------------------------------------------------------------ a run
struct Scn { const char *name; sim_fn fn; };
static Scn g_scn[64];
static int g_nscn;
extern "C" void sim_register(const char *n, sim_fn f) { g_scn[g_nscn].name = n; g_scn[g_nscn++].fn = f; }
static Scn *g_sc;

static void *t0(void *) {
    g_sc->fn();
    g_active = 0;
    finish(OUT_OK);
}
static char *alt_stack;
static void child_run() {
    // scheduler configuration (swarm)
    R_s.s = mix64(g_seed ^ 0xabcdef);
    R_f.s = mix64(g_seed ^ 0x55aa55aa);
    static const uint64_t PS[] = { 2, 4, 8, 20, 60, 200, 800 };
    st_kind = (int) sim_cfg("sched.kind", 0, 5);
    if (st_kind >= 4) st_kind = st_kind == 4 ? 0 : 2;
    st_p = st_kind == 3 ? 3000 : PS[sim_cfg("sched.p", 0, 6)];
    if (st_kind == 1 && st_p < 60) st_p = 60;
    static const int FM[] = { 1, 3, 7, 15 };
    st_focus_mask = FM[sim_cfg("sched.focus", 0, 3)];
    st_focus_val  = (int) (sim_cfg("sched.fval", 0, 15) & st_focus_mask);
    st_plain  = sim_cfg("sched.plain", 0, 9) >= 7;
    st_plainp = PS[sim_cfg("sched.plainp", 1, 5)];
    static const uint64_t MR[] = { 100, 400, 2000 };
    st_maxrun = MR[sim_cfg("sched.maxrun", 0, 2)];
    static const uint64_t TK[] = { 1, 10, 50, 200, 1000, 5000 };
    st_tick  = TK[sim_cfg("sched.tick", 0, 5)];
    static const uint64_t YT[] = { 50, 500, 2000, 20000 };
    st_ytick = YT[sim_cfg("sched.ytick", 0, 3)];
    static const int SL[] = { 0, 0, 40, 8, 2 };
    st_stall = SL[sim_cfg("sched.stall", 0, 4)];
    g_faultfree = sim_cfg("faultfree", 0, 4) == 0;
    if (g_faultfree) st_stall = 0;
    static const uint64_t EL[] = { 150, 600, 2500, 10000 };
    uint64_t len = EL[sim_cfg("sched.pctlen", 0, 3)];
    pct_n = (int) sim_cfg("sched.pctd", 0, 6);
    for (int i = 0; i < pct_n; i++) pct_pts[i] = 1 + R_s.below(len);
    draw_cnt();
    hp_cur = REG_B; hp_end = ARENA + ARENA_SZ; hp_live = 0;
    memset(hp_free, 0, sizeof hp_free);
    q_head = q_tail = 0; q_bytes = 0;
    mmap((void *) STK, (size_t) MAXTH * (STKSZ + 65536), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    for (int i = 0; i < MAXTH; i++) mprotect((void *) (STK + (uintptr_t) i * (STKSZ + 65536) + STKSZ), 65536, PROT_NONE);
    pthread_t p;
    g_active = 1;
    spawn(&p, t0, nullptr);
    g_cur = &g_th[0];
    bpost(&g_th[0]);
    for (;;) rsys(SYS_pause);
}
static void mem_pause() { // the kernel frees exited processes with a delay: give it time before memory gets short
    static unsigned n;
    if (++n % 64) return;
    for (int i = 0; i < 200; i++) {
        struct sysinfo si;
        rsys(SYS_sysinfo, (long) &si);
        if (si.freeram > si.totalram / 5 * 3) return;
        struct timespec ts{ 0, 10'000'000 };
        rsys(SYS_nanosleep, (long) &ts, 0);
    }
}
static int run_once() { // returns outcome
    mem_pause();
    memset(S, 0, offsetof(Shared, dec));
    if (g_replay) { // keep name ids of the replay file
        extern Cnt g_rnames[];
        extern uint32_t g_nrnames;
        for (uint32_t i = 0; i < g_nrnames; i++) { snprintf(S->fault[i].name, sizeof S->fault[i].name, "%s", g_rnames[i].name); }
        S->nfault = g_nrnames;
    }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(4); }
    if (pid == 0) {
        rsys(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL);
        rsys(SYS_alarm, 40);
        rsys(SYS_prctl, 78 /*PR_FUTEX_HASH*/, 1 /*SET_SLOTS*/, 0, 0); // no private futex hash: kernels >= 6.16 free such processes asynchronously, faster than that they pile up
        if (!g_verbose) { int n = (int) rsys(SYS_openat, AT_FDCWD, (long) "/dev/null", 1 /*O_WRONLY*/, 0); if (n >= 0) rsys(SYS_dup2, n, 1), rsys(SYS_close, n); } // what the code under test prints
        child_run();
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->outcome == OUT_NONE) {
        snprintf(S->sig, sizeof S->sig, "harness:child-died");
        snprintf(S->msg, sizeof S->msg, "child ended with status 0x%x without a verdict", st);
        S->outcome = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? OUT_SKIP : OUT_FAIL;
    }
    return S->outcome;
}
Cnt      g_rnames[MAXCNT];
uint32_t g_nrnames;

// ------------------------------------------------------------------------------------------------ driver
static void load_dec(Dec *d, uint32_t n) {
    if (!g_rhash) g_rhash = (uint32_t *) mmap(nullptr, RH * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(g_rhash, 0, RH * 4);
    g_rdec = d; g_nrdec = n;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t s = rh_slot(d[i].kind, d[i].who, d[i].idx);
        while (g_rhash[s]) s = (s + 1) & (RH - 1);
        g_rhash[s] = i + 1;
    }
}
static const char *arg(int c, char **v, const char *n, const char *def) {
    for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], n)) return v[i + 1];
    return def;
}
static int has(int c, char **v, const char *n) { for (int i = 1; i < c; i++) if (!strcmp(v[i], n)) return 1; return 0; }
static char    known[64][200];
static int     nknown;
static uint64_t knownhit[64], knownseed[64];
static void esc(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if ((unsigned char) *s < 32) fprintf(f, "\\u%04x", *s); else if ((unsigned char) *s < 127) fputc(*s, f); else fputc('?', f); }
    fputc('"', f);
}
static void write_replay(const char *path, const char *prop, const char *scn, const char *sig, const char *msg, uint64_t hash, Dec *d, uint32_t n, int seedmode, uint32_t orig, uint32_t tries) {
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); return; }
    fprintf(f, "# deterministic-simulation replay file; replay with: bin/<harness> replay FILE [-v|-vv]\n");
    fprintf(f, "property %s\nscenario %s\nseed %lu\nmode %s\nsignature %s\nhash %lu\n", prop, scn, g_seed, seedmode ? "seed" : "decisions", sig, hash);
    fprintf(f, "# %s\n", msg);
    fprintf(f, "# decisions: %u recorded, %u after minimisation (%u replays)\n", orig, n, tries);
    for (int i = 0; i < g_novr; i++) fprintf(f, "set %s %ld\n", g_ovr[i].name, (long) g_ovr[i].v);
    for (uint32_t i = 0; i < S->ncfg; i++) fprintf(f, "# cfg %s=%ld in [%ld,%ld]\n", S->cfg[i].name, (long) S->cfg[i].v, (long) S->cfg[i].lo, (long) S->cfg[i].hi);
    if (!seedmode) {
        for (uint32_t i = 0; i < g_nrnames; i++) fprintf(f, "name %u %s\n", i, g_rnames[i].name);
        for (uint32_t i = 0; i < n; i++) fprintf(f, "%s %u %u %lu\n", d[i].kind == D_SCHED ? "sched" : d[i].kind == D_FAULT ? "fault" : "choice", d[i].who, d[i].idx, d[i].val);
    }
    fclose(f);
}
static void keep_names() { g_nrnames = S->nfault; for (uint32_t i = 0; i < S->nfault; i++) g_rnames[i] = S->fault[i]; }

// ddmin over the recorded decisions; S holds the failing run
static void minimise(const char *prop, const char *path, double secs) {
    static Shared keep;
    memcpy(&keep, S, sizeof keep);
    char sig[200];
    snprintf(sig, sizeof sig, "%s", S->sig);
    uint32_t orig = S->ndec, tries = 0;
    if (S->overflow) { write_replay(path, prop, g_sc->name, sig, S->msg, S->hash, nullptr, 0, 1, orig, 0); return; }
    static Dec cur[MAXDEC], cand[MAXDEC];
    uint32_t   n = orig;
    memcpy(cur, S->dec, n * sizeof(Dec));
    keep_names();
    g_replay = 1;
    uint64_t t_end = real_ns() + (uint64_t) (secs * 1e9);
    auto test = [&](Dec *d, uint32_t k) { tries++; load_dec(d, k); return run_once() == OUT_FAIL && !strcmp(S->sig, sig); };
    if (!test(cur, n) || S->hash != keep.hash) {
        memcpy(S, &keep, sizeof keep);
        g_replay = 0;
        write_replay(path, prop, g_sc->name, sig, S->msg, S->hash, nullptr, 0, 1, orig, tries);
        return;
    }
    // shrink configuration first (workload sizes, fault enables), then decisions
    for (uint32_t i = 0; i < keep.ncfg && real_ns() < t_end && g_novr < MAXCFG; i++) {
        if (!strncmp(keep.cfg[i].name, "sched.", 6) || !strncmp(keep.cfg[i].name, "f.", 2) || keep.cfg[i].v == keep.cfg[i].lo) continue;
        bool set = false;
        for (int k = 0; k < g_novr; k++) if (!strcmp(g_ovr[k].name, keep.cfg[i].name)) set = true;
        if (set) continue;
        g_ovr[g_novr] = keep.cfg[i];
        g_ovr[g_novr].v = keep.cfg[i].lo;
        g_novr++;
        if (!test(cur, n)) g_novr--;
    }
    uint32_t chunk = n ? (n + 1) / 2 : 0;
    while (chunk >= 1 && n && real_ns() < t_end) {
        bool any = false;
        for (uint32_t at = 0; at < n && real_ns() < t_end;) {
            uint32_t e = at + chunk < n ? at + chunk : n;
            memcpy(cand, cur, at * sizeof(Dec));
            memcpy(cand + at, cur + e, (n - e) * sizeof(Dec));
            uint32_t k = n - (e - at);
            if (test(cand, k)) { memcpy(cur, cand, k * sizeof(Dec)); n = k; any = true; }
            else at = e;
        }
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk = (chunk + 1) / 2;
        else if (!any) break;
    }
    load_dec(cur, n);
    if (run_once() == OUT_FAIL && !strcmp(S->sig, sig)) {
        write_replay(path, prop, g_sc->name, sig, S->msg, S->hash, cur, n, 0, orig, tries);
    } else {
        memcpy(S, &keep, sizeof keep);
        g_replay = 0; g_novr = 0;
        write_replay(path, prop, g_sc->name, sig, S->msg, S->hash, nullptr, 0, 1, orig, tries);
    }
}
static Cnt agg_f[MAXCNT], agg_p[MAXCNT];
static uint32_t agg_nf, agg_np;
static void aggregate() {
    for (uint32_t i = 0; i < S->nfault; i++) { Cnt *c = cnt_get(agg_f, &agg_nf, S->fault[i].name, nullptr); c->offered += S->fault[i].offered; c->fired += S->fault[i].fired; }
    for (uint32_t i = 0; i < S->nprobe; i++) { Cnt *c = cnt_get(agg_p, &agg_np, S->probe[i].name, nullptr); c->offered++; c->fired += S->probe[i].fired; }
}
int main(int argc, char **argv) {
    real_create = (decltype(real_create)) dlsym(RTLD_NEXT, "pthread_create");
    { void *bt[4]; backtrace(bt, 4); } // load the unwinder now
    S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::set_terminate(on_term);
    alt_stack = (char *) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    const char *mode = argc > 1 ? argv[1] : "help";
    g_verbose = has(argc, argv, "-vvv") ? 3 : has(argc, argv, "-vv") ? 2 : has(argc, argv, "-v") ? 1 : 0;
    const char *cpu = arg(argc, argv, "--cpu", nullptr);
    if (cpu) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(cpu), &cs); rsys(SYS_sched_setaffinity, 0, sizeof cs, (long) &cs); }
    if (!strcmp(mode, "list")) { for (int i = 0; i < g_nscn; i++) printf("%s\n", g_scn[i].name); return 0; }
    const char *prop = arg(argc, argv, "--property", "P00");
    const char *scn  = arg(argc, argv, "--scenario", "");
    static char rbuf[4][256];
    if (!strcmp(mode, "replay")) {
        FILE *f = fopen(argv[2], "r");
        if (!f) { perror(argv[2]); return 4; }
        static Dec  d[MAXDEC];
        static char line[8192], a[64], esig[256] = "";
        uint32_t n = 0; uint64_t ehash = 0; int seedmode = 0;
        while (fgets(line, sizeof line, f)) {
            unsigned w, ix; uint64_t v; long lv;
            if (line[0] == '#') continue;
            if (sscanf(line, "property %15s", rbuf[0]) == 1) continue;
            if (sscanf(line, "scenario %63s", rbuf[1]) == 1) continue;
            if (sscanf(line, "seed %lu", &g_seed) == 1) continue;
            if (sscanf(line, "mode %15s", rbuf[2]) == 1) { seedmode = !strcmp(rbuf[2], "seed"); continue; }
            if (!strncmp(line, "signature ", 10)) { snprintf(esig, sizeof esig, "%s", line + 10); esig[strcspn(esig, "\n")] = 0; continue; }
            if (sscanf(line, "hash %lu", &ehash) == 1) continue;
            if (sscanf(line, "set %39s %ld", g_ovr[g_novr].name, &lv) == 2) { g_ovr[g_novr++].v = lv; continue; }
            if (sscanf(line, "name %u %47s", &w, a) == 2) { if (w < MAXCNT) { snprintf(g_rnames[w].name, 48, "%s", a); if (w + 1 > g_nrnames) g_nrnames = w + 1; } continue; }
            if (sscanf(line, "%63s %u %u %lu", a, &w, &ix, &v) == 4 && n < MAXDEC) { d[n].kind = !strcmp(a, "sched") ? D_SCHED : !strcmp(a, "fault") ? D_FAULT : D_CHOICE; d[n].who = (uint8_t) w; d[n].idx = ix; d[n].val = v; n++; }
        }
        fclose(f);
        for (int i = 0; i < g_nscn; i++) if (!strcmp(g_scn[i].name, rbuf[1])) g_sc = &g_scn[i];
        if (!g_sc) { fprintf(stderr, "unknown scenario %s\n", rbuf[1]); return 4; }
        g_replay = !seedmode;
        if (g_replay) load_dec(d, n);
        int o = run_once();
        int same = o == OUT_FAIL && !strcmp(S->sig, esig), hsame = S->hash == ehash;
        printf("replay scenario=%s seed=%lu outcome=%d signature=%s hash=%lu expected=%lu reproduced=%d exact=%d\n%s\n", rbuf[1], g_seed, o, S->sig, S->hash, ehash, same, hsame, S->msg);
        return same && hsame ? 1 : 0;
    }
    for (int i = 0; i < g_nscn; i++) if (!strcmp(g_scn[i].name, scn)) g_sc = &g_scn[i];
    if (!g_sc) { fprintf(stderr, "unknown scenario '%s'\n", scn); return 4; }
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--set")) { char *eq = strchr(argv[i + 1], '='); if (eq) { snprintf(g_ovr[g_novr].name, 40, "%.*s", (int) (eq - argv[i + 1]), argv[i + 1]); g_ovr[g_novr++].v = atol(eq + 1); } }
    if (!strcmp(mode, "one")) {
        g_seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 0);
        int o = run_once();
        printf("one scenario=%s seed=%lu outcome=%d signature=%s hash=%lu points=%lu switches=%lu ndec=%u simns=%lu\n", scn, g_seed, o, S->sig, S->hash, S->points, S->switches, S->ndec, S->simns);
        if (o == OUT_FAIL) printf("%s\n", S->msg);
        if (g_verbose) {
            for (uint32_t i = 0; i < S->ncfg; i++) printf("  cfg %s=%ld\n", S->cfg[i].name, (long) S->cfg[i].v);
            for (uint32_t i = 0; i < S->nprobe; i++) printf("  probe %s=%lu\n", S->probe[i].name, S->probe[i].fired);
            for (uint32_t i = 0; i < S->nfault; i++) printf("  fault %s=%lu/%lu\n", S->fault[i].name, S->fault[i].fired, S->fault[i].offered);
        }
        return o == OUT_OK ? 0 : 1;
    }
    if (!strcmp(mode, "hashes")) { // determinism check: print the hash of each of N seeds
        uint64_t b = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 0), n = strtoull(arg(argc, argv, "--n", "50"), nullptr, 0);
        for (uint64_t k = 0; k < n; k++) { g_seed = b + k; run_once(); printf("%lu %lu %d %lu %s\n", g_seed, S->hash, S->outcome, S->points, S->sig); fflush(stdout); }
        return 0;
    }
    if (strcmp(mode, "explore")) { fprintf(stderr, "modes: list | explore | one | hashes | replay FILE\n"); return 4; }
    uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 0), w = strtoull(arg(argc, argv, "--worker", "0"), nullptr, 0), nw = strtoull(arg(argc, argv, "--workers", "1"), nullptr, 0);
    double secs = atof(arg(argc, argv, "--time", "10"));
    uint64_t maxruns = strtoull(arg(argc, argv, "--runs", "1000000000"), nullptr, 0);
    double   minsecs = atof(arg(argc, argv, "--mintime", "15"));
    const char *out = arg(argc, argv, "--out", "/dev/stdout"), *rep = arg(argc, argv, "--replay", "/tmp/replay.txt"), *hf = arg(argc, argv, "--hashfile", nullptr);
    const char *kf = arg(argc, argv, "--known", nullptr);
    if (kf) {
        FILE *f = fopen(kf, "r");
        if (f) { while (nknown < 64 && fgets(known[nknown], 200, f)) { known[nknown][strcspn(known[nknown], "\n")] = 0; if (known[nknown][0]) nknown++; } fclose(f); }
    }
    enum { HS = 1 << 22 };
    uint64_t *hset = (uint64_t *) mmap(nullptr, HS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t *cset = (uint64_t *) mmap(nullptr, HS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    madvise(hset, HS * 8, MADV_DONTFORK);
    madvise(cset, HS * 8, MADV_DONTFORK);
    uint64_t nd = 0, nc = 0;
    auto ins = [&](uint64_t *set, uint64_t h) { if (!h) h = 1; uint64_t i = h & (HS - 1); for (int k = 0; k < 64; k++, i = (i + 1) & (HS - 1)) { if (set[i] == h) return 0; if (!set[i]) { set[i] = h; return 1; } } return 0; };
    int devnull = open("/dev/null", O_WRONLY), so = dup(1), se = dup(2);
    if (!g_verbose) { dup2(devnull, 1); dup2(devnull, 2); }
    uint64_t t0 = real_ns(), runs = 0, pts = 0, sw = 0, sim = 0, skipped = 0, ff = 0, calm = 0, pre = 0, nondet = 0, rechecked = 0;
    int viol = 0; char vsig[200] = ""; static char vmsg[4096]; uint64_t vseed = 0;
    for (uint64_t k = w; runs < maxruns && (double) (real_ns() - t0) < secs * 1e9; k += nw) {
        g_seed = base + k;
        int o = run_once();
        runs++; pts += S->points; sw += S->switches; sim += S->simns; pre += S->preempts; calm += (uint64_t) S->calm_reached;
        for (uint32_t i = 0; i < S->ncfg; i++) if (!strcmp(S->cfg[i].name, "faultfree") && S->cfg[i].v == 0) ff++;
        aggregate();
        nd += (uint64_t) ins(hset, S->shash);
        nc += (uint64_t) ins(cset, S->chash);
        if (runs % 512 == 5 && o == OUT_OK) { // continuous self-check: the same seed twice gives the same event log
            uint64_t h = S->hash; rechecked++;
            run_once();
            if (S->hash != h || S->outcome != o) nondet++;
            continue;
        }
        if (o == OUT_SKIP) { skipped++; continue; }
        if (o == OUT_FAIL) {
            int kn = -1;
            for (int i = 0; i < nknown; i++) { char full[4400]; snprintf(full, sizeof full, "%s|%s|%s", scn, S->sig, S->msg); if (!fnmatch(known[i], full, 0)) { kn = i; break; } }
            if (kn >= 0) { if (!knownhit[kn]++) knownseed[kn] = g_seed; continue; }
            uint64_t h = S->hash;
            snprintf(vsig, sizeof vsig, "%s", S->sig);
            run_once(); // gate: same seed again
            if (S->hash != h || strcmp(S->sig, vsig)) { nondet++; vsig[0] = 0; continue; }
            viol = 1; vseed = g_seed;
            snprintf(vmsg, sizeof vmsg, "%s", S->msg);
            minimise(prop, rep, minsecs);
            break;
        }
    }
    double el = (double) (real_ns() - t0) / 1e9;
    dup2(so, 1); dup2(se, 2);
    FILE *f = fopen(out, "w");
    fprintf(f, "{\"scenario\":\"%s\",\"runs\":%lu,\"seconds\":%.3f,\"points\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"sim_ns\":%lu,\"distinct_schedules\":%lu,\"distinct_classes\":%lu,\"skipped\":%lu,\"faultfree_runs\":%lu,\"calm_runs\":%lu,\"rechecked\":%lu,\"nondeterministic\":%lu,\"first_seed\":%lu,", scn, runs, el, pts, sw, pre, sim, nd, nc, skipped, ff, calm, rechecked, nondet, base + w);
    fprintf(f, "\"faults\":{");
    for (uint32_t i = 0; i < agg_nf; i++) { fprintf(f, "%s", i ? "," : ""); esc(f, agg_f[i].name); fprintf(f, ":[%lu,%lu]", agg_f[i].fired, agg_f[i].offered); }
    fprintf(f, "},\"probes\":{");
    for (uint32_t i = 0; i < agg_np; i++) { fprintf(f, "%s", i ? "," : ""); esc(f, agg_p[i].name); fprintf(f, ":[%lu,%lu]", agg_p[i].fired, agg_p[i].offered); }
    fprintf(f, "},\"known\":[");
    int first = 1;
    for (int i = 0; i < nknown; i++) if (knownhit[i]) { fprintf(f, "%s{\"pattern\":", first ? "" : ","); esc(f, known[i]); fprintf(f, ",\"hits\":%lu,\"seed\":%lu}", knownhit[i], knownseed[i]); first = 0; }
    fprintf(f, "],\"violation\":%d,\"vseed\":%lu,\"vsig\":", viol, vseed);
    esc(f, vsig);
    fprintf(f, ",\"vmsg\":");
    esc(f, vmsg);
    fprintf(f, "}\n");
    fclose(f);
    if (hf) { FILE *h = fopen(hf, "wb"); for (uint64_t i = 0; i < HS; i++) if (hset[i]) fwrite(&hset[i], 8, 1, h); fclose(h); }
    return viol ? 1 : 0;
}
