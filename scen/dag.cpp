// Disruptor: handler graphs built with the fluent API on the real executor/scheduler, worker pools, consumers that
// join and leave a live ring.  Compiled with -DPART=<n> (one wait strategy each).
#include "../sim/simxx.hpp"
#include "ring_common.hpp"
#include <disruptor/Disruptor.hpp>
#include <disruptor/RoundRobinThreadAffinedTaskScheduler.hpp>
#include <disruptor/WorkerPool.hpp>
#include <disruptor/AggregateEventHandler.hpp>
using namespace opencmw::disruptor;
// after(handler) formats the handler pointer in its error message; the library has no formatter for it
template<typename T>
struct std::formatter<std::shared_ptr<opencmw::disruptor::IEventHandler<T>>> {
    constexpr auto parse(auto &ctx) { return ctx.begin(); }
    auto format(const std::shared_ptr<opencmw::disruptor::IEventHandler<T>> &, auto &ctx) const { return std::format_to(ctx.out(), "handler"); }
};
struct TimeoutWS : TimeoutBlockingWaitStrategy {
    TimeoutWS() : TimeoutBlockingWaitStrategy(std::chrono::microseconds(300)) {}
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if PART == 0
using WS = BlockingWaitStrategy;
#elif PART == 1
using WS = BusySpinWaitStrategy;
#elif PART == 2
using WS = SleepingWaitStrategy;
#elif PART == 3
using WS = SpinWaitWaitStrategy;
#elif PART == 4
using WS = TimeoutWS;
#elif PART == 5
using WS = YieldingWaitStrategy;
#endif
namespace {
struct HThrow : std::runtime_error { HThrow() : std::runtime_error("handler") {} };
struct Handler : IEventHandler<Ev>, ILifecycleAware {
    Model *m; int id; int throwPct; uint64_t slowAt;
    Handler(Model *mm, int i, int tp) : m(mm), id(i), throwPct(tp), slowAt(sim_wl(40, 64)) {}
    void onEvent(Ev &e, std::int64_t seq, bool eob) override {
        if ((uint64_t) seq == slowAt) sim_sleep(1000 + sim_wl(41, 400000)); // a slow consumer
        Payload p = readEv(e);
        SimGuard g;
        m->consumed(id, seq, p, eob);
        if (throwPct && (int) sim_wl(20 + (unsigned) id, 100) < throwPct) { m->expectEx(id, seq); sim_probe("handler-threw"); throw HThrow(); }
    }
    void onStart() override { SimGuard g; m->running[id]++; }
    void onShutdown() override { SimGuard g; m->running[id]--; }
};
struct ExH : IExceptionHandler<Ev> {
    Model *m; explicit ExH(Model *mm) : m(mm) {}
    void handleEventException(const std::exception &ex, std::int64_t seq, Ev &e) override { Payload p = readEv(e); SimGuard g; m->gotEx(seq, p, ex.what()); }
    void handleOnStartException(const std::exception &) override { sim_fail("unexpected-ex", "onStart exception reported"); }
    void handleOnShutdownException(const std::exception &) override { sim_fail("unexpected-ex", "onShutdown exception reported"); }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override { sim_fail("unexpected-ex", "onTimeout exception reported"); }
};
template<typename RB>
void simpleProducer(Model &m, RB &rb, int pid, int quota) {
    const std::size_t size = (std::size_t) rb.bufferSize();
    while (quota > 0) {
        auto tr = [&](Ev &&e, std::int64_t s) {
            Payload p;
            { SimGuard g; p = m.claimed(pid, s, 1, size); }
            writeEv(e, p);
            SimGuard g;
            m.ready(s);
        };
        if (sim_wl(1 + (unsigned) pid, 4) == 0) {
            if (rb.tryPublishEvent(tr)) quota--;
            else sim_yield();
        } else {
            rb.publishEvent(tr);
            quota--;
        }
        if (sim_wl(1 + (unsigned) pid, 6) == 0) sim_sleep(sim_wl(1 + (unsigned) pid, 30000)); // bursts
    }
}

template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
void dagRun(int mode) {
    constexpr bool multi = std::is_same_v<CLAIM<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    Model m;
    auto sched = std::make_shared<RoundRobinThreadAffinedTaskScheduler>();
    const int n = (int) sim_cfg("handlers", 2, 5);
    sched->start((std::size_t) n);
    auto core = std::make_shared<DisruptorCore<Ev, SIZE, WS, CLAIM>>(sched);
    auto exh  = std::make_shared<ExH>(&m);
    const int throwPct = mode == 1 || sim_cfg_pct("throws", 25) ? (int) sim_cfg("hthrow", 5, 50) : 0;
    core->handleExceptionsWith(exh);
    m.ncons = n;
    std::vector<std::shared_ptr<IEventHandler<Ev>>> h;
    for (int i = 0; i < n; i++) h.push_back(std::make_shared<Handler>(&m, i, throwPct));
    // levels: a random layered graph, built with every composition operator of the fluent interface
    int at = 0;
    auto take = [&](int k) { std::vector<std::shared_ptr<IEventHandler<Ev>>> v; for (int i = 0; i < k && at < n; i++) v.push_back(h[(size_t) at++]); return v; };
    int first = (int) sim_cfg("first", 1, 3);
    if (first > n - 1) first = n - 1;
    auto group = core->handleEventsWith(take(first));
    std::vector<int> cur;
    for (int i = 0; i < first; i++) cur.push_back(i);
    auto maskOf = [](const std::vector<int> &v) { unsigned r = 0; for (int x : v) r |= 1u << x; return r; };
    int step = 0;
    while (at < n) {
        const int op = (int) sim_cfg((std::string("op") + char('0' + step)).c_str(), 0, 4);
        const int k  = 1 + (int) sim_cfg((std::string("w") + char('0' + step)).c_str(), 0, 1);
        step++;
        const int b = at;
        if (op == 0) { // another root group
            group = core->handleEventsWith(take(k));
            cur.clear();
        } else if (op == 1) { // after(specific handlers)
            std::vector<int> sel;
            std::vector<std::shared_ptr<IEventHandler<Ev>>> hv;
            for (int i = 0; i < b; i++) if (sim_cfg_pct((std::string("s") + char('0' + step) + char('0' + i)).c_str(), 60)) { sel.push_back(i); hv.push_back(h[(size_t) i]); }
            if (sel.empty()) { sel.push_back(0); hv.push_back(h[0]); }
            group = core->after(hv)->handleEventsWith(take(k));
            for (int i = b; i < at; i++) m.dep[i] = maskOf(sel);
            cur.clear();
            for (int i = b; i < at; i++) cur.push_back(i);
            continue;
        } else if (op == 2 && b + 1 < n) { // join of two groups
            auto other = core->handleEventsWith(take(1));
            auto both  = group->And(other);
            cur.push_back(b);
            const int b2 = at;
            group = both->then(take(k));
            for (int i = b2; i < at; i++) m.dep[i] = maskOf(cur);
            std::vector<int> nc;
            for (int i = b2; i < at; i++) nc.push_back(i);
            cur = nc;
            continue;
        } else {
            group = group->then(take(k));
            for (int i = b; i < at; i++) m.dep[i] = maskOf(cur);
        }
        cur.clear();
        for (int i = b; i < at; i++) cur.push_back(i);
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (m.dep[i] & (1u << j)) m.dep[i] |= m.dep[j]; // transitive
    const int nprod = multi ? (int) sim_cfg("nprod", 1, 3) : 1;
    const int total = (int) sim_cfg("total", 1, 20);
    m.total = total;
    core->start();
    std::vector<std::thread> prods;
    int left = total;
    for (int p = 0; p < nprod; p++) {
        int q = p == nprod - 1 ? left : (int) sim_cfg((std::string("quota") + char('0' + p)).c_str(), 0, left);
        left -= q;
        prods.emplace_back([&, p, q] { simpleProducer(m, *core->ringBuffer(), p, q); });
    }
    for (auto &t : prods) t.join();
    sim_until([&] { for (int i = 0; i < n; i++) if (m.running[i] != 1) return false; return true; }, 5000);
    if (sim_cfg_pct("shutdown-timeout", 30)) { // a bounded shutdown either finishes the backlog or says that it did not
        const auto t = 1000 + sim_wl(60, 300000);
        const auto t0 = sim_now();
        try {
            core->shutdown(std::chrono::nanoseconds(t));
        } catch (const std::runtime_error &) {
            SimGuard g;
            sim_probe("shutdown-timed-out");
            SIM_CHECK(sim_now() - t0 >= t, "shutdown-early", "shutdown(%lu ns) gave up after %lu ns", t, sim_now() - t0);
            sim_leave(); sim_calm(); core->shutdown(); sim_enter();
        }
    } else {
        if (sim_cfg_pct("calm", 50)) sim_calm();
        core->shutdown();
    }
    {
        SimGuard g;
        for (int i = 0; i < n; i++) SIM_CHECK(m.next[i] - 1 == m.base + total, "shutdown-backlog", "shutdown returned while consumer %d had processed only %ld of %d events", i, (long) m.next[i] - 1, total);
    }
    sim_calm();
    sched->stop();
    SimGuard g;
    for (int i = 0; i < n; i++) SIM_CHECK(m.running[i] == 0, "lifecycle", "consumer %d was not shut down", i);
    m.final();
}

// ---- worker pool: each event is handled by exactly one worker --------------------------------------------------
struct PoolModel : Model {
    std::map<std::int64_t, int> handled;
    std::map<std::int64_t, std::int64_t> seqOfVal;
    std::size_t size = 0;
    int active[8] = {};
};
struct Work : IWorkHandler<Ev>, ILifecycleAware {
    PoolModel *m; int id; int throwPct;
    Work(PoolModel *mm, int i, int tp) : m(mm), id(i), throwPct(tp) {}
    void onEvent(Ev &e) override {
        if (sim_wl(30 + (unsigned) id, 8) == 0) sim_sleep(sim_wl(30 + (unsigned) id, 50000)); // slow work
        Payload p = readEv(e);
        SimGuard g;
        SIM_CHECK(!p.torn, "torn", "worker %d saw a mixture of two events", id);
        auto it = m->seqOfVal.find(p.v);
        SIM_CHECK(it != m->seqOfVal.end(), "phantom", "worker %d was given value %ld which nobody published", id, (long) p.v);
        const auto s = it->second;
        SIM_CHECK(m->written.count(s), "unpublished", "worker %d was given sequence %ld before it was published", id, (long) s);
        SIM_CHECK(!m->handled.count(s), "handled-twice", "event %ld was handled by worker %d and again by worker %d", (long) s, m->handled[s], id);
        m->handled[s] = id;
        sim_event(0x3000u + (uint64_t) s * 8 + (unsigned) id);
        sim_class((uint64_t) s * 8 + (unsigned) id);
        if (throwPct && (int) sim_wl(20 + (unsigned) id, 100) < throwPct) { m->expectEx(id, s); sim_probe("handler-threw"); throw HThrow(); }
    }
    void onStart() override { SimGuard g; m->running[id]++; }
    void onShutdown() override { SimGuard g; m->running[id]--; }
};
struct PoolExH : ExH { using ExH::ExH; };
template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
void poolRun(int) {
    constexpr bool multi = std::is_same_v<CLAIM<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    PoolModel m;
    m.ncons = 0;
    auto rb = std::make_shared<RingBuffer<Ev, SIZE, WS, CLAIM>>();
    const int nw = (int) sim_cfg("workers", 1, 4);
    const int throwPct = sim_cfg_pct("throws", 30) ? (int) sim_cfg("hthrow", 5, 60) : 0;
    auto sched = std::make_shared<RoundRobinThreadAffinedTaskScheduler>();
    sched->start((std::size_t) nw);
    auto exec = std::make_shared<BasicExecutor>(sched);
    std::vector<std::shared_ptr<IWorkHandler<Ev>>> hs;
    for (int i = 0; i < nw; i++) hs.push_back(std::make_shared<Work>(&m, i, throwPct));
    auto pool = std::make_shared<WorkerPool<Ev>>(rb, newBarrier(rb, {}), std::make_shared<PoolExH>(&m), hs);
    rb->addGatingSequences(pool->getWorkerSequences());
    const int rounds = (int) sim_cfg("rounds", 1, 2);
    for (int r = 0; r < rounds; r++) {
        const int total = (int) sim_cfg(r ? "total1" : "total0", 0, 18);
        const auto base = m.base + m.total;
        m.total += total;
        pool->start(exec);
        const int nprod = multi ? (int) sim_cfg("nprod", 1, 3) : 1;
        std::vector<std::thread> prods;
        int left = total;
        for (int p = 0; p < nprod; p++) {
            int q = p == nprod - 1 ? left : (int) sim_cfg((std::string("quota") + char('0' + p) + char('0' + r)).c_str(), 0, left);
            left -= q;
            prods.emplace_back([&, p, q] {
                int quota = q;
                while (quota > 0) {
                    rb->publishEvent([&](Ev &&e, std::int64_t s) {
                        Payload pl;
                        {
                            SimGuard g;
                            pl = m.claimed(p, s, 1, SIZE);
                            const auto old = s - (std::int64_t) SIZE;
                            SIM_CHECK(old <= -1 || m.handled.count(old), "overwrite", "slot of sequence %ld was given out for %ld before any worker had handled it", (long) old, (long) s);
                            m.seqOfVal[pl.v] = s;
                        }
                        writeEv(e, pl);
                        SimGuard g;
                        m.ready(s);
                    });
                    quota--;
                    if (sim_wl(1 + (unsigned) p, 6) == 0) sim_sleep(sim_wl(1 + (unsigned) p, 30000));
                }
            });
        }
        for (auto &t : prods) t.join();
        sim_until([&] { for (int i = 0; i < nw; i++) if (m.running[i] != 1) return false; return true; }, 5000);
        if (r == rounds - 1) sim_calm();
        pool->drainAndHalt();
        {
            SimGuard g;
            SIM_CHECK((std::int64_t) m.handled.size() == m.total, "drain", "drainAndHalt returned with %zu of %ld events handled", m.handled.size(), (long) m.total);
            (void) base;
        }
        sim_until([&] { for (int i = 0; i < nw; i++) if (m.running[i] != 0) return false; return true; }, 5000);
        sim_sleep(500000);
        if (r) sim_probe("pool-restarted");
    }
    sched->stop();
    SimGuard g;
    m.final();
}

// ---- consumers joining and leaving a live ring -----------------------------------------------------------------
template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
void dynRun(int) {
    constexpr bool multi = std::is_same_v<CLAIM<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    Model m;
    auto rb = std::make_shared<RingBuffer<Ev, SIZE, WS, CLAIM>>();
    const int njoin = (int) sim_cfg("joiners", 1, 3);
    const int total = (int) sim_cfg("total", 4, 30);
    const int nprod = multi ? (int) sim_cfg("nprod", 1, 2) : 1;
    m.total = total;
    m.ncons = 1; // consumer 0 is there from the beginning, until the end
    auto po0 = rb->newPoller();
    rb->addGatingSequences({ po0->sequence() });
    bool stop = false;
    std::vector<std::thread> ths;
    // a joiner occupies model slot 1+j while it is attached; the model only counts attached consumers
    struct Att { bool on = false; std::int64_t next = 0; } att[8];
    auto overwritten = [&](std::int64_t s) {
        const auto old = s - (std::int64_t) SIZE;
        for (int j = 0; j < njoin; j++)
            SIM_CHECK(!att[j].on || att[j].next > old, "overwrite", "slot of sequence %ld was given out for %ld while attached consumer %d has only processed up to %ld", (long) old, (long) s, j, (long) att[j].next - 1);
    };
    std::vector<std::thread> prods;
    int left = total;
    for (int p = 0; p < nprod; p++) {
        int q = p == nprod - 1 ? left : (int) sim_cfg((std::string("quota") + char('0' + p)).c_str(), 0, left);
        left -= q;
        prods.emplace_back([&, p, q] {
            int quota = q;
            while (quota-- > 0) {
                std::int64_t s = rb->next();
                Payload pl;
                { SimGuard g; pl = m.claimed(p, s, 1, SIZE); overwritten(s); }
                writeEv((*rb)[s], pl);
                { SimGuard g; m.ready(s); }
                rb->publish(s);
            }
        });
    }
    ths.emplace_back([&] {
        while (true) {
            { SimGuard g; if (m.next[0] == m.base + 1 + total) break; }
            auto st = po0->poll([&](Ev &e, std::int64_t s, bool eob) { Payload p = readEv(e); SimGuard g; m.consumed(0, s, p, eob); });
            if (st != PollState::Processing) sim_sleep(1000);
        }
    });
    for (int j = 0; j < njoin; j++) {
        ths.emplace_back([&, j] {
            const int times = 1 + (int) sim_wl(10 + (unsigned) j, 3);
            for (int k = 0; k < times; k++) {
                sim_sleep(sim_wl(10 + (unsigned) j, 20000));
                auto po = rb->newPoller();
                rb->addGatingSequences({ po->sequence() });
                { SimGuard g; att[j].on = true; att[j].next = po->sequence()->value() + 1; sim_probe("joined-live"); }
                int want = 1 + (int) sim_wl(10 + (unsigned) j, 12), got = 0, idle = 0;
                while (got < want) {
                    { SimGuard g; if (att[j].next == m.base + 1 + total) break; }
                    auto st = po->poll([&](Ev &e, std::int64_t s, bool) {
                        Payload p = readEv(e);
                        SimGuard g;
                        SIM_CHECK(s == att[j].next, "joiner-gap", "a consumer that joined at %ld was given %ld", (long) att[j].next, (long) s);
                        SIM_CHECK(m.written.count(s) && !p.torn && p.v == m.val[s], "joiner-payload", "a consumer that joined the live ring saw a wrong event at %ld", (long) s);
                        att[j].next++;
                        got++;
                        return got < want;
                    });
                    if (st != PollState::Processing) { sim_sleep(2000); if (++idle > 4000) break; } else idle = 0;
                }
                if (sim_wl(10 + (unsigned) j, 2)) sim_sleep(sim_wl(10 + (unsigned) j, 60000)); // a consumer that stopped consuming blocks the producers until it leaves
                { SimGuard g; att[j].on = false; }
                const bool removed = rb->removeGatingSequence(po->sequence());
                SimGuard g;
                SIM_CHECK(removed, "remove", "an attached gating sequence could not be removed");
                sim_leave();
                const bool again = rb->removeGatingSequence(po->sequence());
                sim_enter();
                SIM_CHECK(!again, "remove", "a gating sequence could be removed twice");
                sim_probe("left-live");
            }
        });
    }
    sim_sleep(sim_wl(9, 40000));
    sim_calm();
    for (auto &t : prods) t.join();
    for (auto &t : ths) t.join();
    (void) stop;
    SimGuard g;
    SIM_CHECK(rb->getGatingSequences()->size() == 1, "gating-list", "%zu gating sequences left, expected 1", rb->getGatingSequences()->size());
    m.final();
}
} // namespace
#define SHAPES(fn) \
    switch (sim_cfg("shape", 0, 3)) { \
    case 0: return fn<4, SingleThreadedStrategy>(mode); \
    case 1: return fn<4, MultiThreadedStrategy>(mode); \
    case 2: return fn<16, SingleThreadedStrategy>(mode); \
    default: return fn<8, MultiThreadedStrategy>(mode); \
    }
void CAT(dag_part, PART)(int mode) { SHAPES(dagRun) }
void CAT(pool_part, PART)(int mode) { SHAPES(poolRun) }
void CAT(dyn_part, PART)(int mode) { SHAPES(dynRun) }
