// Core primitives: reader/writer lock, atomic mutex, spin-until, blocking queue, round-robin scheduler.
#include "../sim/simxx.hpp"
#include <atomic>
#include <array>
#include <chrono>
#include <cstdint>
#include <functional>
#include <limits>
#include <stdexcept>
#include <map>
#include <set>
#include <future>
#include <memory>
#include <string>
#include <ReaderWriterLock.hpp>
#include <SpinWait.hpp>
#include <disruptor/BlockingQueue.hpp>
#include <disruptor/RoundRobinThreadAffinedTaskScheduler.hpp>
using namespace opencmw;
using RWT = ReaderWriterLockType;

// ---------------------------------------------------------------- reader/writer lock
namespace {
struct RwModel {
    // per thread: 0 idle, 1 acquiring, 2 holds, 3 releasing; kind 0 reader, 1 writer
    int state[8] = {}, kind[8] = {};
    unsigned long epoch[8] = {}; // number of state changes of a thread
    int n = 0;
    void set(int t, int s) { state[t] = s; epoch[t]++; }
    int holders(int k, int self) const { int r = 0; for (int i = 0; i < n; i++) r += i != self && state[i] == 2 && kind[i] == k; return r; }
    int busy(int k, int self) const { int r = 0; for (int i = 0; i < n; i++) r += i != self && state[i] != 0 && kind[i] == k; return r; }
    void acquired(int t) {
        set(t, 2);
        SIM_CHECK(holders(!kind[t], t) == 0, "exclusion", "a %s holds the lock together with a %s", kind[t] ? "writer" : "reader", kind[t] ? "reader" : "writer");
        if (holders(kind[t], t)) sim_probe(kind[t] ? "writers-together" : "readers-together");
        sim_class((uint64_t) (t * 4 + kind[t]));
        sim_event(0x3000u + (unsigned) (t * 4 + kind[t]));
    }
};
struct Snap { unsigned long e[8]; int s[8], k[8]; };
Snap snap(const RwModel &m) { Snap s; for (int i = 0; i < 8; i++) { s.e[i] = m.epoch[i]; s.s[i] = m.state[i]; s.k[i] = m.kind[i]; } return s; }
// threads that held the lock with kind k during the whole interval since the snapshot
int heldThroughout(const RwModel &m, const Snap &s, int k, int self) { int r = 0; for (int i = 0; i < m.n; i++) r += i != self && s.s[i] == 2 && s.k[i] == k && s.e[i] == m.epoch[i]; return r; }
// threads that may have held it with any kind at some moment of the interval
int activeSometime(const RwModel &m, const Snap &s, int self) { int r = 0; for (int i = 0; i < m.n; i++) r += i != self && (s.s[i] != 0 || s.e[i] != m.epoch[i]); return r; }

template<RWT K>
void rwOps(ReaderWriterLock &l, RwModel &m, int t, int how, long (&data)[4], long &written) {
    constexpr int k = K == RWT::WRITE;
    Snap s0;
    { SimGuard g; m.kind[t] = k; m.set(t, 1); s0 = snap(m); }
    bool scoped = false, got = true;
    std::int64_t v = 0;
    auto body = [&] {
        if (k == 0) {
            long a = data[0], b = data[1], c = data[2], d = data[3];
            SimGuard g;
            SIM_CHECK(a == b && b == c && c == d, "torn-read", "a reader saw the protected data change: %ld %ld %ld %ld", a, b, c, d);
        } else {
            // several writers may share the write side: only a lone writer touches the data
            bool alone;
            { SimGuard g; alone = written == 0; if (alone) written = 1; }
            if (alone) {
                for (auto &x : data) x++;
                SimGuard g; written = 0;
            } else { sim_point(); }
        }
    };
    if (how == 0) {
        auto guard = l.scopedGuard<K>();
        scoped = true;
        { SimGuard g; m.acquired(t); }
        body();
        { SimGuard g; m.set(t, 3); }
    } else if (how == 1) {
        v = l.lock<K>();
        {
            SimGuard g;
            // the returned count includes the caller: signed, negative for writers
            const long c = k ? -v : v;
            const int lo = 1 + heldThroughout(m, s0, k, t), hi = 1 + activeSometime(m, s0, t);
            SIM_CHECK(c >= lo && c <= hi, "holder-count", "lock() of a %s reported %ld holders, between %d and %d are possible", k ? "writer" : "reader", c, lo, hi);
            m.acquired(t);
        }
        body();
    } else {
        got = l.tryLock<K>() != 0;
        SimGuard g;
        if (got) {
            SIM_CHECK(heldThroughout(m, s0, !k, t) == 0, "try-exclusion", "try-lock succeeded although the other kind held the lock all the time");
            m.acquired(t);
        } else {
            sim_probe("try-failed");
            SIM_CHECK(activeSometime(m, s0, t) > 0, "try-refused", "try-lock failed although nobody else used the lock");
            m.set(t, 0);
        }
    }
    if (scoped) { SimGuard g; m.set(t, 0); return; }
    if (!got) return;
    if (how == 2) body();
    Snap s1;
    { SimGuard g; m.set(t, 3); s1 = snap(m); }
    v = l.unlock<K>();
    SimGuard g;
    {
        const long c = k ? -v : v;
        const int lo = heldThroughout(m, s1, k, t), hi = activeSometime(m, s1, t);
        SIM_CHECK(c >= lo && c <= hi, "holder-count", "unlock() of a %s reported %ld remaining holders, between %d and %d are possible", k ? "writer" : "reader", c, lo, hi);
    }
    m.set(t, 0);
}
} // namespace

SIM_SCENARIO(rwlock) {
    ReaderWriterLock l;
    RwModel m;
    long data[4] = {}, written = 0;
    m.n = (int) sim_cfg("threads", 2, 5);
    const int ops = (int) sim_cfg("ops", 1, 8);
    const int wpct = (int) sim_cfg("writers", 10, 90);
    std::vector<std::thread> ths;
    for (int t = 0; t < m.n; t++)
        ths.emplace_back([&, t] {
            for (int i = 0; i < ops; i++) {
                const int how = (int) sim_wl(1 + (unsigned) t, 3);
                if ((int) sim_wl(1 + (unsigned) t, 100) < wpct) rwOps<RWT::WRITE>(l, m, t, how, data, written);
                else rwOps<RWT::READ>(l, m, t, how, data, written);
                if (sim_wl(1 + (unsigned) t, 3) == 0) sim_yield();
            }
        });
    sim_sleep(1000 + sim_wl(9, 40000));
    sim_calm();
    for (auto &t : ths) t.join();
    SIM_CHECK(l.value() == 0, "not-released", "lock counter is %ld after everybody released it", (long) l.value());
    SIM_CHECK(l.tryLock<RWT::READ>() && l.unlock<RWT::READ>() == 0, "not-released", "the free lock cannot be read-locked");
    SIM_CHECK(l.tryLock<RWT::WRITE>() && l.unlock<RWT::WRITE>() == 0, "not-released", "the free lock cannot be write-locked");
}

// ---------------------------------------------------------------- atomic mutex and spin waiting
namespace {
struct SpinAdapter { SpinWait<> w; void spin_once() { w.spinOnce(); } void reset() { w.reset(); } };
template<typename M>
void mutexRun() {
    M mtx;
    const int n = (int) sim_cfg("threads", 2, 4), ops = (int) sim_cfg("ops", 1, 8);
    int inside = 0;
    long data[3] = {};
    std::vector<std::thread> ths;
    for (int t = 0; t < n; t++)
        ths.emplace_back([&, t] {
            for (int i = 0; i < ops; i++) {
                mtx.lock();
                { SimGuard g; SIM_CHECK(++inside == 1, "mutex-exclusion", "%d threads are inside the mutex", inside); sim_class((unsigned) t); sim_event((unsigned) t + 0x4000); }
                long a = data[0];
                data[1] = a + 1; data[2] = a + 1; data[0] = a + 1;
                { SimGuard g; inside--; }
                mtx.unlock();
            }
        });
    sim_sleep(1000 + sim_wl(9, 40000));
    sim_calm();
    for (auto &t : ths) t.join();
    SIM_CHECK(data[0] == (long) n * ops && data[1] == data[0] && data[2] == data[0], "lost-update", "%ld increments of %d survived", data[0], n * ops);
}
} // namespace
SIM_SCENARIO(amutex) {
    if (sim_cfg_pct("spinning", 50)) mutexRun<AtomicMutex<SpinAdapter>>();
    else mutexRun<AtomicMutex<>>();
}

SIM_SCENARIO(spin_until) {
    // one thread sets the flag at some simulated time; several others wait for it with different time-outs
    std::atomic<bool> flag{ false };
    const uint64_t setAt = 1 + (uint64_t) sim_cfg("setat_us", 0, 6000) * 1000;
    const bool never = sim_cfg_pct("never", 30);
    const int n = (int) sim_cfg("waiters", 1, 3);
    std::vector<std::thread> ths;
    uint64_t tset = 0;
    int infinite = 0;
    for (int t = 0; t < n; t++) {
        static const int touts[] = { -1, 0, 1, 2, 3, 7, 50 };
        int to = touts[sim_wl(2, 7)];
        const bool plain = to == -1 && sim_wl(2, 2);
        if (never && to == -1) to = 2;
        if (to == -1) infinite++;
        ths.emplace_back([&, to, plain] {
            uint64_t t0 = sim_now();
            bool seen = false, seenInCall = false;
            SpinWait<> w;
            auto cond = [&]() noexcept { seenInCall = true; bool b = flag.load(); if (b) seen = true; return b; };
            bool r = plain && to == -1 ? w.spinUntil(cond) : w.spinUntil(cond, to);
            uint64_t dt = sim_now() - t0;
            SimGuard g;
            sim_event((r ? 0x5001u : 0x5000u) + (unsigned) to * 2);
            sim_class((r ? 1u : 0u) + (unsigned) (to + 2) * 2);
            SIM_CHECK(r == seen && seenInCall, "spin-result", "spinUntil(timeout %d) returned %d, the condition was seen %s", to, r, seen ? "true" : "false");
            if (!r) {
                SIM_CHECK(to != -1, "spin-gave-up", "spinUntil without time-out gave up after %lu us", dt / 1000);
                SIM_CHECK(to == 0 || dt + 1000000 > (uint64_t) to * 1000000, "spin-early", "spinUntil(timeout %d ms) gave up after %lu us", to, dt / 1000);
                sim_probe("spin-timeout");
            } else sim_probe("spin-satisfied");
            try { (void) 0; } catch (...) {}
        });
    }
    sim_sleep(setAt);
    if (!never) { flag.store(true); tset = sim_now(); }
    sim_calm();
    sim_time_limits(0, 20'000'000'000ull);
    for (auto &t : ths) t.join();
    bool threw = false;
    try { SpinWait<> w; (void) w.spinUntil([]() noexcept { return true; }, -2); } catch (const std::out_of_range &) { threw = true; }
    SIM_CHECK(threw, "spin-range", "a time-out below -1 is accepted");
    (void) tset;
}

// ---------------------------------------------------------------- blocking queue
SIM_SCENARIO(bqueue) {
    struct Item { int prod = -1; long seq = 0; std::string tag; };
    disruptor::BlockingQueue<Item> q;
    const int np = (int) sim_cfg("producers", 1, 3), nc = (int) sim_cfg("consumers", 1, 3);
    const int per = (int) sim_cfg("items", 1, 8);
    const int total = np * per;
    struct M {
        std::map<std::pair<int, long>, int> st; // 1 push started, 2 push done, 3 taken
        long lastTakenStart[4] = { -1, -1, -1, -1 };
        int taken = 0, wanted = 0, pushedDone = 0;
    } m;
    // the number of takes is distributed so that each item is wanted by exactly one take
    std::vector<std::thread> ths;
    int inTake = 0;
    // order of completed pushes: an item whose push had returned before another push started must leave first
    std::map<std::pair<int, long>, std::set<std::pair<int, long>>> before;
    for (int p = 0; p < np; p++)
        ths.emplace_back([&, p] {
            for (long s = 0; s < per; s++) {
                Item it{ p, s, "item-" + std::to_string(p * 1000 + s) + "-with-a-long-tail-on-the-heap" };
                {
                    SimGuard g;
                    auto &b = before[{ p, s }];
                    for (auto &[k, v] : m.st) if (v >= 2) b.insert(k);
                    m.st[{ p, s }] = 1;
                }
                if (sim_wl(1 + (unsigned) p, 2)) q.push(std::move(it)); else q.push(it);
                { SimGuard g; auto &x = m.st[{ p, s }]; if (x == 1) { x = 2; } m.pushedDone++; }
            }
        });
    for (int c = 0; c < nc; c++)
        ths.emplace_back([&, c] {
            while (true) {
                { SimGuard g; if (m.wanted >= total) return; m.wanted++; inTake++; }
                Item it;
                while (true) {
                    const bool timed = sim_wl(10 + (unsigned) c, 2);
                    std::set<std::pair<int, long>> therAtStart;
                    if (timed) {
                        const uint64_t d = 1 + sim_wl(10 + (unsigned) c, 800) * 1000;
                        uint64_t t0 = sim_now();
                        if (!q.timedWaitAndPop(it, std::chrono::nanoseconds(d))) {
                            SimGuard g;
                            sim_probe("pop-timeout");
                            SIM_CHECK(sim_now() - t0 >= d, "pop-early", "timed pop gave up after %lu of %lu ns", sim_now() - t0, d);
                            // items that were available during the whole wait: more of them than other takers
                            continue;
                        }
                    } else {
                        it = q.pop();
                    }
                    break;
                }
                SimGuard g;
                inTake--;
                auto f = m.st.find({ it.prod, it.seq });
                SIM_CHECK(f != m.st.end(), "phantom", "popped an item nobody pushed");
                SIM_CHECK(f->second != 3, "popped-twice", "item %d/%ld was popped twice", it.prod, it.seq);
                SIM_CHECK(it.tag == "item-" + std::to_string(it.prod * 1000 + it.seq) + "-with-a-long-tail-on-the-heap", "torn", "item %d/%ld arrived damaged: '%s'", it.prod, it.seq, it.tag.c_str());
                // FIFO: of the items that were completely pushed before this one was started, all must have been taken
                // except those that another taker may have removed already without having returned yet
                int pending = 0;
                for (auto &k : before[{ it.prod, it.seq }]) pending += m.st[k] != 3;
                SIM_CHECK(pending <= inTake, "order", "item %d/%ld overtook %d earlier items, only %d other takers are active", it.prod, it.seq, pending, inTake);
                f->second = 3;
                m.taken++;
                sim_event(0x6000u + (unsigned) it.prod * 64 + (unsigned) it.seq + (unsigned) c * 0x10000);
                sim_class((unsigned) it.prod * 64 + (unsigned) it.seq + (unsigned) c * 0x10000);
            }
        });
    sim_sleep(1000 + sim_wl(9, 200000));
    sim_calm();
    sim_time_limits(0, 60'000'000'000ull);
    for (auto &t : ths) t.join();
    SIM_CHECK(m.taken == total && q.empty(), "lost", "%d of %d items were popped, queue %s", m.taken, total, q.empty() ? "empty" : "not empty");
}

// ---------------------------------------------------------------- round-robin scheduler
SIM_SCENARIO(rrsched) {
    const int nt = (int) sim_cfg("threads", 1, 3), ns = (int) sim_cfg("submitters", 1, 2), per = (int) sim_cfg("tasks", 1, 6);
    const bool early = sim_cfg_pct("early-stop", 40); // stop while tasks may be pending
    const bool submitFirst = sim_cfg_pct("submit-first", 30);
    auto s = std::make_unique<disruptor::RoundRobinThreadAffinedTaskScheduler>();
    std::vector<int> ran((size_t) (ns * per));
    int running = 0;
    std::vector<std::vector<std::future<void>>> fut((size_t) ns);
    std::vector<std::thread> ths;
    if (!submitFirst) s->start((size_t) nt);
    for (int u = 0; u < ns; u++)
        ths.emplace_back([&, u] {
            for (int i = 0; i < per; i++) {
                const int id = u * per + i;
                const bool thr = sim_wl(1 + (unsigned) u, 4) == 0;
                fut[(size_t) u].push_back(s->scheduleAndStart(std::packaged_task<void()>([&, id, thr] {
                    { SimGuard g; SIM_CHECK(++ran[(size_t) id] == 1, "ran-twice", "task %d was executed twice", id); running++; SIM_CHECK(running <= nt, "too-parallel", "%d tasks run on %d threads", running, nt); sim_event(0x7000u + (unsigned) id); sim_class((unsigned) id); }
                    if (sim_wl(30, 3) == 0) sim_sleep(sim_wl(30, 30000));
                    else sim_point();
                    { SimGuard g; running--; }
                    if (thr) throw std::runtime_error("task");
                })));
            }
        });
    for (auto &t : ths) t.join();
    ths.clear();
    if (submitFirst) s->start((size_t) nt);
    sim_sleep(1000 + sim_wl(9, 100000));
    sim_calm();
    sim_time_limits(0, 60'000'000'000ull);
    if (early) sim_probe("early-stop");
    else
        for (auto &v : fut)
            for (auto &f : v) f.wait();
    s->stop();
    { SimGuard g; SIM_CHECK(running == 0, "stop-running", "stop() returned while %d tasks are still running", running); }
    s.reset();
    int id = 0;
    for (auto &v : fut)
        for (auto &f : v) {
            const bool broken = [&] { try { f.get(); return false; } catch (const std::future_error &) { return true; } catch (const std::runtime_error &) { return false; } }();
            const int r = ran[(size_t) id];
            SIM_CHECK(broken == (r == 0), "future-result", "task %d ran %d times but its future says %s", id, r, broken ? "never" : "done");
            SIM_CHECK(r == 1 || early, "not-run", "task %d was never executed", id);
            if (broken) sim_probe("dropped-at-stop");
            id++;
        }
}
