// Thread pool: exactly-once execution, futures, wake-ups, size, priorities, shutdown.
#include "../sim/simxx.hpp"
#include <array>
#include <atomic>
#include <memory>
#include <optional>
#include <vector>
#include <print>
#include <ThreadPool.hpp>
using namespace opencmw;
using namespace std::chrono_literals;

namespace {
struct PModel {
    std::vector<int> ran, done;
    int running = 0, inNested = 0;
    bool closed = false;
    int add() { SimGuard g; ran.push_back(0); done.push_back(0); return (int) ran.size() - 1; }
    void start(int id) {
        SimGuard g;
        SIM_CHECK(!closed, "ran-after-shutdown", "task %d started after the pool was destroyed", id);
        SIM_CHECK(++ran[(size_t) id] == 1, "ran-twice", "task %d was executed twice", id);
        running++;
        if (running > 1) sim_probe("tasks-in-parallel");
        sim_event(0x8000u + (unsigned) id);
        sim_class((unsigned) id);
    }
    void end(int id) { SimGuard g; done[(size_t) id] = 1; running--; }
};
struct TaskErr : std::runtime_error { int id; explicit TaskErr(int i) : std::runtime_error("task-err"), id(i) {} };
struct Pending { int id; int kind; std::future<std::string> f; };
std::string valueOf(int id) { return "value-of-task-" + std::to_string(id) + "-long-enough-to-live-on-the-heap"; }

template<TaskType TT>
struct Sub {
    BasicThreadPool<TT> &pool;
    PModel &m;
    int stream;
    std::vector<Pending> pend;
    bool nested;
    int *budget; // nested submissions still allowed (an IO_BOUND pool whose workers all submit is a known finding)
    void one() {
        const int id = m.add();
        const auto k = sim_wl((unsigned) stream, 7);
        auto work = [&m = m, id, d = sim_wl((unsigned) stream, 3) ? 0 : sim_wl((unsigned) stream, 30000)] {
            m.start(id);
            if (d) sim_sleep(d); else sim_point();
        };
        switch (k) {
        case 0: pool.execute([&m = m, id, work] { work(); m.end(id); }); break;
        case 1: pool.template execute<"named">([&m = m, id, work] { work(); m.end(id); }); break;
        case 2: pool.template execute<"", 3>([&m = m, id, work] { work(); m.end(id); }); break;
        case 3: pend.push_back({ id, 0, pool.execute([&m = m, id, work] { work(); m.end(id); return valueOf(id); }) }); break;
        case 4: pend.push_back({ id, 1, pool.execute([&m = m, id, work]() -> std::string { work(); m.end(id); throw TaskErr(id); }) }); break;
        case 5: // generic callable with bound arguments
            pool.execute([&m = m, work](auto... a) { work(); const int ids[] = { 0, (int) a... }; m.end(ids[1]); }, id);
            break;
        default: {
            bool allowed = false;
            if (nested) { SimGuard g; if (*budget > 0) { --*budget; allowed = true; } }
            if (allowed) {
                const int id2 = m.add();
                pool.execute([&m = m, &pool = pool, id, id2, work] {
                    work();
                    { SimGuard g; m.inNested++; }
                    pool.execute([&m, id2] { m.start(id2); sim_point(); m.end(id2); });
                    { SimGuard g; m.inNested--; }
                    m.end(id);
                });
                sim_probe("nested-submit");
            } else
                pend.push_back({ id, 0, pool.template execute<"x", 7>([&m = m, id, work] { work(); m.end(id); return valueOf(id); }) });
        }
        }
    }
    // mayDrop: the pool was shut down with tasks pending
    void collect(bool mayDrop) {
        for (auto &p : pend) {
            try {
                const std::string v = p.f.get();
                SimGuard g;
                SIM_CHECK(p.kind == 0 && v == valueOf(p.id), "future-value", "future of task %d delivered '%s'", p.id, v.c_str());
                SIM_CHECK(m.ran[(size_t) p.id] == 1, "future-early", "future of task %d is ready but it never ran", p.id);
            } catch (const TaskErr &e) {
                SimGuard g;
                SIM_CHECK(p.kind == 1 && e.id == p.id, "future-exception", "future of task %d delivered the exception of task %d", p.id, e.id);
            } catch (const std::future_error &) {
                SimGuard g;
                SIM_CHECK(mayDrop && m.ran[(size_t) p.id] == 0, "future-broken", "future of task %d was abandoned although it %s", p.id, m.ran[(size_t) p.id] ? "ran" : "was accepted and the pool is alive");
                sim_probe("dropped-at-shutdown");
            }
        }
    }
};

template<TaskType TT>
void poolRun(int mode) { // 0: complete everything; 1: shut down with work pending; 2: as 0 with unlimited nested submission
    const bool unlimited = mode == 2;
    if (mode == 2) mode = 0;
    PModel m;
    const auto mn = (uint32_t) sim_cfg("min", 1, 3), mx = mn + (uint32_t) sim_cfg("extra", 0, 2);
    const int ns = (int) sim_cfg("submitters", 1, 3), per = (int) sim_cfg("tasks", 1, 6);
    const bool shortKA = mode == 0 && sim_cfg_pct("short-keepalive", 40);
    const bool initWait = sim_cfg_pct("wait-init", 50);
    const bool idleFirst = sim_cfg_pct("idle-first", 50);
    const bool reqShut = sim_cfg_pct("request-shutdown", 40);
    const bool nested = mode == 0;
    int budget = TT == IO_BOUND && !unlimited ? (int) mx : 1000;
    int submitting = ns;
    auto pool = std::make_unique<BasicThreadPool<TT>>("pool", mn, mx);
    pool->keepAliveDuration = shortKA ? std::chrono::milliseconds(2) : std::chrono::milliseconds(1000ll * 3600 * 24 * 365);
    auto sizeOk = [&] {
        const auto n = pool->numThreads();
        SimGuard g;
        SIM_CHECK(n >= mn || !initWait, "below-minimum", "the initialised pool has %zu threads, the minimum is %u", n, mn);
    };
    if (initWait) {
        pool->waitUntilInitialised();
        SIM_CHECK(pool->isInitialised(), "init", "waitUntilInitialised returned before initialisation");
        sizeOk();
    }
    if (idleFirst) sim_sleep(200000 + sim_wl(9, 3000000)); // workers go to sleep before the first task
    std::vector<std::unique_ptr<Sub<TT>>> subs;
    std::vector<std::thread> ths;
    for (int s = 0; s < ns; s++) {
        subs.push_back(std::make_unique<Sub<TT>>(*pool, m, 1 + s, std::vector<Pending>{}, nested, &budget));
        ths.emplace_back([&, s] {
            for (int i = 0; i < per; i++) {
                subs[(size_t) s]->one();
                sizeOk();
                const auto p = sim_wl(1 + (unsigned) s, 4);
                if (p == 0) sim_sleep(sim_wl(1 + (unsigned) s, 400000));
                else if (p == 1 && !shortKA) sim_sleep(3000000); // long pause: workers are asleep again
            }
            if (mode == 0) subs[(size_t) s]->collect(false);
            { SimGuard g; submitting--; }
        });
    }
    sim_sleep(1000 + sim_wl(9, 300000));
    if (mode == 0) {
        sim_calm();
        sim_time_limits(0, 100'000'000'000ull);
    }
    const uint64_t t0 = sim_now();
    auto livelock = [&] { // every worker sits in a nested submission, waiting for a free worker, and the pool may not grow any more
        if (unlimited && TT == IO_BOUND && sim_now() - t0 > 300'000'000ull && m.inNested == m.running && (uint32_t) m.inNested > mx)
            sim_fail("nested-submit-livelock", "all %d workers of an IO_BOUND pool with maximum %u wait inside nested submissions for each other", m.inNested, mx);
    };
    if (unlimited) sim_until([&] { livelock(); return submitting == 0; });
    for (auto &t : ths) t.join();
    if (mode == 0) {
        sim_until([&] { livelock(); for (int d : m.done) if (!d) return false; return true; });
        sim_until([&] { return pool->numTasksQueued() == 0 && pool->numTasksRunning() == 0; });
        if (shortKA) { sim_until([&] { return pool->numThreads() <= mn; }, 500000); sim_probe("shrunk-to-minimum"); }
        sizeOk();
    } else {
        sim_calm();
        sim_time_limits(0, 100'000'000'000ull);
    }
    if (reqShut) {
        pool->requestShutdown();
        SIM_CHECK(pool->isShutdown(), "shutdown-flag", "isShutdown() is false after requestShutdown()");
        SimGuard g;
        SIM_CHECK(m.running == 0, "shutdown-running", "requestShutdown() returned while %d tasks are still running", m.running);
    }
    pool.reset();
    {
        SimGuard g;
        m.closed = true;
        SIM_CHECK(m.running == 0, "destroyed-running", "the pool was destroyed while %d tasks are still running", m.running);
    }
    if (mode == 1)
        for (auto &s : subs) s->collect(true);
    SimGuard g;
    for (size_t i = 0; i < m.ran.size(); i++) SIM_CHECK(m.ran[i] == m.done[i] && (mode == 1 || m.ran[i] == 1), "not-run", "task %zu ran %d times, completed %d", i, m.ran[i], m.done[i]);
}
} // namespace

SIM_SCENARIO(tpool) { if (sim_cfg_pct("io", 50)) poolRun<IO_BOUND>(0); else poolRun<CPU_BOUND>(0); }
SIM_SCENARIO(tpool_nested) { if (sim_cfg_pct("io", 60)) poolRun<IO_BOUND>(2); else poolRun<CPU_BOUND>(2); }
SIM_SCENARIO(tpool_stop) { if (sim_cfg_pct("io", 40)) poolRun<IO_BOUND>(1); else poolRun<CPU_BOUND>(1); }

static void tpool_prio_round(BasicThreadPool<CPU_BOUND> &pool, int r, bool last) {
    static const char *names[3][2] = { { "tasks", "submitters" }, { "tasks2", "submitters2" }, { "tasks3", "submitters3" } };
    std::atomic<int> gate{ 0 };
    bool started = false;
    pool.execute([&] { { SimGuard g; started = true; } gate.wait(0); });
    sim_until([&] { return started; });
    struct T { int prio, age; };
    std::vector<T> order;
    const int n = (int) sim_cfg(names[r][0], 2, r ? 6 : 12);
    std::vector<T> all;
    const int nsub = (int) sim_cfg(names[r][1], 1, 2);
    std::vector<std::thread> ths;
    int age = 0;
    std::vector<std::pair<uint64_t, uint64_t>> span; // push interval in scheduling order, for concurrent submitters
    uint64_t tick = 0;
    for (int s = 0; s < nsub; s++)
        ths.emplace_back([&, s] {
            for (int i = 0; i < n; i++) {
                int id, pr = (int) sim_wl(1 + (unsigned) s + 8 * (unsigned) r, 4);
                { SimGuard g; id = age++; all.push_back({ pr, id }); span.push_back({ ++tick, 0 }); }
                auto f = [&, id] { SimGuard g; order.push_back(all[(size_t) id]); };
                switch (pr) {
                case 0: pool.execute(f); break;
                case 1: pool.execute<"", 1>(f); break;
                case 2: pool.execute<"", 5>(f); break;
                default: pool.execute<"", 9>(f); break;
                }
                SimGuard g;
                span[(size_t) id].second = ++tick;
            }
        });
    for (auto &t : ths) t.join();
    SIM_CHECK(pool.numTasksQueued() == (size_t) (n * nsub), "queued-count", "%zu tasks queued, expected %d", pool.numTasksQueued(), n * nsub);
    if (last) { sim_calm(); sim_time_limits(0, 100'000'000'000ull); }
    gate = 1;
    gate.notify_all();
    sim_until([&] { return order.size() == all.size(); });
    SimGuard g;
    for (size_t i = 0; i < order.size(); i++)
        for (size_t j = i + 1; j < order.size(); j++) {
            const T &a = order[i], &b = order[j];
            SIM_CHECK(a.prio >= b.prio, "priority", "a task of priority class %d ran before one of class %d that was already queued", a.prio, b.prio);
            SIM_CHECK(a.prio != b.prio || span[(size_t) b.age].second > span[(size_t) a.age].first, "fifo", "two tasks of the same priority ran in reverse submission order");
            sim_class((uint64_t) a.age * 64 + (uint64_t) b.age);
        }
    // the worker has given all tasks back before the next round blocks it again
}
SIM_SCENARIO(tpool_prio) {
    // one worker is kept busy while tasks of different priority are queued: they leave by priority, then by age
    BasicThreadPool<CPU_BOUND> pool("prio", 1, 1);
    pool.keepAliveDuration = std::chrono::milliseconds(1000ll * 3600 * 24 * 365);
    pool.waitUntilInitialised();
    const int rounds = (int) sim_cfg("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) tpool_prio_round(pool, r, r + 1 == rounds);
}
