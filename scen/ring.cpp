// Disruptor ring buffer: claims, publication, batch processors, pollers, dependency chains, halts.
// Compiled several times with -DPART=<n> (one wait strategy each) so that the template instantiations build in parallel.
#include "../sim/simxx.hpp"
#include "ring_common.hpp"
#include <disruptor/Disruptor.hpp>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/BatchEventProcessor.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <disruptor/IgnoreExceptionHandler.hpp>
using namespace opencmw::disruptor;

struct TimeoutWS : TimeoutBlockingWaitStrategy {
    TimeoutWS() : TimeoutBlockingWaitStrategy(std::chrono::microseconds(300)) {}
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if PART == 0
using WS = BlockingWaitStrategy;
#elif PART == 1
using WS = BusySpinWaitStrategy;
#elif PART == 2
using WS = SleepingWaitStrategy;
#elif PART == 3
using WS = SpinWaitWaitStrategy;
#elif PART == 4
using WS = TimeoutWS;
#elif PART == 5
using WS = YieldingWaitStrategy;
#endif

namespace {

struct HandlerThrow : std::runtime_error { HandlerThrow() : std::runtime_error("handler") {} };

struct Handler : IEventHandler<Ev>, ILifecycleAware, ITimeoutHandler {
    Model *m; int id; int throwPct; int starts = 0, stops = 0; std::int64_t threwAt = -2;
    Handler(Model *mm, int i, int tp) : m(mm), id(i), throwPct(tp) {}
    void onEvent(Ev &e, std::int64_t seq, bool eob) override {
        Payload p = readEv(e);
        SimGuard g;
        m->consumed(id, seq, p, eob);
        if (throwPct && (int) (sim_wl(20, 100)) < throwPct) { sim_probe("handler-threw"); threwAt = seq; m->expectEx(id, seq); throw HandlerThrow(); }
    }
    void onStart() override { SimGuard g; starts++; m->running[id]++; sim_event(0x57a47 + (unsigned) id); }
    void onShutdown() override { SimGuard g; stops++; m->running[id]--; }
    void onTimeout(std::int64_t s) override {
        SimGuard g;
        sim_probe("wait-timeout-callback");
        SIM_CHECK(s == m->next[id] - 1, "timeout-seq", "timeout callback of consumer %d reports sequence %ld, last processed is %ld", id, (long) s, (long) m->next[id] - 1);
    }
};
struct ExH : IExceptionHandler<Ev> {
    Model *m; explicit ExH(Model *mm) : m(mm) {}
    void handleEventException(const std::exception &ex, std::int64_t seq, Ev &e) override {
        Payload p = readEv(e);
        SimGuard g;
        m->gotEx(seq, p, ex.what());
    }
    void handleOnStartException(const std::exception &) override { sim_fail("unexpected-ex", "onStart exception reported"); }
    void handleOnShutdownException(const std::exception &) override { sim_fail("unexpected-ex", "onShutdown exception reported"); }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override { sim_fail("unexpected-ex", "onTimeout exception reported"); }
};

template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
void producer(Model &m, RingBuffer<Ev, SIZE, WS, CLAIM> &rb, int pid, int quota) {
    constexpr bool multi = std::is_same_v<CLAIM<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    const int maxBatch = (int) m.maxBatch;
    while (quota > 0) {
        if (m.nprod == 1 && sim_wl(1 + pid, 4) == 0) { // capacity queries by the only producer: exact up to what consumers release meanwhile
            const int n = 1 + (int) sim_wl(1 + pid, SIZE);
            std::int64_t claimed, rel0, rel1;
            { SimGuard g; claimed = m.base + (std::int64_t) m.val.size(); rel0 = m.released(); }
            const bool has = rb.hasAvailableCapacity(n);
            const std::int64_t rem = rb.getRemainingCapacity();
            { SimGuard g; rel1 = m.released(); }
            SIM_CHECK(has || claimed + n - (std::int64_t) SIZE > rel0, "capacity-refused", "no capacity for %d reported, although only %ld of %zu slots are in use", n, (long) (claimed - rel0), SIZE);
            SIM_CHECK(!has || claimed + n - (std::int64_t) SIZE <= rel1, "capacity-granted", "capacity for %d reported while %ld of %zu slots are in use", n, (long) (claimed - rel1), SIZE);
            SIM_CHECK(rem >= (std::int64_t) SIZE - (claimed - rel0) && rem <= (std::int64_t) SIZE - (claimed - rel1), "remaining", "remaining capacity %ld, %ld to %ld of %zu slots are in use", (long) rem, (long) (claimed - rel1), (long) (claimed - rel0), SIZE);
            sim_probe("capacity-query");
        }
        const auto kind = sim_wl(1 + pid, 6);
        if (kind == 0 || kind == 1) { // publishEvent
            const bool thr = m.translatorThrows && sim_wl(1 + pid, 5) == 0;
            std::int64_t got = -9;
            rb.publishEvent([&](Ev &&e, std::int64_t s) {
                Payload p;
                { SimGuard g; got = s; p = m.claimed(pid, s, 1, SIZE); }
                writeEv(e, p);
                { SimGuard g; m.ready(s); }
                if (thr) throw std::runtime_error("translator");
            });
            quota--;
        } else if (kind == 2) { // tryPublishEvent
            bool mustSucceed;
            { SimGuard g; mustSucceed = m.capacityFor(1, SIZE); }
            bool called = false;
            const bool ok = rb.tryPublishEvent([&](Ev &&e, std::int64_t s) {
                Payload p;
                { SimGuard g; called = true; p = m.claimed(pid, s, 1, SIZE); }
                writeEv(e, p);
                { SimGuard g; m.ready(s); }
            });
            SimGuard g;
            SIM_CHECK(ok == called, "try-result", "tryPublishEvent returned %d but the translator %s called", ok, called ? "was" : "was not");
            SIM_CHECK(ok || !mustSucceed, "try-refused", "tryPublishEvent refused although a slot was free");
            if (ok) quota--; else sim_probe("try-no-capacity");
        } else {
            int n = 1 + (int) sim_wl(1 + pid, (uint64_t) maxBatch);
            if (n > quota) n = quota;
            std::int64_t hi;
            if (kind == 5) { // tryNext
                bool mustSucceed;
                { SimGuard g; mustSucceed = m.capacityFor(n, SIZE); }
                try {
                    hi = rb.tryNext(n);
                } catch (const NoCapacityException &) {
                    SimGuard g;
                    sim_probe("try-no-capacity");
                    SIM_CHECK(!mustSucceed, "try-refused", "tryNext(%d) refused although the slots were free", n);
                    continue;
                }
            } else {
                hi = rb.next(n);
            }
            Payload ps[16];
            { SimGuard g; for (int i = 0; i < n; i++) ps[i] = m.claimed(pid, hi - n + 1 + i, 1, SIZE); if (n > 1) sim_probe("batch-claim"); }
            for (int i = 0; i < n; i++) { writeEv(rb[hi - n + 1 + i], ps[i]); SimGuard g; m.ready(hi - n + 1 + i); }
            if constexpr (multi) {
                // publication order inside the batch is the producer's choice
                if (m.reversePublish) for (int i = n - 1; i >= 0; i--) rb.publish(hi - n + 1 + i);
                else for (int i = 0; i < n; i++) rb.publish(hi - n + 1 + i);
            } else {
                rb.publish(hi);
            }
            quota -= n;
        }
    }
}

template<std::size_t SIZE, template<std::size_t, typename> typename CLAIM>
void ringRun(int mode) {
    constexpr bool multi = std::is_same_v<CLAIM<SIZE, WS>, MultiThreadedStrategy<SIZE, WS>>;
    Model m;
    using RB = RingBuffer<Ev, SIZE, WS, CLAIM>;
    auto rb = std::make_shared<RB>();
    m.base = -1;
    if (multi) {
        static const std::int64_t starts[] = { -1, -1, -1, (1ll << 31) - 3, (1ll << 32) - 2, (5ll << 32) + 1 };
        m.base = starts[sim_cfg("start", 0, 5)];
        if (m.base != -1) rb->cursorSequence()->setValue(m.base);
    }
    m.maxBatch = sim_cfg("maxbatch", 1, SIZE > 4 ? 6 : 3);
    m.reversePublish = sim_cfg_pct("revpub", 30);
    m.translatorThrows = sim_cfg_pct("trthrow", 30);
    const int nprod = multi ? (int) sim_cfg("nprod", 1, 3) : 1;
    const int ncons = (int) sim_cfg("ncons", 1, 3);
    const int total = (int) sim_cfg("total", 1, 26);
    const int throwPct = (mode & 2) ? (int) sim_cfg("hthrow", 10, 60) : 0;
    const int nrestart = (mode & 1) ? (int) sim_cfg("nrestart", 1, 3) : 0;
    m.ncons = ncons;
    for (int i = 0; i < ncons; i++) m.next[i] = m.base + 1;
    // dependency shape: consumer i depends on a random subset of the earlier ones
    std::vector<std::vector<int>> deps((size_t) ncons);
    std::vector<int> kindOf((size_t) ncons);
    for (int i = 1; i < ncons; i++)
        for (int j = 0; j < i; j++)
            if (sim_cfg_pct((std::string("dep") + char('0' + j) + char('0' + i)).c_str(), 40)) { deps[(size_t) i].push_back(j); m.dep[i] |= 1u << j; }
    std::vector<std::shared_ptr<Handler>> hs;
    std::vector<std::shared_ptr<BatchEventProcessor<Ev>>> procs;
    std::vector<std::shared_ptr<EventPoller<Ev, SIZE, WS, CLAIM>>> pollers;
    std::vector<std::shared_ptr<Sequence>> seqs;
    auto exh = std::make_shared<ExH>(&m);
    for (int i = 0; i < ncons; i++) {
        std::vector<std::shared_ptr<Sequence>> d;
        for (int j : deps[(size_t) i]) d.push_back(seqs[(size_t) j]);
        const bool poll = sim_cfg_pct((std::string("poll") + char('0' + i)).c_str(), 25);
        kindOf[(size_t) i] = poll;
        hs.push_back(std::make_shared<Handler>(&m, i, poll ? 0 : throwPct));
        if (poll) {
            m.mayThrow[i] = throwPct > 0;
            pollers.push_back(rb->newPoller(d));
            procs.push_back(nullptr);
            seqs.push_back(pollers.back()->sequence());
        } else {
            auto barrier = newBarrier(rb, d);
            procs.push_back(std::make_shared<BatchEventProcessor<Ev>>(rb, barrier, hs.back()));
            procs.back()->setExceptionHandler(exh);
            pollers.push_back(nullptr);
            seqs.push_back(procs.back()->sequence());
        }
    }
    // gate on all consumers (or only on the ends of the chains, which is equivalent for users)
    bool allGate = sim_cfg_pct("allgate", 50);
    std::vector<std::shared_ptr<Sequence>> gates;
    for (int i = 0; i < ncons; i++) {
        bool used = false;
        for (int k = i + 1; k < ncons; k++) if (m.dep[k] & (1u << i)) used = true;
        if (allGate || !used) gates.push_back(seqs[(size_t) i]);
    }
    rb->addGatingSequences(gates);
    m.gates = gates;
    m.nprod = nprod;
    for (auto &s : seqs) s->setValue(m.base);

    std::vector<std::thread> ths;
    bool stopPollers = false;
    auto startConsumer = [&](int i) {
        if (kindOf[(size_t) i]) {
            ths.emplace_back([&, i] {
                auto &po = *pollers[(size_t) i];
                { SimGuard g; m.running[i]++; }
                unsigned burst = 0;
                while (true) {
                    { SimGuard g; if (stopPollers) break; }
                    bool threw = false;
                    PollState st = PollState::UNKNOWN;
                    try {
                        st = po.poll([&](Ev &e, std::int64_t s, bool eob) {
                            Payload p = readEv(e);
                            SimGuard g;
                            if (m.mayThrow[i] && sim_wl(30 + (unsigned) i, 6) == 0) { threw = true; throw HandlerThrow(); } // event not counted as processed
                            m.consumed(i, s, p, eob);
                            return sim_wl(30 + (unsigned) i, 4) != 0;
                        });
                    } catch (const HandlerThrow &) { SimGuard g; sim_probe("poller-threw"); }
                    SimGuard g;
                    SIM_CHECK(threw || po.sequence()->value() == m.next[i] - 1, "poller-seq", "poller %d reports %ld, processed up to %ld", i, (long) po.sequence()->value(), (long) m.next[i] - 1);
                    if (st == PollState::Processing) burst = 0;
                    else if (++burst > 3) { SimGuard h; sim_leave(); sim_leave(); sim_sleep(2000); sim_enter(); sim_enter(); }
                }
                SimGuard g; m.running[i]--;
            });
        } else {
            ths.emplace_back([&, i] { procs[(size_t) i]->run(); });
        }
    };
    for (int i = 0; i < ncons; i++) startConsumer(i);
    int left = total;
    std::vector<std::thread> prods;
    m.total = total;
    for (int p = 0; p < nprod; p++) {
        int q = p == nprod - 1 ? left : (int) sim_cfg((std::string("quota") + char('0' + p)).c_str(), 0, left);
        left -= q;
        prods.emplace_back([&, p, q] { producer<SIZE, CLAIM>(m, *rb, p, q); SimGuard g; m.prodDone++; });
    }
    for (int r = 0; r < nrestart; r++) { // halt a running processor at an arbitrary moment and run it again: nothing lost, nothing repeated
        int v = (int) sim_wl(50, (uint64_t) ncons);
        if (kindOf[(size_t) v]) continue;
        sim_sleep(sim_wl(50, 20000));
        sim_until([&] { return m.running[v] == 1; }, 3000); // the processor has started
        procs[(size_t) v]->halt();
        ths[(size_t) v].join();
        { SimGuard g; sim_probe("halt-restart"); SIM_CHECK(!procs[(size_t) v]->isRunning(), "halt-state", "processor still running after halt and join"); }
        std::thread t([&, v] { procs[(size_t) v]->run(); });
        ths[(size_t) v] = std::move(t);
    }
    sim_calm();
    for (auto &t : prods) t.join();
    sim_until([&] { for (int i = 0; i < ncons; i++) if (m.next[i] != m.base + 1 + total) return false; return true; });
    {
        SimGuard g;
        SIM_CHECK(rb->cursor() == m.base + total, "cursor", "cursor %ld after %d events", (long) rb->cursor(), total);
        for (std::int64_t s = m.base + 1; s <= m.base + total; s++) if (s > m.base + total - (std::int64_t) SIZE) SIM_CHECK(rb->isPublished(s), "is-published", "sequence %ld not reported as published", (long) s);
        SIM_CHECK(!rb->isPublished(m.base + total + 1), "is-published", "unpublished sequence reported as published");
    }
    sim_until([&] { for (auto &s : seqs) if (s->value() != m.base + total) return false; return true; });
    {
        SimGuard g;
        SIM_CHECK(rb->getRemainingCapacity() == (std::int64_t) SIZE, "remaining", "remaining capacity %ld of %zu in a drained ring", (long) rb->getRemainingCapacity(), SIZE);
        SIM_CHECK(rb->hasAvailableCapacity((int) SIZE), "remaining", "a drained ring has no capacity for its size");
        SIM_CHECK(rb->getMinimumGatingSequence() == m.base + total, "min-gating", "minimum gating sequence %ld", (long) rb->getMinimumGatingSequence());
    }
    { SimGuard g; stopPollers = true; }
    for (int i = 0; i < ncons; i++) if (!kindOf[(size_t) i]) sim_until([&] { return m.running[i] == 1; });
    for (int i = 0; i < ncons; i++) if (!kindOf[(size_t) i]) procs[(size_t) i]->halt();
    for (auto &t : ths) t.join();
    SimGuard g;
    for (int i = 0; i < ncons; i++) SIM_CHECK(m.running[i] == 0, "lifecycle", "consumer %d: onStart/onShutdown not balanced", i);
    m.final();
}
} // namespace

void CAT(ring_part, PART)(int mode) {
    switch (sim_cfg("shape", 0, 3)) {
    case 0: return ringRun<4, SingleThreadedStrategy>(mode);
    case 1: return ringRun<4, MultiThreadedStrategy>(mode);
    case 2: return ringRun<16, SingleThreadedStrategy>(mode);
    default: return ringRun<8, MultiThreadedStrategy>(mode);
    }
}
