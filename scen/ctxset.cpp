// Context-multiplexed settings: isolation of contexts, fallback, retirement, expiry.
#include "../sim/simxx.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <ranges>
#include <Transactions.hpp>
using namespace opencmw;

namespace {
struct V {
    long v = 0;
    std::string pad = "default";
    V() = default;
    explicit V(long x) : v(x), pad("payload-" + std::to_string(x) + "-long-enough-to-live-on-the-heap") {}
};
long lookV(const V &x) {
    long v = x.v;
    std::string p = x.pad;
    SimGuard g;
    SIM_CHECK(p == (v ? "payload-" + std::to_string(v) + "-long-enough-to-live-on-the-heap" : "default"), "torn", "a reader sees a damaged setting %ld '%s'", v, p.c_str());
    return v;
}
using Key = std::array<int, 4>;
TimingCtx ctx(const Key &k) { return TimingCtx(k[0], k[1], k[2], k[3]); }
bool matches(const Key &k, const Key &pat) { for (int i = 0; i < 4; i++) if (pat[(size_t) i] != -1 && pat[(size_t) i] != k[(size_t) i]) return false; return true; }

template<int TO>
struct Run {
    using S = CtxSetting<V, std::string, 16, std::chrono::milliseconds, TO, -1>;
    S s;
    long nextVal = 0;
    long globalDone = 0, globalStarted = 0; // values of the global context, written by thread 0 only
    std::set<long> isGlobal;
    long updStarted = 0;
    int updActive = 0;
    struct Upd { Run &r; explicit Upd(Run &x) : r(x) { SimGuard g; r.updStarted++; r.updActive++; } ~Upd() { SimGuard g; r.updActive--; } };
    struct Held { long v; typename S::CtxResult r; };

    void thread(int t, int ops) {
        const auto T = (unsigned) (1 + t);
        struct E { long v; uint64_t used; };
        std::map<Key, E> own;
        std::map<std::string, std::pair<Key, long>> staged;
        std::vector<Held> held;
        const int cid = t + 1;
        auto rnd = [&](bool full) {
            Key k{ cid, -1, -1, -1 };
            const int depth = full ? 4 : 1 + (int) sim_wl(T, 4);
            for (int i = 1; i < depth; i++) k[(size_t) i] = 1 + (int) sim_wl(T, 2);
            return k;
        };
        auto newVal = [&] { SimGuard g; return ++nextVal; };
        // TO > 0: an entry not used for the time-out may disappear with any expiry
        auto mayBeGone = [&](const E &e, uint64_t now) { return TO > 0 && now - e.used > (uint64_t) TO * 1000000 - 100000; };
        for (int i = 0; i < ops; i++) {
            switch (sim_wl(T, 10)) {
            case 0: case 1: case 2: {
                const Key k = rnd(false);
                const long v = newVal();
                const uint64_t b = sim_now();
                Upd u(*this);
                SIM_CHECK(s.commit(ctx(k), V(v)).isCommitted, "commit-refused", "commit was refused");
                own[k] = { v, b };
                sim_event(0xc000u + (unsigned long) v);
                sim_class((unsigned long) v);
                break;
            }
            case 3: {
                const Key k = rnd(false);
                const std::string tk = "token" + std::to_string(t) + std::to_string(sim_wl(T, 2));
                const long v = newVal();
                staged[tk] = { k, v };
                SIM_CHECK(!s.stage(ctx(k), V(v), tk).isCommitted, "staged-committed", "staging reports a commit");
                break;
            }
            case 4: {
                if (staged.empty()) break;
                const auto [tk, kv] = *staged.begin();
                staged.erase(tk);
                const uint64_t b = sim_now();
                Upd u(*this);
                SIM_CHECK(s.commit(tk).isCommitted, "commit-refused", "commit of a pending transaction was refused");
                own[kv.first] = { kv.second, b };
                break;
            }
            case 5: {
                if (TO > 0) { // expire
                    Upd u(*this);
                    s.retireExpired();
                    break;
                }
                if (sim_wl(T, 3) == 0) { s.retireExpired(); break; } // expiry is switched off: no effect
                const Key k = rnd(false);
                const bool exact = sim_wl(T, 2);
                Upd u(*this);
                if (exact) {
                    const bool r = s.template retire<true>(ctx(k));
                    SIM_CHECK(r == (own.count(k) > 0), "retire-result", "retiring an exact context says %d, it was %s", r, own.count(k) ? "set" : "not set");
                    own.erase(k);
                } else {
                    const auto n = std::erase_if(own, [&](auto &e) { return matches(e.first, k); });
                    const bool r = s.template retire<false>(ctx(k));
                    SIM_CHECK(r == (n > 0), "retire-result", "retiring a context says %d, %zu settings matched", r, n);
                }
                sim_probe("ctx-retired");
                break;
            }
            case 6: {
                if (t == 0) { // the non-multiplexed value
                    const long v = newVal();
                    { SimGuard g; globalStarted = v; isGlobal.insert(v); }
                    Upd u(*this);
                    SIM_CHECK(s.commit(NullTimingCtx, V(v)).isCommitted, "commit-refused", "commit was refused");
                    SimGuard g;
                    globalDone = v;
                }
                break;
            }
            default: {
                const Key k = rnd(true);
                // candidates: the nearest ancestors that are set, up to the first one that cannot have expired
                std::vector<Key> cand;
                bool certain = false;
                const uint64_t now = sim_now();
                Key a = k;
                for (int d = 3; d >= 0 && !certain; d--) {
                    if (auto it = own.find(a); it != own.end()) {
                        cand.push_back(a);
                        certain = !mayBeGone(it->second, now + 500000);
                    }
                    a[(size_t) d] = -1;
                }
                long g0, u0; bool quiet;
                { SimGuard g; g0 = TO > 0 ? 0 : globalDone; u0 = updStarted; quiet = updActive == 0; }
                if (sim_now() > now + 400000) break;
                auto r = s.get(ctx(k));
                const long v = lookV(r);
                const bool late = sim_now() > now + 400000; // stalled in between: the entry may have expired meanwhile
                const bool keep = sim_wl(T, 4) == 0;
                if (!late) {
                    SimGuard g;
                    quiet = quiet && updStarted == u0;
                    auto hit = std::find_if(cand.begin(), cand.end(), [&](auto &c) { return own[c].v == v; });
                    if (hit != cand.end()) {
                        SIM_CHECK(r.timingCtx == ctx(*hit), "ctx-name", "the value is reported for another context than the one it was set for");
                        if (quiet) own[*hit].used = now;
                        if (cand.size() > 1 && hit != cand.begin()) sim_probe("ctx-expired");
                    } else {
                        SIM_CHECK(!certain, "ctx-value", "a thread reads %ld for a context for which it had set %ld", v, own[cand.back()].v);
                        SIM_CHECK(v == 0 || (v >= g0 && v <= globalStarted && isGlobal.count(v)), "ctx-value", "a context that is not set reads as %ld, the global value is %ld", v, g0);
                        SIM_CHECK(v != 0 || g0 == 0, "ctx-value", "the global value %ld is not used for an unset context", g0);
                        SIM_CHECK(r.timingCtx == NullTimingCtx, "ctx-name", "an unset context is reported as set");
                        sim_probe(cand.empty() ? "ctx-default" : "ctx-expired");
                    }
                }
                if (keep) held.push_back({ v, r });
            }
            }
            // results obtained earlier stay valid and unchanged
            for (auto &h : held) SIM_CHECK(lookV(h.r) == h.v, "result-changed", "a result obtained earlier changed from %ld to %ld", h.v, lookV(h.r));
            if (sim_wl(T, 4) == 0) sim_sleep(sim_wl(T, 30000));
            if (TO > 0 && sim_wl(T, 6) == 0) sim_sleep(sim_wl(T, 5000000));
        }
        if (TO <= 0) // nothing of this thread's contexts was lost or disturbed
            for (auto &[k, e] : own) {
                auto r = s.get(ctx(k));
                SIM_CHECK(lookV(r) == e.v && r.timingCtx == ctx(k), "ctx-value", "the last value set for a context is %ld, it reads %ld", e.v, lookV(r));
            }
        SimGuard g;
        finalCount += (long) own.size();
    }
    long finalCount = 0;
    void run() {
        const int n = (int) sim_cfg("threads", 1, 3), ops = (int) sim_cfg("ops", 2, 20);
        std::vector<std::thread> ths;
        for (int t = 0; t < n; t++) ths.emplace_back([&, t] { thread(t, ops); });
        sim_sleep(1000 + sim_wl(9, 60000));
        sim_calm();
        for (auto &t : ths) t.join();
        if (TO <= 0) {
            const long want = finalCount + (globalStarted ? 1 : 0);
            SIM_CHECK((long) s.nCtxHistory() == want, "ctx-count", "%zu contexts are set, expected %ld", s.nCtxHistory(), want);
        } else {
            sim_sleep((uint64_t) (TO + 1) * 1000000);
            s.retireExpired();
            SIM_CHECK(s.nCtxHistory() == 0, "not-expired", "%zu contexts outlive their time-out", s.nCtxHistory());
        }
    }
};
} // namespace
SIM_SCENARIO(ctxset) {
    if (sim_cfg_pct("expiry", 40)) std::make_unique<Run<3>>()->run();
    else std::make_unique<Run<-1>>()->run();
}
