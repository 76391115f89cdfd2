// Transactional settings: commits, staging, history, expiry.
#include "../sim/simxx.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <ranges>
#include <Transactions.hpp>
using namespace opencmw;
using Clk = std::chrono::system_clock;

namespace {
struct In {
    long v = 0;
    std::string pad = "default";
    In() = default;
    explicit In(long x) : v(x), pad("payload-" + std::to_string(x) + "-long-enough-to-live-on-the-heap") {}
};
struct St { // stored: value plus the number of commits that led to it
    long v = 0, count = 0, chk = 0;
    std::string pad = "default";
};
thread_local std::vector<long> madeHere; // versions this thread's current call has committed
struct TModel {
    std::vector<long> log{ 0 };           // value by version, in the order of the commit callbacks
    std::vector<Clk::time_point> when{ {} };
    std::map<long, long> versionOf;       // value -> version
    std::vector<char> done{ 1 };          // commit call has returned
    long completed = 0;                   // largest version such that all commits up to it returned
    long inCallback = 0;
    long stagedOnly = 0;
    std::map<long, int> valState;         // 1 staged, 2 committing or committed, 3 retired or replaced: must never be committed
    St onCommit(const St &old, In &&in) {
        long v; std::string pad; 
        v = in.v; pad = in.pad;
        SimGuard g;
        SIM_CHECK(old.chk == old.v * 31 + old.count, "torn", "the commit callback got a damaged old value");
        SIM_CHECK(valState[v] != 3, "retired-committed", "value %ld was committed although its transaction had been withdrawn", v);
        SIM_CHECK(!versionOf.count(v), "committed-twice", "value %ld was committed twice", v);
        SIM_CHECK(pad == "payload-" + std::to_string(v) + "-long-enough-to-live-on-the-heap", "torn", "value %ld arrived damaged at the commit callback", v);
        const long ver = old.count + 1;
        SIM_CHECK(ver == (long) log.size(), "lost-update", "commit of value %ld is based on version %ld, the current version is %zu", v, old.count, log.size() - 1);
        log.push_back(v);
        done.push_back(0);
        when.push_back(Clk::time_point::max());
        versionOf[v] = ver;
        madeHere.push_back(ver);
        sim_event(0xa000u + (unsigned long) v);
        sim_class((unsigned long) v);
        return { v, ver, v * 31 + ver, std::move(pad) };
    }
    St onModify(const St &old) {
        SimGuard g;
        const long ver = old.count + 1;
        SIM_CHECK(ver == (long) log.size(), "lost-update", "a modification is based on version %ld, the current version is %zu", old.count, log.size() - 1);
        log.push_back(old.v);
        done.push_back(0);
        when.push_back(Clk::time_point::max());
        sim_event(0xb000u);
        return { old.v, ver, old.v * 31 + ver, old.pad };
    }
    void finished(long ver) { if (!done[(size_t) ver]) when[(size_t) ver] = Clk::now(); done[(size_t) ver] = 1; while (completed + 1 < (long) done.size() && done[(size_t) completed + 1]) completed++; }
    long maxDone() const { long r = 0; for (size_t i = 0; i < done.size(); i++) if (done[i]) r = (long) i; return r; }
    long latest() const { return (long) log.size() - 1; }
};
template<typename Node>
std::pair<long, long> look(const Node &n) { // instrumented reads
    const St &s = *n.value;
    long v = s.v, c = s.count, k = s.chk;
    std::string p = s.pad;
    SimGuard g;
    SIM_CHECK(k == v * 31 + c, "torn", "a reader sees a mixture of two settings (%ld, %ld, %ld)", v, c, k);
    SIM_CHECK(p == (v ? "payload-" + std::to_string(v) + "-long-enough-to-live-on-the-heap" : "default"), "torn", "a reader sees a damaged setting %ld '%s'", v, p.c_str());
    return { v, c };
}

template<int TO, int TOT>
struct Run {
    using S = SettingBase<In, St, std::string, 16, std::chrono::milliseconds, TO, TOT>;
    TModel m;
    S s{ [this](const St &o, In &&i) -> St { return m.onCommit(o, std::move(i)); } };
    long nextVal = 0;
    bool shared = false;
    int committers = 0;
    uint64_t lastDelta = 0;

    void checkRead(std::pair<long, long> r, long lo, long hi, const char *what) {
        SimGuard g;
        SIM_CHECK(r.second >= 0 && r.second <= m.latest() && m.log[(size_t) r.second] == r.first, "phantom", "%s returns value %ld as version %ld which was never committed as such", what, r.first, r.second);
        SIM_CHECK(r.second >= lo, "stale", "%s returns version %ld, version %ld was complete before", what, r.second, lo);
        SIM_CHECK(r.second <= hi, "future", "%s returns version %ld, only %ld can exist", what, r.second, hi);
    }
    long newVal(int st) { SimGuard g; long v = ++nextVal; m.valState[v] = st; return v; }
    void didCommit(long v) {
        SimGuard g;
        auto it = m.versionOf.find(v);
        SIM_CHECK(it != m.versionOf.end(), "commit-lost", "commit of value %ld reported success but never happened", v);
        m.finished(it->second);
    }
    void finishMine() { // the calls of this thread have returned: what they committed is complete
        SimGuard g;
        for (long ver : madeHere) m.finished(ver);
        madeHere.clear();
    }
    void thread(int t, int ops, bool writer) {
        const auto T = (unsigned) (1 + t);
        std::map<std::string, long> mine; // own pending tokens -> staged value
        std::map<std::string, uint64_t> stagedAt;
        std::vector<std::pair<Clk::time_point, std::pair<long, long>>> exact;
        auto expirable = [&](const std::string &tk, uint64_t now) { return TOT > 0 && now - stagedAt[tk] + 200000 >= (uint64_t) TOT * 1000000; };
        for (int i = 0; i < ops; i++) {
            auto k = writer ? sim_wl(T, 12) : 10 + sim_wl(T, 5);
            if (writer && k >= 10) k += 3; // writers look back, too
            if (k <= 2) {
                long v = newVal(2);
                auto r = s.commit(In(v));
                SIM_CHECK(r.isCommitted, "commit-refused", "commit of value %ld was refused", v);
                didCommit(v);
                if (!shared || TO <= 0) {
                    // read your own write: nothing older may be returned from now on
                    auto x = look(s.get());
                    SimGuard g;
                    SIM_CHECK(x.second >= m.versionOf[v], "stale", "after its commit (version %ld) a thread reads version %ld", m.versionOf[v], x.second);
                }
            } else if (k <= 4) {
                const std::string tk = "token-" + std::to_string(t) + "-" + std::to_string(sim_wl(T, 2)) + "-with-a-long-name";
                long v = newVal(1);
                if (mine.count(tk)) { SimGuard g; auto &ov = m.valState[mine[tk]]; if (ov == 1 && !shared) ov = 3; }
                uint64_t before = sim_now();
                auto r = s.stage(In(v), tk);
                { SimGuard g; mine[tk] = v; stagedAt[tk] = before; }
                SIM_CHECK(!r.isCommitted, "staged-committed", "staging reports a commit");
                if (!shared) {
                    auto p = s.getPendingTransactions();
                    SimGuard g;
                    SIM_CHECK(std::count(p.begin(), p.end(), tk) == 1 || expirable(tk, sim_now()), "staged-lost", "token is pending %ld times right after staging", (long) std::count(p.begin(), p.end(), tk));
                }
            } else if (k <= 6 && !mine.empty()) {
                auto it = mine.begin();
                std::advance(it, (long) sim_wl(T, mine.size()));
                const auto [tk, v] = *it;
                mine.erase(tk);
                auto r = s.commit(tk);
                bool did;
                { SimGuard g; did = m.versionOf.count(v); }
                if (!shared) {
                    SimGuard g;
                    SIM_CHECK(r.isCommitted || expirable(tk, sim_now()), "commit-refused", "commit of a pending transaction was refused");
                    SIM_CHECK(r.isCommitted == did, "commit-lost", "commit of a pending transaction says %d, its value was %s", r.isCommitted, did ? "committed" : "not committed");
                }
                if (did && !shared) didCommit(v);
                finishMine();
                auto r2 = s.commit(tk);
                if (!shared) SIM_CHECK(!r2.isCommitted, "commit-twice", "a transaction can be committed twice");
            } else if (k == 7 && !mine.empty()) {
                const auto [tk, v] = *mine.begin();
                mine.erase(tk);
                if (!shared) { SimGuard g; m.valState[v] = 3; }
                const bool r = s.retireStaged(tk);
                if (!shared) {
                    SIM_CHECK(r || expirable(tk, sim_now()), "retire-failed", "a pending transaction could not be withdrawn");
                    auto p = s.getPendingTransactions();
                    SIM_CHECK(std::count(p.begin(), p.end(), tk) == 0, "retire-failed", "a withdrawn transaction is still pending");
                }
            } else if (k == 8) {
                long ver = -1;
                const bool ok = s.modifySetting([&](const St &o) { St n = m.onModify(o); ver = n.count; return n; });
                SimGuard g;
                SIM_CHECK(ok && ver > 0, "commit-refused", "modification was refused");
                m.finished(ver);
            } else if (k == 9) {
                if (shared && sim_wl(T, 2)) s.commit(std::string()); // commits whatever is pending
                else s.retireExpired();
            } else if (k == 10) {
                long lo;
                { SimGuard g; lo = m.completed; }
                auto x = look(s.get());
                SimGuard g;
                checkRead(x, lo, m.latest(), "get()");
            } else if (k == 11 || k == 12) {
                const long back = 1 + (long) sim_wl(T, 10);
                long lo, hi0;
                { SimGuard g; lo = m.completed; hi0 = m.latest(); }
                try {
                    auto x = look(s.get(-back));
                    SimGuard g;
                    checkRead(x, lo - back, m.latest() - back, "get(-n)");
                } catch (const std::out_of_range &) {
                    SimGuard g;
                    sim_probe("history-exhausted");
                    // without expiry by time, the last eight predecessors stay available
                    SIM_CHECK(TO > 0 || back > 8 || lo < back, "history-lost", "predecessor %ld is gone although %ld versions were committed", back, lo);
                }
                (void) hi0;
            } else if (k == 13) {
                const auto n = s.nHistory();
                SimGuard g;
                SIM_CHECK(n >= 1 && n <= 16, "history-size", "history size %ld", (long) n);
                if (TO <= 0) SIM_CHECK((long) n >= std::min(9l, m.completed > 8 ? 9l : 0l), "history-size", "history size %zu after %ld commits", n, m.completed);
            } else {
                const auto back = std::chrono::nanoseconds(sim_wl(T, 60000));
                long lo;
                { SimGuard g; lo = m.completed; }
                auto ts = Clk::now() - back;
                if (committers == 1 && sim_wl(T, 3)) { // about when one of the last versions came into force
                    SimGuard g;
                    const long v = lo - (long) sim_wl(T, 8);
                    if (v >= 1) ts = m.when[(size_t) v] - std::chrono::nanoseconds(sim_wl(T, 3));
                }
                try {
                    auto n = s.get(ts);
                    auto x = look(n);
                    SIM_CHECK(n.validSince <= ts, "by-time", "the setting returned for a time stamp became valid only later");
                    SimGuard g;
                    checkRead(x, 0, m.latest(), "get(time)");
                    if (committers == 1) { // with one committing thread the time stamps are in commit order
                        if (x.second + 1 < (long) m.when.size() && x.second + 1 <= lo) SIM_CHECK(m.when[(size_t) x.second + 1] > ts, "by-time", "get(time) returns version %ld, version %ld was already valid", x.second, x.second + 1);
                    }
                    // asked for the very moment at which it came into force, the same setting is found
                    if (TO <= 0) {
                        const bool held = x.second + 8 > m.latest();
                        if (held) exact.emplace_back(n.validSince, x);
                    }
                } catch (const std::out_of_range &) {
                    sim_probe("by-time-none");
                    SimGuard g;
                    // the last eight predecessors stay available: one of them was in force at that time
                    if (TO <= 0 && committers == 1)
                        for (long v = std::max(1l, m.latest() - 8); v <= lo; v++)
                            SIM_CHECK(m.when[(size_t) v] > ts, "by-time", "nothing is found for a time at which version %ld was valid (%ld versions)", v, m.latest());
                }
                while (!exact.empty()) {
                    const auto [since, x] = exact.back();
                    exact.pop_back();
                    try {
                        auto n = s.get(since);
                        if (committers == 1) SIM_CHECK(n.validSince == since, "by-time", "the setting that came into force at a time is not the one found for that time");
                    } catch (const std::out_of_range &) {
                        SimGuard g;
                        SIM_CHECK(x.second + 8 < m.latest() || committers > 1, "by-time", "nothing is found for the time at which version %ld of %ld came into force", x.second, m.latest());
                    }
                }
            }
            finishMine();
            if (sim_wl(T, 4) == 0) sim_sleep(sim_wl(T, 30000));
            if (TO > 0 || TOT > 0) if (sim_wl(T, 6) == 0) sim_sleep(sim_wl(T, 8000000));
        }
    }
    void run() {
        shared = sim_cfg_pct("commit-all", 25);
        const int nw = (int) sim_cfg("writers", 1, 3), nr = (int) sim_cfg("readers", 0, 2), ops = (int) sim_cfg("ops", 2, 14);
        committers = nw;
        std::vector<std::thread> ths;
        for (int t = 0; t < nw + nr; t++) ths.emplace_back([&, t] { thread(t, ops, t < nw); });
        sim_sleep(1000 + sim_wl(9, 60000));
        sim_calm();
        for (auto &t : ths) t.join();
        auto x = look(s.get());
        SIM_CHECK(x.second == m.latest() && x.first == m.log.back(), "final", "the final value is version %ld, the last commit is version %ld", x.second, m.latest());
        const auto pend = s.getPendingTransactions();
        for (auto &p : pend) {
            SIM_CHECK(std::count(pend.begin(), pend.end(), p) == 1, "pending-twice", "token is pending twice");
            SIM_CHECK(p.starts_with("token-") && p.ends_with("-with-a-long-name"), "torn", "damaged token '%s' is pending", p.c_str());
        }
        if (TOT > 0) {
            sim_sleep((uint64_t) (TOT + 1) * 1000000);
            s.retireExpired();
            SIM_CHECK(s.getPendingTransactions().empty(), "not-expired", "staged transactions outlive their time-out");
        }
        if (TO > 0) {
            sim_sleep((uint64_t) (TO + 1) * 1000000);
            s.retireExpired();
            SIM_CHECK(s.nHistory() == 1, "not-expired", "%zu history entries outlive their time-out", s.nHistory());
        }
        auto y = look(s.get());
        SIM_CHECK(y.second == x.second, "final", "expiry changed the current value");
        // everything still works afterwards
        const long v = newVal(2);
        SIM_CHECK(s.commit(In(v)).isCommitted && look(s.get()).first == v, "final", "a commit after the run is not effective");
    }
};
} // namespace
SIM_SCENARIO(txn) {
    switch (sim_cfg("expiry", 0, 3)) {
    case 1: std::make_unique<Run<3, -1>>()->run(); break;
    case 2: std::make_unique<Run<-1, 3>>()->run(); break;
    default: std::make_unique<Run<-1, -1>>()->run();
    }
}

// history by time stamp and expiry with a single committing thread: exact model
SIM_SCENARIO(txn_hist) {
    struct E { long v; Clk::time_point since; uint64_t at; };
    using S = SettingBase<long, long, std::string, 16, std::chrono::milliseconds, 4, 4>;
    auto s = std::make_unique<S>();
    std::vector<E> log; // committed
    std::mutex hm;      // serialises model updates with the commits (held by the only committer)
    const int ops = (int) sim_cfg("ops", 2, 24), nr = (int) sim_cfg("readers", 0, 2);
    bool stop = false;
    std::vector<std::thread> rd;
    const auto t0 = s->get().validSince;
    log.push_back({ 0, t0, sim_now() });
    for (int t = 0; t < nr; t++)
        rd.emplace_back([&, t] {
            for (int i = 0; i < 600; i++) {
                { SimGuard g; if (stop) return; }
                long lo;
                { SimGuard g; lo = (long) log.size(); }
                auto ts = Clk::now() - std::chrono::nanoseconds(sim_wl(20 + (unsigned) t, 2000000));
                if (sim_wl(20 + (unsigned) t, 2)) { // at or next to the moment at which one of them came into force
                    SimGuard g;
                    const long j = lo - 1 - (long) sim_wl(20 + (unsigned) t, 4);
                    if (j >= 0) ts = log[(size_t) j].since + std::chrono::nanoseconds((long) sim_wl(20 + (unsigned) t, 3) - 1);
                }
                try {
                    auto n = s->get(ts);
                    SimGuard g;
                    SIM_CHECK(n.validSince <= ts, "by-time", "the setting returned for a time stamp became valid only later");
                    long ix = -1;
                    for (size_t j = 0; j < log.size(); j++) if (log[j].since == n.validSince && log[j].v == *n.value) ix = (long) j;
                    if (ix >= 0) {
                        if (ix + 1 < lo) SIM_CHECK(log[(size_t) ix + 1].since > ts, "by-time", "get(time) returns entry %ld although the next one was already valid then", ix);
                    } else { // the newest one, whose commit has not returned yet
                        SIM_CHECK(*n.value > log.back().v, "phantom", "get(time) returns value %ld with a time stamp that was never committed", *n.value);
                    }
                } catch (const std::out_of_range &) {
                    sim_probe("by-time-none");
                    SimGuard g; // the current setting never expires
                    for (long j = lo - 1; j < (long) log.size(); j++)
                        SIM_CHECK(log[(size_t) j].since > ts || j + 1 < (long) log.size(), "by-time", "nothing is found for a time at which the current setting was in force");
                }
                sim_sleep(20000 + sim_wl(20 + (unsigned) t, 300000));
            }
        });
    std::map<std::string, std::pair<uint64_t, uint64_t>> staged; // not before, not after
    long v = 0;
    for (int i = 0; i < ops; i++) {
        const auto k = sim_wl(1, 8);
        if (k < 4) {
            const auto now = Clk::now();
            long x = ++v;
            auto r = s->commit(std::move(x), now);
            SIM_CHECK(r.isCommitted && r.timeStamp == now, "commit-refused", "commit refused or given another time stamp");
            SimGuard g;
            log.push_back({ v, now, sim_now() });
        } else if (k < 6) {
            std::string tk = "t" + std::to_string(sim_wl(1, 3));
            const uint64_t b0 = sim_now();
            long x = ++v;
            (void) s->stage(std::move(x), tk);
            staged[tk] = { b0, sim_now() };
        } else if (k == 6) {
            sim_sleep(sim_wl(1, 6000000));
        } else {
            const uint64_t a = sim_now();
            const auto now = Clk::now();
            s->retireExpired(now);
            auto p = s->getPendingTransactions();
            SimGuard g;
            for (auto &[tk, at] : staged) {
                const bool pending = std::count(p.begin(), p.end(), tk);
                if (a > at.second + 4001000) SIM_CHECK(!pending, "not-expired", "a transaction staged %lu us ago is still pending, time-out is 4 ms", (a - at.second) / 1000);
                if (sim_now() < at.first + 3999000) SIM_CHECK(pending, "expired-early", "a transaction staged %lu us ago has expired, time-out is 4 ms", (sim_now() - at.first) / 1000);
            }
            std::erase_if(staged, [&](auto &e) { return !std::count(p.begin(), p.end(), e.first); });
        }
        // entries used within the time-out (at most eight back) must be available; reading one renews it
        const bool scan = sim_wl(1, 3) == 0;
        for (long back = 0; back <= 8 && back < (long) log.size(); back++) {
            auto &e = log[log.size() - 1 - (size_t) back];
            if (!scan && sim_wl(1, 4)) continue;
            const uint64_t used = e.at, now = sim_now();
            try {
                auto n = s->get(-back);
                SIM_CHECK(*n.value == e.v && (n.validSince == e.since || e.v == 0), "history", "entry %ld of the history is %ld, expected %ld", back, *n.value, e.v);
                SimGuard g;
                e.at = now;
            } catch (const std::out_of_range &) {
                SIM_CHECK(back && now - used > 3500000, "history-lost", "entry %ld of the history is gone, it was last used %lu us ago and the time-out is 4 ms", back, (now - used) / 1000);
                sim_probe("history-expired");
            }
        }
        if (sim_wl(1, 3) == 0) sim_sleep(sim_wl(1, 900000));
    }
    sim_calm();
    { SimGuard g; stop = true; }
    for (auto &t : rd) t.join();
    SIM_CHECK(*s->get().value == log.back().v, "final", "the current value is %ld, the last committed one %ld", *s->get().value, log.back().v);
}
