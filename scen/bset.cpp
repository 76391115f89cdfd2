// BasicSetting: one real-time thread and several non-real-time threads share a value.
#include "../sim/simxx.hpp"
#include <array>
#include <map>
#include <set>
#include <string>
#include <BasicSetting.hpp>
using namespace opencmw;

namespace {
// redundant value with a heap part: torn or freed copies are recognised; copying has several scheduling points
struct Val {
    long a = 0, b = 0;
    std::string s = "0";
    long c = 0;
    Val() = default;
    explicit Val(long v) : a(v), b(~v), s(std::to_string(v) + (v % 3 ? "" : "-long-enough-to-live-on-the-heap")), c(v * 7) {}
    Val(long v, int) : Val(v) {}
    long check(const char *who) const {
        long x = a, y = b, z = c;
        std::string t = s;
        SimGuard g;
        if (x == 0 && y == 0) { SIM_CHECK(z == 0 && t == "0", "torn", "%s sees a mixture of two values", who); return 0; }
        SIM_CHECK(y == ~x && z == x * 7 && t == std::to_string(x) + (x % 3 ? "" : "-long-enough-to-live-on-the-heap"), "torn", "%s sees a mixture of two values (%ld, %ld, %ld, '%s')", who, x, y, z, t.c_str());
        return x;
    }
};
} // namespace

// written by non-real-time threads, read by the real-time thread
SIM_SCENARIO(bset_nrt) {
    using S = BasicSetting<Val, MutableOption::NonRealTimeMutable>;
    auto s = std::make_unique<S>(Val());
    const int nw = (int) sim_cfg("writers", 1, 3), ops = (int) sim_cfg("ops", 1, 6), rops = (int) sim_cfg("rt-ops", 1, 10);
    long counter = 0;                       // value numbers are given out in the order of the writes' critical sections
    std::map<long, int> st;                 // 1 write started, 2 write completed
    std::map<long, std::set<long>> doneBefore; // completed when this write started
    std::set<long> incs;
    long total = 0;
    std::vector<std::thread> ths;
    auto begin = [&](long v) { SimGuard g; st[v] = 1; auto &d = doneBefore[v]; for (auto &[k, x] : st) if (x == 2) d.insert(k); };
    auto end = [&](long v) { SimGuard g; st[v] = 2; sim_event(0x9000u + (unsigned long) v); };
    // v was seen by a read that started when `done` was the set of completed writes
    auto recent = [&](long v, const std::set<long> &done, const char *who) {
        SimGuard g;
        if (v) SIM_CHECK(st.count(v), "phantom", "%s sees value %ld that nobody wrote", who, v);
        for (long d : done) // a write that completed before the read started and started after v's write completed hides v
            SIM_CHECK(v == d || !(v == 0 || doneBefore[d].count(v)), "stale", "%s sees value %ld although the newer value %ld had been set completely before", who, v, d);
        sim_class((unsigned long) v);
    };
    auto completed = [&] { SimGuard g; std::set<long> r; for (auto &[k, x] : st) if (x == 2) r.insert(k); return r; };
    int active = nw;
    for (int t = 0; t < nw; t++)
        ths.emplace_back([&, t] {
            for (int i = 0; i < ops; i++) {
                long v;
                { SimGuard g; v = ++counter; }
                const auto k = sim_wl(1 + (unsigned) t, 4);
                if (k == 0) {
                    begin(v);
                    s->replace<AccessType::NonRealTime>(v);
                    end(v);
                } else if (k == 1) {
                    begin(v);
                    s->replace<AccessType::NonRealTime>(v, 1);
                    end(v);
                } else if (k == 2) {
                    begin(v);
                    { auto g = s->accessGuard<AccessType::NonRealTime>(); g->check("a writer"); g = Val(v); }
                    end(v);
                } else { // read only: releases the value it found
                    auto d = completed();
                    long seen;
                    { auto g = s->nonRealTimeAccessGuard(); seen = g->check("a non-real-time reader"); }
                    recent(seen, d, "a non-real-time reader");
                }
            }
            SimGuard g;
            active--;
        });
    std::thread rt([&] {
        long last = 0;
        for (int i = 0; i < rops; i++) {
            auto d = completed();
            long v, w;
            if (sim_wl(8, 2)) {
                auto g = s->accessGuard<AccessType::RealTime>();
                v = g->check("the real-time thread");
                if (sim_wl(8, 2)) sim_sleep(sim_wl(8, 2000));
                w = g->check("the real-time thread"); // must not change while it is held
            } else {
                const Val &r = s->acquire<AccessType::RealTime>();
                v = r.check("the real-time thread");
                sim_point();
                w = r.check("the real-time thread");
                s->release<AccessType::RealTime>();
            }
            SIM_CHECK(v == w, "changed-while-held", "the value changed from %ld to %ld while the real-time thread held it", v, w);
            recent(v, d, "the real-time thread");
            SimGuard g;
            if (last && v && last != v) SIM_CHECK(!doneBefore[last].count(v), "backwards", "the real-time thread saw %ld after %ld", v, last);
            last = v;
        }
    });
    sim_sleep(1000 + sim_wl(9, 40000));
    sim_calm();
    rt.join();
    for (auto &t : ths) t.join();
    auto d = completed();
    long fin;
    { auto g = s->realTimeAccessGuard(); fin = g->check("the final read"); }
    recent(fin, d, "the final read");
    (void) total;
    (void) incs;
    s.reset();
}

// read-modify-write of non-real-time threads through the access guard: no update is lost
SIM_SCENARIO(bset_rmw) {
    using S = BasicSetting<Val, MutableOption::NonRealTimeMutable>;
    S s{ Val(1) };
    const int nw = (int) sim_cfg("writers", 2, 4), ops = (int) sim_cfg("ops", 1, 6);
    std::vector<std::thread> ths;
    bool stop = false;
    for (int t = 0; t < nw; t++)
        ths.emplace_back([&] {
            for (int i = 0; i < ops; i++) {
                auto g = s.accessGuard<AccessType::NonRealTime>();
                const long v = g->check("a writer");
                g = Val(v + 1);
            }
        });
    std::thread rt([&] {
        long last = 0;
        for (int i = 0; i < 4000; i++) {
            { SimGuard g; if (stop) break; }
            long v;
            { auto g = s.realTimeAccessGuard(); v = g->check("the real-time thread"); }
            SIM_CHECK(v >= last, "backwards", "the real-time thread saw count %ld after %ld", v, last);
            last = v;
            sim_class((unsigned long) v);
            sim_event((unsigned long) v);
            sim_sleep(300);
        }
    });
    sim_sleep(1000 + sim_wl(9, 20000));
    sim_calm();
    for (auto &t : ths) t.join();
    { SimGuard g; stop = true; }
    rt.join();
    auto g = s.nonRealTimeAccessGuard();
    SIM_CHECK(g->check("the final read") == 1 + nw * ops, "lost-update", "%ld of %d updates survived", g->check("the final read") - 1, nw * ops);
}

// written by the real-time thread, read by several non-real-time threads
SIM_SCENARIO(bset_rt) {
    using S = BasicSetting<Val, MutableOption::RealTimeMutable>;
    auto s = std::make_unique<S>(Val());
    const int nr = (int) sim_cfg("readers", 1, 3), ops = (int) sim_cfg("ops", 1, 10), rops = (int) sim_cfg("reads", 1, 8);
    const bool useReplace = sim_cfg_pct("replace", 50);
    long started = 0, done = 0;
    long lastSeenUnderLock = 0;
    std::vector<std::thread> ths;
    for (int t = 0; t < nr; t++)
        ths.emplace_back([&, t] {
            for (int i = 0; i < rops; i++) {
                long d0;
                { SimGuard g; d0 = done; }
                long v, w;
                if (sim_wl(1 + (unsigned) t, 2)) {
                    auto g = s->accessGuard<AccessType::NonRealTime>();
                    v = g->check("a non-real-time reader");
                    if (sim_wl(1 + (unsigned) t, 3) == 0) sim_sleep(sim_wl(1 + (unsigned) t, 3000));
                    w = g->check("a non-real-time reader");
                    SimGuard gg;
                    SIM_CHECK(v >= lastSeenUnderLock, "backwards", "a reader saw %ld after another had seen %ld", v, lastSeenUnderLock);
                    lastSeenUnderLock = v;
                } else {
                    const Val &r = s->acquire<AccessType::NonRealTime>();
                    v = r.check("a non-real-time reader");
                    sim_point();
                    w = r.check("a non-real-time reader");
                    { SimGuard gg; SIM_CHECK(v >= lastSeenUnderLock, "backwards", "a reader saw %ld after another had seen %ld", v, lastSeenUnderLock); lastSeenUnderLock = v; }
                    s->release<AccessType::NonRealTime>();
                }
                SimGuard g;
                SIM_CHECK(v == w, "changed-while-held", "the value changed from %ld to %ld while a reader held it", v, w);
                SIM_CHECK(v >= d0 && v <= started, "stale", "a reader saw value %ld although %ld had been set completely before (%ld started)", v, d0, started);
                sim_class((unsigned long) v);
                sim_event((unsigned long) v * 4 + (unsigned) t);
            }
        });
    std::thread rt([&] {
        long own = 0;
        for (int i = 1; i <= ops; i++) {
            { SimGuard g; started = i; }
            if (useReplace && sim_wl(8, 2)) {
                s->replace<AccessType::RealTime>((long) i);
                own = i;
            } else {
                auto g = s->accessGuard<AccessType::RealTime>();
                const long v = g->check("the real-time thread");
                SIM_CHECK(v == own, "own-write", "the real-time thread reads back %ld after having set %ld", v, own);
                g = Val((long) i);
                own = i;
            }
            { SimGuard g; done = i; }
            if (sim_wl(8, 3) == 0) sim_sleep(sim_wl(8, 3000));
        }
    });
    sim_sleep(1000 + sim_wl(9, 40000));
    sim_calm();
    rt.join();
    for (auto &t : ths) t.join();
    {
        auto g = s->nonRealTimeAccessGuard();
        SIM_CHECK(g->check("the final read") == ops, "stale", "the last value set is %d, the final read gives %ld", ops, g->check("the final read"));
    }
    { auto g = s->realTimeAccessGuard(); SIM_CHECK(g->check("the real-time thread") == ops, "own-write", "the real-time thread reads back %ld after having set %d", g->check("x"), ops); }
    s.reset();
}

// the real-time thread never waits: it completes within a bounded number of its own steps whatever the others do
SIM_SCENARIO(bset_waitfree) {
    const bool rtm = sim_cfg_pct("rt-mutable", 50);
    BasicSetting<Val, MutableOption::NonRealTimeMutable> a{ Val(1) };
    BasicSetting<Val, MutableOption::RealTimeMutable> b{ Val(1) };
    bool finished = false, held = false;
    std::thread nrt([&] { // acquires and then stalls for as long as the real-time thread is at work
        if (rtm) {
            auto g = b.accessGuard<AccessType::NonRealTime>();
            g->check("reader");
            { SimGuard gg; held = true; }
            sim_until([&] { return finished; }, 1000000);
            g->check("reader");
        } else {
            auto g = a.accessGuard<AccessType::NonRealTime>();
            g = Val(2);
            { SimGuard gg; held = true; }
            sim_until([&] { return finished; }, 1000000);
        }
    });
    sim_until([&] { return held; }, 100);
    sim_calm();
    for (int i = 0; i < 4; i++) {
        if (rtm) {
            { auto g = b.accessGuard<AccessType::RealTime>(); g = Val(10 + i); }
            b.replace<AccessType::RealTime>(20l + i);
        } else {
            auto g = a.accessGuard<AccessType::RealTime>();
            SIM_CHECK(g->check("the real-time thread") == 1, "uncommitted", "the real-time thread sees a value whose update is not finished");
        }
    }
    { SimGuard g; finished = true; }
    nrt.join();
}
