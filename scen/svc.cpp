// Signal directory: storage with time to live and file, worker and client library.
#include "net_common.hpp"
#include "../sim/simfs.hpp"
#include <ClientContext.hpp>
#include <Client.hpp>
#include <services/dns.hpp>
#include <services/dns_client.hpp>
using namespace net;
using service::dns::Entry;
using service::dns::QueryEntry;
namespace {
constexpr uint64_t MIN = 60000 * MS, HOUR = 60 * MIN;
uint64_t wall() { return (uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
bool same(const Entry &a, const Entry &b) {
    const bool ra = std::isnan(a.signal_rate), rb = std::isnan(b.signal_rate);
    return a.protocol == b.protocol && a.hostname == b.hostname && a.port == b.port && a.service_name == b.service_name && a.service_type == b.service_type && a.signal_name == b.signal_name && a.signal_unit == b.signal_unit && a.signal_type == b.signal_type && ra == rb && (ra || a.signal_rate == b.signal_rate);
}
bool fits(const QueryEntry &f, const Entry &e) { // empty fields match anything
    auto s = [](const std::string &x, const std::string &y) { return x.empty() || x == y; };
    return s(f.protocol, e.protocol) && s(f.hostname, e.hostname) && s(f.service_name, e.service_name) && s(f.service_type, e.service_type) && s(f.signal_name, e.signal_name) && s(f.signal_unit, e.signal_unit) && s(f.signal_type, e.signal_type)
        && (f.port == -1 || f.port == e.port) && (std::isnan(f.signal_rate) || f.signal_rate == e.signal_rate);
}
std::string show(const Entry &e) { return e.protocol + "://" + e.hostname + ":" + std::to_string(e.port) + "/" + e.service_name + "/" + e.signal_name + "@" + std::to_string(e.signal_rate) + e.signal_unit; }
Entry make(int owner, int k, unsigned st) { // entries of one owner differ in at least one field; some differ only in rate, port or unit
    Entry e;
    e.protocol = sim_wl(st, 2) ? "mdp" : "mds";
    e.hostname = "host" + std::to_string(sim_wl(st, 3));
    e.port = (int) (1000 + sim_wl(st, 2));
    e.service_name = "service" + std::to_string(owner);
    e.service_type = sim_wl(st, 3) ? "rest" : "";
    e.signal_name = "signal" + std::to_string(k / 2);
    e.signal_unit = "u" + std::to_string(k % 2);
    e.signal_rate = sim_wl(st, 2) ? std::numeric_limits<float>::quiet_NaN() : (float) sim_wl(st, 4) * 12.5f;
    e.signal_type = sim_wl(st, 3) ? "STREAM" : "";
    if (sim_wl(st, 4) == 0) e.signal_unit = "strange &=?#/%20 unit" + std::to_string(k); // text which needs care on the way
    return e;
}
QueryEntry filterOf(const Entry &e, unsigned st, bool keepService) {
    QueryEntry f;
    if (sim_wl(st, 3) == 0) f.protocol = e.protocol;
    if (sim_wl(st, 3) == 0) f.hostname = e.hostname;
    if (sim_wl(st, 3) == 0) f.port = e.port;
    if (keepService || sim_wl(st, 2)) f.service_name = e.service_name;
    if (sim_wl(st, 4) == 0) f.service_type = e.service_type;
    if (sim_wl(st, 2)) f.signal_name = e.signal_name;
    if (sim_wl(st, 4) == 0) f.signal_unit = e.signal_unit;
    if (sim_wl(st, 4) == 0) f.signal_rate = e.signal_rate;
    if (sim_wl(st, 4) == 0) f.signal_type = e.signal_type;
    return f;
}
// what happened to one signal, in order (operations on a signal are made one after the other)
enum Kind { REG, DEL, MAYBE };
struct Op { Kind kind; uint64_t i, r, wi, wr; }; // simulated and wall-clock time at invocation and return (r == 0: not returned)
struct Sig { Entry e; int owner; std::vector<Op> ops; };
// half of the entries differ from another one of the same owner in one field only, which may be empty
Entry makeLike(const std::deque<Sig> &sigs, int owner, int k, unsigned st) {
    std::vector<const Entry *> like;
    for (const Sig &x : sigs) if (x.owner == owner) like.push_back(&x.e);
    if (like.empty() || sim_wl(st, 2)) return make(owner, k, st);
    Entry e = *like[(size_t) sim_wl(st, like.size())];
    const Entry other = make(owner, k, st);
    const bool none = sim_wl(st, 3) == 0;
    switch (sim_wl(st, 8)) {
    case 0: e.protocol = none ? "" : other.protocol; break;
    case 1: e.hostname = none ? "" : other.hostname; break;
    case 2: e.port = none ? -1 : other.port; break;
    case 3: e.service_type = none ? "" : other.service_type; break;
    case 4: e.signal_name = none ? "" : other.signal_name; break;
    case 5: e.signal_unit = none ? "" : other.signal_unit; break;
    case 6: e.signal_rate = none ? std::numeric_limits<float>::quiet_NaN() : other.signal_rate; break;
    default: e.signal_type = none ? "" : other.signal_type; break;
    }
    for (const Entry *x : like) if (same(*x, e)) return other;
    return e;
}
enum Expect { ABSENT, PRESENT, EITHER };
Expect expect(const Sig &s, uint64_t qi, uint64_t qr, uint64_t qwi, uint64_t qwr) {
    const Op *l = nullptr;
    for (const Op &o : s.ops) if (o.i < qr) l = &o;
    if (!l) return ABSENT;
    if (l->r == 0 || l->r > qi || l->kind == MAYBE) return EITHER;
    if (l->kind == DEL) return ABSENT;
    if (qwr < l->wi + HOUR) return PRESENT;
    if (qwi > l->wr + HOUR) return ABSENT;
    return EITHER;
}
struct Dir {
    std::deque<Sig> sigs;
    int find(const Entry &e) { for (size_t k = 0; k < sigs.size(); k++) if (same(sigs[k].e, e)) return (int) k; return -1; }
    void check(const std::vector<Entry> &got, const QueryEntry &f, uint64_t qi, uint64_t qwi, const char *what) {
        SimGuard g;
        const uint64_t qr = sim_now(), qwr = wall();
        std::map<int, int> n;
        for (const Entry &e : got) {
            const int k = find(e);
            SIM_CHECK(k >= 0, "invented-signal", "%s reports %s, which was never registered", what, show(e).c_str());
            SIM_CHECK(fits(f, e), "wrong-signal", "%s reports %s, which does not match the filter", what, show(e).c_str());
            SIM_CHECK(++n[k] == 1, "signal-twice", "%s reports %s %d times", what, show(e).c_str(), n[k]);
        }
        for (size_t k = 0; k < sigs.size(); k++) if (fits(f, sigs[k].e)) {
            const Expect x = expect(sigs[k], qi, qr, qwi, qwr);
            if (x == PRESENT) SIM_CHECK(n.count((int) k), "signal-lost", "%s does not report %s, which is registered", what, show(sigs[k].e).c_str());
            if (x == ABSENT) {
                const bool ever = !sigs[k].ops.empty();
                SIM_CHECK(!n.count((int) k), ever && sigs[k].ops.back().kind == REG ? "signal-expired" : "signal-deleted", "%s reports %s, which %s", what, show(sigs[k].e).c_str(), !ever ? "is not registered" : sigs[k].ops.back().kind == REG ? "expired" : "was deleted");
                if (ever && sigs[k].ops.back().kind == REG) sim_probe("expired");
            }
        }
    }
    // entries carried over a restart live for another hour
    void restart(uint64_t i, uint64_t wi) {
        SimGuard g;
        const uint64_t r = sim_now(), wr = wall();
        for (Sig &s : sigs) {
            if (s.ops.empty()) continue;
            const Expect x = expect(s, i, r, wi, wr);
            s.ops.push_back({ x == PRESENT ? REG : x == ABSENT ? DEL : MAYBE, i, r, wi, wr });
        }
    }
};

// ---- storage with crashes and a failing disk: one "process" after the other
void store() {
    sim_limits(3000000, 1500000);
    sim_time_limits(0, 0);
    simfs::reset();
    Dir d;
    const int nk = (int) sim_cfg("signals", 2, 8), gens = (int) sim_cfg("restarts", 2, 8);
    const int faults = sim_cfg_pct("disk-faults", 70), longSleeps = sim_cfg_pct("long-sleeps", 60), jumps = sim_cfg_pct("clock-jumps", 25);
    for (int k = 0; k < nk; k++) {
        Entry e = makeLike(d.sigs, k % 2, k, 1);
        if (d.find(e) < 0) d.sigs.push_back({ e, k % 2, {} });
    }
    if (sim_cfg_pct("short-writes", 40)) simfs::short_ppm = 300000;
    using St = std::set<int>;
    struct Stored { St must, may; };
    std::vector<Stored> possible{ Stored{} };
    for (int g = 0; g <= gens; g++) {
        const bool last = g == gens;
        if (last) sim_calm();
        bool crashed = false, done = false, failed = false;
        std::string startError;
        const int end = last || !faults ? 0 : (int) sim_wl(2, 5); // 0, 1 orderly, 2 crash while saving, 3 disk full, 4 file cannot be opened
        simfs::onCrash = [&] { crashed = true; sim_wake(&done, 1); for (;;) sim_block(&crashed, 0); };
        Stored next;
        std::thread proc([&] {
            sim_set_group(10 + g);
            try {
                std::optional<service::dns::DataStorage> st;
                try {
                    st.emplace();
                } catch (const std::exception &ex) {
                    startError = ex.what();
                } catch (...) {
                    startError = "exception";
                }
                if (!st) sim_fail("does-not-start", "the directory does not start from the stored signals: %s", startError.c_str());
                { // what is there now is one of the states which may have been stored
                    const auto got = st->queryEntries<Entry, QueryEntry>();
                    SimGuard gd;
                    St now;
                    for (const Entry &e : got) {
                        const int k = d.find(e);
                        SIM_CHECK(k >= 0, "invented-signal", "after restart %d: %s was never registered", g, show(e).c_str());
                        SIM_CHECK(now.insert(k).second, "signal-twice", "after restart %d: %s is there twice", g, show(e).c_str());
                    }
                    bool ok = false;
                    for (const Stored &p : possible) ok |= std::ranges::includes(now, p.must) && std::ranges::includes(p.may, now);
                    if (!ok) {
                        std::string t;
                        for (const Stored &p : possible) { t += " {"; for (int k : p.must) t += std::to_string(k) + " "; t += "}"; }
                        std::string u;
                        for (int k : now) u += std::to_string(k) + " ";
                        bool more = false;
                        for (int k : now) { bool any = false; for (const Stored &p : possible) any |= p.may.count(k) > 0; more |= !any; }
                        sim_fail(more ? "signal-back" : "stored-signals-lost", "after restart %d the directory has signals {%s}, stored were%s", g, u.c_str(), t.c_str());
                    }
                    const uint64_t t = sim_now(), wt = wall();
                    for (size_t k = 0; k < d.sigs.size(); k++) d.sigs[k].ops = { { now.count((int) k) ? REG : DEL, t, t, wt, wt } };
                    possible = { Stored{ now, now } };
                    if (!now.empty()) sim_probe("reloaded");
                }
                const int nops = (int) sim_wl(3, 10);
                for (int o = 0; o < nops; o++) {
                    const uint64_t what = sim_wl(3, 10);
                    const uint64_t i = sim_now(), wi = wall();
                    if (what < 4) {
                        std::vector<int> ks;
                        std::vector<Entry> es;
                        for (int n = (int) sim_wl(3, 3); n >= 0; n--) { ks.push_back((int) sim_wl(3, d.sigs.size())); es.push_back(d.sigs[(size_t) ks.back()].e); }
                        const auto got = st->addEntries(es);
                        SIM_CHECK(got.size() == es.size() && std::ranges::equal(got, es, same), "wrong-answer", "registering %zu signals answers %zu others", es.size(), got.size());
                        for (int k : ks) { auto &ops = d.sigs[(size_t) k].ops; ops.push_back({ REG, i, sim_now(), wi, wall() }); }
                    } else if (what < 6) {
                        QueryEntry f = filterOf(d.sigs[(size_t) sim_wl(3, d.sigs.size())].e, 3, false);
                        std::vector<QueryEntry> fs{ f };
                        const auto got = st->deleteEntries(fs);
                        for (const Entry &e : got) SIM_CHECK(d.find(e) >= 0 && fits(f, e), "wrong-signal", "deleting reports %s, which does not match the filter", show(e).c_str());
                        for (Sig &s : d.sigs) if (fits(f, s.e)) {
                            if (expect(s, i, sim_now() + 1, wi, wall()) == PRESENT) SIM_CHECK(std::ranges::any_of(got, [&](const Entry &e) { return same(e, s.e); }), "wrong-answer", "deleting does not report %s, which was registered", show(s.e).c_str());
                            s.ops.push_back({ DEL, i, sim_now(), wi, wall() });
                        }
                    } else if (what < 8) {
                        QueryEntry f = sim_wl(3, 3) ? filterOf(d.sigs[(size_t) sim_wl(3, d.sigs.size())].e, 3, false) : QueryEntry{};
                        const auto got = st->queryEntries<Entry, QueryEntry>(f);
                        sim_sleep(1); // operations before and after differ in time
                        d.check(got, f, i, wi, "query");
                    } else if (what == 8 && jumps && !sim_is_calm()) {
                        sim_sysclock_jump((int64_t) (sim_wl(3, 40) * MIN));
                        sim_probe("clock-jump");
                    } else
                        sim_sleep(longSleeps ? (1 + sim_wl(3, 35)) * MIN : 1 + sim_wl(3, 1000) * MS);
                    sim_sleep(1);
                }
                const uint64_t i = sim_now(), wi = wall();
                simfs::hit = false;
                if (end == 2) simfs::crashAt = (long) sim_choice("crash-step", 8);
                if (end == 3) simfs::fullAfter = (long) sim_choice("disk-space", 400);
                if (end == 4) simfs::failOpen = (long) sim_choice("open-fails", 2);
                // computed before saving begins: a crash ends this thread
                { SimGuard gd; const uint64_t late = wi + 10 * MS; for (size_t k = 0; k < d.sigs.size(); k++) { const Expect x = expect(d.sigs[k], i, i + 1, wi, late); if (x == PRESENT) next.must.insert((int) k); if (x != ABSENT) next.may.insert((int) k); } }
                st.reset();
                failed = simfs::hit;
            } catch (const std::exception &ex) {
                sim_fail("exception", "%s", ex.what());
            }
            done = true;
            sim_wake(&done, 1);
        });
        while (!done && !crashed) sim_block(&done, 0);
        if (crashed) { sim_kill_group(10 + g); proc.detach(); }
        else proc.join();
        simfs::crashAt = simfs::fullAfter = simfs::failOpen = -1;
        if (crashed || failed) possible.push_back(next);
        else possible = { next };
        if (simfs::list().size() > 3) sim_fail("files-left", "%zu files are left behind", simfs::list().size());
        sim_sleep(1 + (longSleeps ? sim_wl(2, 90) * MIN : 0));
    }
}
SimReg r1("svc_store", store);

// ---- directory service behind a broker, used through the client library
void dir() {
    sim_limits(8000000, 4000000);
    sim_time_limits(0, 0);
    simfs::reset();
    Dir d;
    const int nctx = (int) sim_cfg("contexts", 1, 2), nthr = (int) sim_cfg("user-threads", 1, 2), nk = (int) sim_cfg("signals", 1, 4), phases = sim_cfg_pct("restart", 40) ? 2 : 1;
    const bool jumps = sim_cfg_pct("clock-jumps", 50), malformed = sim_cfg_pct("malformed", 30);
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    if (sim_cfg_pct("slow-waits", 40)) sim_slow_wait(100000, 40 * MS);
    for (int o = 0; o < nctx * nthr; o++) for (int k = 0; k < nk; k++) { Entry e = makeLike(d.sigs, o, k, 1); if (d.find(e) < 0) d.sigs.push_back({ e, o, {} }); }
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(500);
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    auto broker = std::make_unique<Broker<ADMIN>>("/testbroker", s);
    if (!broker->bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker->run(); });
    std::optional<service::dns::DnsWorkerType> w;
    std::thread wt;
    auto start = [&] { w.emplace(*broker, service::dns::DnsHandler{}); wt = std::thread([&] { w->run(); }); sim_sleep(100 * MS); };
    auto stop = [&] { w->shutdown(); wt.join(); w.reset(); };
    start();
    for (int ph = 0; ph < phases; ph++) {
        if (ph + 1 == phases && !sim_wl(9, 2)) sim_calm();
        std::vector<std::thread> nodes;
        if (malformed) nodes.emplace_back([&, ph] { // lists that do not fit together are refused without effect
            netsim::node(30 + ph);
            Peer p;
            p.connect("tcp://127.0.0.1:5000");
            const int n = 1 + (int) sim_wl(31, 4);
            for (int i = 0; i < n; i++) {
                std::vector<Entry> es;
                const uint64_t len = sim_wl(31, 3) + 1;
                for (uint64_t k = 0; k < len; k++) es.push_back(Entry{ "bad", "bad", 1, "bad", "bad", "bad" + std::to_string(k), "bad", 1.f, "bad" });
                service::dns::FlatEntryList l(es);
                const bool longer = sim_wl(31, 2);
                auto change = [&](auto &v) { if (longer) v.resize(v.size() + 1 + sim_wl(31, 3)); else v.resize(v.size() - 1); };
                switch (sim_wl(31, 9)) {
                case 0: change(l.protocol); break;
                case 1: change(l.hostname); break;
                case 2: change(l.port); break;
                case 3: change(l.service_name); break;
                case 4: change(l.service_type); break;
                case 5: change(l.signal_name); break;
                case 6: change(l.signal_unit); break;
                case 7: change(l.signal_rate); break;
                default: change(l.signal_type);
                }
                IoBuffer b;
                opencmw::serialise<opencmw::YaS>(b, l);
                const bool del = !sim_wl(31, 3);
                auto m = clientMsg(Command::Set, "/dns", "bad", del ? "/dns?doDelete=true" : "/dns", "", "ADMIN");
                m.data = std::move(b);
                p.send(std::move(m));
                std::optional<mdp::Message> r;
                for (int k = 0; k < 600 && !r; k++) r = p.recv(100);
                if (!r) sim_fail("no-answer", "a registration whose lists differ in length is not answered");
                SimGuard g;
                SIM_CHECK(!r->error.empty(), "wrong-answer", "a registration whose lists differ in length is accepted");
                sim_probe("malformed");
            }
        });
        for (int c = 0; c < nctx; c++) nodes.emplace_back([&, c, ph] {
            netsim::node(2 + c + 4 * ph);
            zmq::Context zctx;
            std::vector<std::unique_ptr<client::ClientBase>> impl;
            impl.emplace_back(std::make_unique<client::MDClientCtx>(zctx, std::chrono::milliseconds(20 + sim_wl(7, 2) * 1000), "c"));
            auto ctx = std::make_unique<client::ClientContext>(std::move(impl));
            std::vector<std::thread> us;
            for (int u = 0; u < nthr; u++) us.emplace_back([&, u] {
                const unsigned sd = (unsigned) (20 + 4 * c + u);
                const int me = c * nthr + u;
                std::vector<Sig *> own;
                for (Sig &x : d.sigs) if (x.owner == me) own.push_back(&x);
                service::dns::DnsClient cl(*ctx, "mdp://127.0.0.1:5000/dns");
                const int nops = 2 + (int) sim_wl(sd, 9);
                for (int o = 0; o < nops; o++) {
                    const uint64_t what = sim_wl(sd, 10);
                    uint64_t i = sim_now(), wi = wall();
                    if (what < 4) {
                        std::vector<Sig *> ks;
                        std::vector<Entry> es;
                        { SimGuard g; for (Sig *x : own) if (sim_wl(sd, 2)) { ks.push_back(x); es.push_back(x->e); x->ops.push_back({ REG, i, 0, wi, 0 }); } }
                        if (es.empty()) continue;
                        std::vector<Entry> got;
                        if (es.size() == 1 && sim_wl(sd, 2)) got = { cl.registerSignal(es[0]) };
                        else got = cl.registerSignals(es);
                        SimGuard g;
                        SIM_CHECK(got.size() == es.size() && std::ranges::equal(got, es, same), "wrong-answer", "registering %zu signals answers with %zu others (%s)", es.size(), got.size(), got.empty() ? "" : show(got[0]).c_str());
                        for (Sig *x : ks) x->ops.back().r = sim_now(), x->ops.back().wr = wall();
                    } else if (what < 6) {
                        QueryEntry f = filterOf(own[(size_t) sim_wl(sd, own.size())]->e, sd, true);
                        std::vector<Sig *> ks;
                        std::vector<Sig> before;
                        { SimGuard g; for (Sig *x : own) if (fits(f, x->e)) { ks.push_back(x); before.push_back(*x); x->ops.push_back({ DEL, i, 0, wi, 0 }); } }
                        const auto got = cl.unregisterSignals({ f });
                        SimGuard g;
                        for (const Entry &e : got) SIM_CHECK(d.find(e) >= 0 && fits(f, e), "wrong-signal", "deleting reports %s, which does not match the filter", show(e).c_str());
                        for (const Sig &x : before) if (expect(x, i, i + 1, wi, wall()) == PRESENT) SIM_CHECK(std::ranges::any_of(got, [&](const Entry &e) { return same(e, x.e); }), "wrong-answer", "deleting does not report %s, which was registered", show(x.e).c_str());
                        for (Sig *x : ks) x->ops.back().r = sim_now(), x->ops.back().wr = wall();
                    } else if (what < 9) {
                        QueryEntry f;
                        if (sim_wl(sd, 3)) f = filterOf(own[(size_t) sim_wl(sd, own.size())]->e, sd, sim_wl(sd, 2));
                        const auto got = cl.querySignals(f);
                        sim_sleep(1);
                        d.check(got, f, i, wi, "query");
                        if (got.size() > 1) sim_probe("several-found");
                    } else if (jumps && !sim_is_calm()) { // time passes: by the wall clock, which is what the life of entries depends on
                        sim_sysclock_jump((int64_t) ((1 + sim_wl(sd, 40)) * MIN));
                        sim_probe("clock-jump");
                    } else
                        sim_sleep(sim_wl(sd, 300) * MS);
                    sim_sleep(1);
                }
            });
            for (auto &t : us) t.join();
            ctx->stop();
            ctx.reset();
        });
        for (auto &t : nodes) t.join();
        if (ph + 1 < phases) {
            const uint64_t i = sim_now(), wi = wall();
            stop();
            start();
            sim_sleep(1);
            d.restart(i, wi);
            sim_probe("restarted");
        }
    }
    stop();
    broker->shutdown();
    bt.join();
    broker.reset();
}
SimReg r2("svc_dir", dir);
} // namespace
