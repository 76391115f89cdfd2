// Client library: ClientContext + MDClientCtx against a real broker and workers.
#include "net_common.hpp"
#include <Filters.hpp>
#include <ClientContext.hpp>
#include <Client.hpp>
using namespace net;
namespace {
using RAny = Role<"ANYBODY", Permission::RW>;
using CtxF = opencmw::NumberFilter<int>;
enum Kind { OKAY, SLOW, THROW, NOSVC };
struct Rq { int ctx, kind, svc; bool set; int broker = 0; int handled = 0, cb = 0; };
struct Note { int id, pub, seq, svc, ctx; uint64_t start, end; };
struct Sb { int ctx, svc, c; std::string z; int gen; uint64_t subAt = 0, confirmedAt = 0, unsubAt = 0, goneAt = 0; std::map<int, int> got, last; };
struct World {
    std::map<std::string, Rq> reqs;
    std::deque<Note> notes;
    std::deque<Sb> subs;
    bool stopped[4] = {};
} *W;
constexpr const char *SV[] = { "/alpha", "/alphabet" };
bool match(const Note &n, const Sb &s) { return n.svc == s.svc && (s.c == 0 || s.c == n.ctx); }
template<units::basic_fixed_string N, int I, int B = 0>
struct Wk {
    using T = BasicWorker<N, rbac<ADMIN, RAny>>;
    T w;
    std::thread t;
    Wk(const auto &broker) : w(broker, [](RequestContext &c) {
        std::string key = str(c.request.data);
        if (c.request.command == Command::Get) {
            const auto q = c.request.topic.queryParamMap();
            auto it = q.find("key");
            key = it != q.end() && it->second ? *it->second : "?";
        }
        int kind;
        {
            SimGuard g;
            auto it = W->reqs.find(key);
            SIM_CHECK(it != W->reqs.end(), "invented-request", "worker of %s receives request '%s' (topic %s) nobody made", SV[I], key.c_str(), std::string(c.request.topic.str()).c_str());
            Rq &r = it->second;
            SIM_CHECK(r.broker == B, "misrouted-request", "request '%s' for broker %d reaches a worker of broker %d", key.c_str(), r.broker, B);
            SIM_CHECK(r.svc == I && r.kind != NOSVC && r.set == (c.request.command == Command::Set), "misrouted-request", "request '%s' reaches %s as %s", key.c_str(), SV[I], c.request.command == Command::Set ? "SET" : "GET");
            SIM_CHECK(++r.handled == 1, "handled-twice", "request '%s' reaches a worker %d times", key.c_str(), r.handled);
            kind = r.kind;
        }
        if (kind == SLOW) sim_sleep(300 * MS);
        if (kind == THROW) throw std::runtime_error("boom-" + key);
        c.reply.data = buf("R:" + key);
    }) { w.template addFilter<CtxF>("ctx"); t = std::thread([this] { w.run(); }); }
    ~Wk() { w.shutdown(); t.join(); }
};
void reply(int ctx, const std::string &key, const mdp::Message &m) {
    SimGuard g;
    SIM_CHECK(!W->stopped[ctx], "callback-after-stop", "the callback of '%s' is called after stop() returned", key.c_str());
    Rq &r = W->reqs.at(key);
    SIM_CHECK(++r.cb == 1, "callback-twice", "the callback of '%s' is called %d times", key.c_str(), r.cb);
    const std::string d = str(m.data);
    if (r.kind == OKAY || r.kind == SLOW) SIM_CHECK(d == "R:" + key && m.error.empty(), "wrong-reply", "the callback of '%s' gets data '%s' error '%s'", key.c_str(), d.c_str(), m.error.c_str());
    if (r.kind == THROW) SIM_CHECK(m.error.find("boom-" + key) != std::string::npos && d.empty(), "wrong-reply", "the callback of '%s', whose handler threw, gets data '%s' error '%s'", key.c_str(), d.c_str(), m.error.c_str());
    if (r.kind == NOSVC) SIM_CHECK(m.error.find("unknown service") != std::string::npos && d.empty(), "wrong-reply", "the callback of '%s' for an unknown service gets data '%s' error '%s'", key.c_str(), d.c_str(), m.error.c_str());
}
void note(int ctx, Sb &s, const mdp::Message &m) {
    SimGuard g;
    SIM_CHECK(!W->stopped[ctx], "callback-after-stop", "a subscription callback is called after stop() returned");
    const std::string d = str(m.data);
    SIM_CHECK(d.rfind("n", 0) == 0 && (size_t) atoi(d.c_str() + 1) < W->notes.size(), "wrong-notification", "the callback of %s gets '%s'", s.z.c_str(), d.c_str());
    const int id = atoi(d.c_str() + 1);
    const Note &n = W->notes[(size_t) id];
    const std::string want = std::string(SV[n.svc]) + (n.ctx ? "?ctx=" + std::to_string(n.ctx) : "");
    SIM_CHECK(std::string(m.topic.str()) == want, "wrong-notification", "notification %d arrives with topic %s instead of %s", id, std::string(m.topic.str()).c_str(), want.c_str());
    SIM_CHECK(match(n, s), "wrong-notification", "the callback of %s gets notification %d of %s", s.z.c_str(), id, want.c_str());
    if (s.goneAt && n.start > s.goneAt) sim_fail("after-unsubscribe", "subscription to %s was withdrawn, yet its callback gets notification %d published later", s.z.c_str(), id);
    SIM_CHECK(++s.got[id] == 1, "duplicate-notification", "the callback of %s gets notification %d %d times", s.z.c_str(), id, s.got[id]);
    auto [it, f] = s.last.try_emplace(n.pub, -1);
    SIM_CHECK(n.seq > it->second, "notification-order", "the callback of %s gets number %d of a publisher after number %d", s.z.c_str(), n.seq, it->second);
    it->second = n.seq;
}
void scenario(bool subs) {
    sim_limits(6000000, 3000000);
    sim_time_limits(400000 * MS, 100000 * MS);
    World w;
    W = &w;
    const int nctx = (int) sim_cfg("contexts", 1, 2), nthr = (int) sim_cfg("user-threads", 1, 3);
    const bool earlyStop = sim_cfg_pct("early-stop", subs ? 15 : 25);
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(200 + 400 * sim_cfg("hb", 0, 2));
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    auto broker = std::make_unique<Broker<ADMIN>>("/testbroker", s);
    broker->addFilter<CtxF>("ctx");
    if (!broker->bind(URI<STRICT>("mdp://127.0.0.1:5000")) || !broker->bind(URI<STRICT>("mds://127.0.0.1:5001"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker->run(); });
    std::optional<Wk<"/alpha", 0>> w0;
    std::optional<Wk<"/alphabet", 1>> w1;
    w0.emplace(*broker);
    w1.emplace(*broker);
    std::unique_ptr<Broker<ADMIN>> broker2; // another broker, the address of which begins with that of the first one
    std::thread bt2;
    std::optional<Wk<"/alpha", 0, 1>> w20;
    std::optional<Wk<"/alphabet", 1, 1>> w21;
    if (!subs && sim_cfg_pct("second-broker", 50)) {
        broker2 = std::make_unique<Broker<ADMIN>>("/testbroker2", s);
        if (!broker2->bind(URI<STRICT>("mdp://127.0.0.1:50000"))) sim_fail("bind", "bind failed");
        bt2 = std::thread([&] { broker2->run(); });
        w20.emplace(*broker2);
        w21.emplace(*broker2);
        sim_probe("two-brokers");
    }
    auto active = [&](int svc) { return svc ? w1->w.activeSubscriptions() : w0->w.activeSubscriptions(); };
    sim_sleep(50 * MS);
    std::atomic<int> ready{ 0 };
    std::atomic<bool> pubDone{ false };
    std::vector<std::thread> nodes;
    for (int c = 0; c < nctx; c++) nodes.emplace_back([&, c] {
        netsim::node(2 + c);
        zmq::Context zctx;
        std::vector<std::unique_ptr<client::ClientBase>> impl;
        impl.emplace_back(std::make_unique<client::MDClientCtx>(zctx, std::chrono::milliseconds(20 + sim_wl(7, 2) * 1000), "c"));
        auto ctx = std::make_unique<client::ClientContext>(std::move(impl));
        int marker = 1000 * (c + 1), cmds = 0;
        auto mk = [&](int svc, int k) { return URI<STRICT>("mds://127.0.0.1:5001" + std::string(SV[svc]) + (k ? "?ctx=" + std::to_string(k) : "")); };
        auto zt = [&](int svc, int k) { return mdp::Topic::fromString(std::string(SV[svc]) + (k ? "?ctx=" + std::to_string(k) : "")); };
        auto waitFor = [&](int svc, int k, bool on) {
            const uint64_t t0 = sim_now();
            for (uint64_t d = 5; active(svc).contains(zt(svc, k)) != on; d = std::min<uint64_t>(d * 2, 500)) {
                if (sim_now() - t0 > 30000 * MS) sim_fail(on ? "subscription-lost" : "unsubscribe-ignored", "%s of %s does not reach the worker", on ? "subscription" : "unsubscription", zt(svc, k).toZmqTopic().c_str());
                sim_sleep(d * MS);
            }
        };
        std::vector<std::thread> us;
        for (int u = 0; u < nthr; u++) us.emplace_back([&, u] { // requests from several user threads
            const unsigned st = (unsigned) (20 + 4 * c + u);
            const int n = subs ? 2 : (int) (3 + sim_wl(st, 6)); // the command queue of a context has 32 places
            for (int i = 0; i < n; i++) {
                const std::string key = "k" + std::to_string(c) + "." + std::to_string(u) + "." + std::to_string(i);
                Rq r;
                r.ctx = c;
                const auto k = sim_wl(st, 10);
                r.kind = k < 6 ? OKAY : k < 7 ? SLOW : k < 9 ? THROW : NOSVC;
                r.svc = (int) sim_wl(st, 2);
                r.set = sim_wl(st, 2);
                r.broker = broker2 ? (int) sim_wl(st, 2) : 0;
                { SimGuard g; w.reqs.emplace(key, r); }
                const std::string base = (r.broker ? "mdp://127.0.0.1:50000" : "mdp://127.0.0.1:5000") + std::string(r.kind == NOSVC ? "/nosuch" : SV[r.svc]);
                auto cb = [c, key](const mdp::Message &m) { reply(c, key, m); };
                if (r.set) ctx->set(URI<STRICT>(base), cb, buf(key));
                else ctx->get(URI<STRICT>(base + "?key=" + key), cb);
                if (sim_wl(st, 2)) sim_sleep(sim_wl(st, 40) * MS);
            }
        });
        std::vector<Sb *> mine;
        if (subs) {
            const unsigned st = (unsigned) (40 + c);
            auto sub = [&](int svc, int k) {
                Sb *x;
                { SimGuard g; w.subs.push_back(Sb{ c, svc, k, zt(svc, k).toZmqTopic(), 0, sim_now() + 1 }); x = &w.subs.back(); }
                ctx->subscribe(mk(svc, k), [c, x](const mdp::Message &m) { note(c, *x, m); });
                cmds++;
                return x;
            };
            auto mark = [&](int svc, bool on) { // everything before has reached the workers
                if (on) { ctx->subscribe(mk(svc, ++marker), [](const mdp::Message &) { sim_fail("wrong-notification", "the callback of a topic without notifications is called"); }); waitFor(svc, marker, true); }
                else { ctx->unsubscribe(mk(svc, marker)); waitFor(svc, marker, false); }
                cmds++;
            };
            mark(0, true);
            mark(0, false);
            for (int i = 0; i < 2; i++) {
                const int svc = (int) sim_wl(st, 2), k = (int) sim_wl(st, 3);
                bool dup = false;
                for (auto *x : mine) dup |= x->svc == svc && x->c == k;
                if (dup) continue;
                Sb *x = sub(svc, k);
                mark(svc, true);
                { SimGuard g; x->confirmedAt = sim_now() + 1; }
                mine.push_back(x);
                ready += i == 0;
                if (i == 0) sim_sleep(sim_wl(st, 60) * MS);
                if (sim_wl(st, 2) == 0) { // withdraw, and perhaps come back with another callback
                    { SimGuard g; x->unsubAt = sim_now() + 1; }
                    ctx->unsubscribe(mk(svc, k));
                    mark(svc, false);
                    { SimGuard g; x->goneAt = sim_now() + 1; }
                    if (sim_wl(st, 2) == 0) {
                        Sb *y = sub(svc, k);
                        mark(svc, true);
                        { SimGuard g; y->confirmedAt = sim_now() + 1; }
                        mine.push_back(y);
                        sim_probe("resubscribed");
                    }
                }
            }
        }
        for (auto &t : us) t.join();
        if (earlyStop) sim_sleep(sim_wl(8, 60) * MS);
        else {
            while (subs && !pubDone) sim_sleep(20 * MS);
            const uint64_t t0 = sim_now();
            for (uint64_t d = 5;; d = std::min<uint64_t>(d * 2, 500)) {
                std::string miss;
                const char *sig = "no-reply";
                {
                    SimGuard g;
                    for (auto &[k, r] : w.reqs) if (r.ctx == c && !r.cb) miss = "the callback of request '" + k + "' is not called (handled " + std::to_string(r.handled) + " times)";
                    for (auto *x : mine) if (!x->unsubAt)
                        for (auto &n : w.notes) if (n.end && n.start > x->confirmedAt && match(n, *x) && !x->got.count(n.id)) { miss = "the callback of " + x->z + " never gets notification " + std::to_string(n.id); sig = "lost-notification"; }
                }
                if (miss.empty()) break;
                if (sim_now() - t0 > 40000 * MS) sim_fail(sig, "%s", miss.c_str());
                sim_sleep(d * MS);
            }
        }
        ctx->stop();
        { SimGuard g; w.stopped[c] = true; }
        sim_probe("stopped");
        ctx.reset();
    });
    if (subs) {
        const uint64_t t0 = sim_now();
        while (ready < nctx && sim_now() - t0 < 60000 * MS) sim_sleep(5 * MS);
        std::vector<std::thread> ps;
        for (int p = 0; p < 2; p++) ps.emplace_back([&, p] {
            const unsigned st = (unsigned) (50 + p);
            const int k = 10 + (int) sim_wl(st, 20);
            for (int q = 0; q < k; q++) {
                mdp::Message m;
                int id;
                {
                    SimGuard g;
                    id = (int) w.notes.size();
                    w.notes.push_back(Note{ id, p, q, p, (int) sim_wl(st, 3), sim_now() + 1, 0 });
                    m.topic = mdp::Message::URI(std::string(SV[p]) + (w.notes.back().ctx ? "?ctx=" + std::to_string(w.notes.back().ctx) : ""));
                    m.data = buf("n" + std::to_string(id));
                }
                (void) (p ? w1->w.notify(std::move(m)) : w0->w.notify(std::move(m)));
                { SimGuard g; w.notes[(size_t) id].end = sim_now() + 1; }
                if (sim_wl(st, 2)) sim_sleep(sim_wl(st, 40) * MS);
            }
        });
        for (auto &t : ps) t.join();
        pubDone = true;
    }
    for (auto &t : nodes) t.join();
    sim_calm();
    w20.reset();
    w21.reset();
    if (broker2) { broker2->shutdown(); bt2.join(); broker2.reset(); }
    w0.reset();
    w1.reset();
    broker->shutdown();
    bt.join();
    broker.reset();
    W = nullptr;
}
}
// Every get/set calls its callback exactly once with its own reply.
SIM_SCENARIO(cli_req) { scenario(false); }
// Subscription callbacks get every notification once and in order, and none afterwards.
SIM_SCENARIO(cli_sub) { scenario(true); }
