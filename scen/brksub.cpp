// Subscriptions: completeness, order, exactly-once, isolation and withdrawal, through the broker with real workers.
#include "net_common.hpp"
#include <Filters.hpp>
using namespace net;
namespace {
constexpr const char *SV[] = { "/alpha", "/alphabet", "/beta/gamma" };
using CtxFilter = opencmw::NumberFilter<int>;
enum Type { SUB_TCP, SUB_INPROC, DEALER, REST };
const char *TN[] = { "SUB over tcp", "SUB inproc", "DEALER", "REST" };
struct Note { int id, pub, seq, svc, ctx; uint64_t start, end; bool ok; };
struct TopicT { int svc, ctx; bool x; };
bool operator==(const TopicT &a, const TopicT &b) { return a.svc == b.svc && a.ctx == b.ctx && a.x == b.x; }
std::string uri(const TopicT &t) {
    std::string s = SV[t.svc];
    if (t.ctx) s += "?ctx=" + std::to_string(t.ctx);
    if (t.x) s += std::string(t.ctx ? "&" : "?") + "x=7";
    return s;
}
mdp::Topic mk(const TopicT &t) { return mdp::Topic::fromString(uri(t)); }
bool matches(const Note &n, const TopicT &t) { return n.svc == t.svc && (t.ctx == 0 || t.ctx == n.ctx); }
struct Sub { TopicT t; uint64_t subAt = 0, confirmedAt = 0, unsubAt = 0, goneAt = 0; };
struct Cl {
    int id; Type type;
    std::deque<Sub> subs;
    std::map<std::pair<int, std::string>, int> got;    // (note, topic; "" for DEALER) -> count
    std::map<std::pair<int, std::string>, int> lastSeq; // (publisher, topic) -> seq
    bool left = false;
};
struct World {
    std::deque<Note> notes;
    std::map<std::pair<int, int>, std::vector<int>> byPub; // (publisher, svc) -> note ids in order
    std::deque<Cl> cl;
    std::function<bool(int svc, const mdp::Topic &)> allActive, noneActive;
    long received = 0;
};
World *W;
uint64_t bound() { return 30000 * MS; }

void onNote(Cl &c, const std::string &subTopic, const mdp::BasicMessage<mdp::MessageFormat::WithSourceId> *m9, const mdp::Message *m8) {
    SimGuard g;
    const std::string d = m9 ? str(m9->data) : str(m8->data);
    const std::string top{ m9 ? m9->topic.str() : m8->topic.str() };
    const std::string svcName = m9 ? m9->serviceName : m8->serviceName;
    const auto cmd = m9 ? m9->command : m8->command;
    if (d.rfind("n", 0) != 0) sim_fail("invented-notification", "client %d (%s) receives '%s' on %s", c.id, TN[c.type], d.c_str(), top.c_str());
    const int id = atoi(d.c_str() + 1);
    SIM_CHECK(id >= 0 && (size_t) id < W->notes.size(), "invented-notification", "client %d receives unknown notification '%s'", c.id, d.c_str());
    const Note &n = W->notes[(size_t) id];
    std::string want = SV[n.svc];
    if (n.ctx) want += "?ctx=" + std::to_string(n.ctx);
    SIM_CHECK(d == "n" + std::to_string(id) + std::string((size_t) (id % 40), '.') && top == want && svcName == SV[n.svc] && cmd == Command::Final, "corrupt-notification", "notification %d arrives as service %s topic %s (expected %s) command %d data '%s'", id, svcName.c_str(), top.c_str(), want.c_str(), (int) cmd, d.c_str());
    int allowed = 0;
    std::vector<std::string> topics;
    for (auto &s : c.subs) {
        if (!matches(n, s.t) || !s.subAt || (s.goneAt && n.start > s.goneAt)) continue;
        const std::string z = mk(s.t).toZmqTopic();
        if (!subTopic.empty() && z != subTopic) continue;
        if (std::find(topics.begin(), topics.end(), z) == topics.end()) { topics.push_back(z); allowed++; }
    }
    if (!allowed) {
        bool after = false;
        for (auto &s : c.subs) if (matches(n, s.t) && (subTopic.empty() || mk(s.t).toZmqTopic() == subTopic)) after = true;
        sim_fail(after ? "after-unsubscribe" : "not-subscribed", "client %d (%s) receives notification %d of %s it is not subscribed to (subscription '%s')", c.id, TN[c.type], id, want.c_str(), subTopic.c_str());
    }
    int &cnt = c.got[{ id, subTopic }];
    SIM_CHECK(++cnt <= allowed, "duplicate-notification", "client %d (%s) receives notification %d %d times (%d matching subscriptions)", c.id, TN[c.type], id, cnt, allowed);
    auto [it, fresh] = c.lastSeq.try_emplace({ n.pub, subTopic }, -1);
    SIM_CHECK(n.seq >= it->second && (subTopic.empty() || n.seq > it->second), "notification-order", "client %d (%s) receives notification %d (number %d of publisher %d) after number %d", c.id, TN[c.type], id, n.seq, n.pub, it->second);
    it->second = n.seq;
    // nothing before this one is missing
    for (auto &s : c.subs) {
        if (!s.confirmedAt || !matches(n, s.t) || n.start <= s.confirmedAt || (s.unsubAt && true)) continue;
        const std::string z = mk(s.t).toZmqTopic();
        if (!subTopic.empty() && z != subTopic) continue;
        for (int o : W->byPub[{ n.pub, n.svc }]) {
            const Note &p = W->notes[(size_t) o];
            if (p.seq >= n.seq) break;
            if (p.ok && p.end && p.start > s.confirmedAt && matches(p, s.t) && !c.got.count({ o, subTopic })) sim_fail("lost-notification", "client %d (%s) receives notification %d of publisher %d on '%s' but never the earlier %d", c.id, TN[c.type], id, n.pub, z.c_str(), o);
        }
    }
    W->received++;
}
// all notifications published up to now that the subscription must see
bool complete(Cl &c, const Sub &s, uint64_t upTo, int *missing) {
    const std::string z = (c.type == DEALER) ? "" : mk(s.t).toZmqTopic();
    for (auto &n : W->notes)
        if (n.ok && n.end && n.end <= upTo && n.start > s.confirmedAt && matches(n, s.t) && !c.got.count({ n.id, z })) { *missing = n.id; return false; }
    return true;
}
struct Subscriber {
    Cl &c;
    std::unique_ptr<Peer> p;
    std::optional<zmq::Socket> in;
    unsigned stream;
    int marker;
    Subscriber(Cl &cl, const zmq::Context &bctx, unsigned st) : c(cl), stream(st) {
        marker = 10000 * (c.id + 1);
        if (c.type == SUB_TCP) { p = std::make_unique<Peer>(ZMQ_SUB); p->connect("tcp://127.0.0.1:5001"); }
        if (c.type == DEALER) { p = std::make_unique<Peer>(ZMQ_DEALER); p->connect("tcp://127.0.0.1:5000"); }
        if (c.type == SUB_INPROC) {
            in.emplace(bctx, ZMQ_SUB);
            zmq::initializeSocket(*in, mdp::Settings{}).assertSuccess();
            zmq::invoke(zmq_connect, *in, INTERNAL_ADDRESS_PUBLISHER.str().data()).assertSuccess();
        }
        // be connected first: subscriptions made before are sent in no particular order
        if (c.type == SUB_TCP || c.type == SUB_INPROC) markerOn(TopicT{ 0, ++marker, false }, true);
    }
    void *sock() { return in ? in->zmq_ptr : p->s->zmq_ptr; }
    void cmd(bool on, const mdp::Topic &t) {
        if (c.type == REST) {
            mdp::BasicMessage<mdp::MessageFormat::WithSourceId> m;
            m.command = on ? Command::Subscribe : Command::Unsubscribe;
            m.topic = mdp::Message::URI(std::string(t.toMdpTopic().str()));
            { SimGuard g; opencmw::majordomo::detail::rest::restPeer()->incoming.push_back(std::move(m)); }
            netsim::wakeAll();
        } else if (c.type == DEALER) {
            p->send(clientMsg(on ? Command::Subscribe : Command::Unsubscribe, std::string(t.service()), "s", std::string(t.toMdpTopic().str()), "", "ADMIN"));
        } else {
            const std::string z = t.toZmqTopic();
            zmq::invoke(zmq_setsockopt, in ? *in : *p->s, on ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, z.data(), z.size()).assertSuccess();
        }
    }
    void pump(uint64_t ms) {
        if (c.type == REST) { sim_sleep(ms * MS); return; }
        zmq_pollitem_t it{ .socket = sock(), .fd = 0, .events = ZMQ_POLLIN, .revents = 0 };
        if (zmq_poll(&it, 1, (long) ms) <= 0) return;
        while (true) {
            if (c.type == DEALER) {
                auto m = p->recv(0);
                if (!m) return;
                onNote(c, "", nullptr, &*m);
            } else {
                auto m = zmq::receive<mdp::MessageFormat::WithSourceId>(in ? *in : *p->s);
                if (!m) return;
                if (m->serviceName == INTERNAL_SERVICE_NAMES) continue;
                onNote(c, m->sourceId, &*m, nullptr);
            }
        }
    }
    Sub *find(const TopicT &t) { for (auto &s : c.subs) if (s.t == t && !s.unsubAt) return &s; return nullptr; }
    Sub &subscribe(const TopicT &t) {
        Sub *s;
        { SimGuard g; c.subs.push_back(Sub{ t }); s = &c.subs.back(); s->subAt = sim_now() + 1; }
        cmd(true, mk(t));
        return *s;
    }
    void markerOn(const TopicT &m, bool off = false) {
        cmd(true, mk(m));
        const uint64_t t0 = sim_now();
        for (uint64_t d = 2; !W->allActive(m.svc, mk(m)); d = std::min<uint64_t>(d * 2, 500)) {
            pump(d);
            if (sim_now() - t0 > bound()) sim_fail("subscription-lost", "client %d (%s): subscription to %s does not reach the service's workers", c.id, TN[c.type], uri(m).c_str());
        }
        if (off) cmd(false, mk(m));
    }
    void confirm(Sub &s) {
        TopicT m{ s.t.svc, ++marker, false };
        markerOn(m);
        SIM_CHECK(W->allActive(s.t.svc, mk(s.t)), "subscription-lost", "client %d (%s) is subscribed to %s but a worker of the service does not know", c.id, TN[c.type], uri(s.t).c_str());
        { SimGuard g; s.confirmedAt = sim_now() + 1; }
        cmd(false, mk(m));
    }
    void drain(Sub &s) {
        if (!s.confirmedAt) return;
        const uint64_t t0 = sim_now();
        int missing = -1;
        for (uint64_t d = 5;; d = std::min<uint64_t>(d * 2, 500)) {
            { SimGuard g; if (complete(c, s, t0, &missing)) return; }
            if (sim_now() - t0 > bound()) sim_fail("lost-notification", "client %d (%s) subscribed to %s never receives notification %d", c.id, TN[c.type], uri(s.t).c_str(), missing);
            pump(d);
        }
    }
    void unsubscribe(Sub &s, bool wait) {
        TopicT m{ s.t.svc, ++marker, false };
        if (wait) markerOn(m);
        { SimGuard g; s.unsubAt = sim_now() + 1; }
        cmd(false, mk(s.t));
        if (wait) {
            cmd(false, mk(m));
            const uint64_t t0 = sim_now();
            for (uint64_t d = 2; !W->noneActive(s.t.svc, mk(m)); d = std::min<uint64_t>(d * 2, 500)) {
                pump(d);
                if (sim_now() - t0 > bound()) sim_fail("unsubscribe-ignored", "client %d (%s): %s has no subscriber any more but is still active in a worker", c.id, TN[c.type], uri(m).c_str());
            }
            { SimGuard g; s.goneAt = sim_now() + 1; }
        }
    }
};
template<units::basic_fixed_string N>
struct Wk {
    using T = BasicWorker<N, rbac<ADMIN, NONE>>;
    std::unique_ptr<T> w;
    std::thread t;
    Wk(const auto &broker) : w(std::make_unique<T>(broker, [](RequestContext &) {})) { w->template addFilter<CtxFilter>("ctx"); t = std::thread([this] { w->run(); }); }
};
struct AnyWorker {
    int svc;
    std::function<bool(mdp::Message &&)> notify;
    std::function<std::unordered_set<mdp::Topic>()> active;
    std::function<void()> stop, join;
};
template<units::basic_fixed_string N>
AnyWorker startW(int svc, const auto &broker) {
    auto k = std::make_shared<Wk<N>>(broker);
    return { svc, [k](mdp::Message &&m) { return k->w->notify(std::move(m)); }, [k] { return k->w->activeSubscriptions(); }, [k] { k->w->shutdown(); }, [k] { k->t.join(); } };
}
TopicT pick(unsigned stream, int nsvc) { return { (int) sim_wl(stream, (uint64_t) nsvc), (int) sim_wl(stream, 3), sim_wl(stream, 4) == 0 }; }

void scenario(bool churn) {
    sim_limits(6000000, 3000000);
    sim_time_limits(400000 * MS, 100000 * MS);
    World w;
    W = &w;
    const int nsvc = (int) sim_cfg("services", 1, 3), nw = (int) sim_cfg("workers", 1, 2), ncl = (int) sim_cfg("clients", 2, churn ? 6 : 4), npub = (int) sim_cfg("publishers", 1, 2);
    const int nnotes = (int) sim_cfg("notes", 5, churn ? 15 : 40), rounds = (int) sim_cfg("rounds", 1, churn ? 8 : 3);
    uint64_t hb = (uint64_t) sim_cfg("hb", 0, 2) * 400 + 200;
    const bool idle = sim_cfg_pct("idle-publisher", 15); // longer than the life time of an unused notification channel
    if (idle) hb = 200;
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = idle ? 3000 : 100; // nobody is given up because the scheduler starves it
    Broker<ADMIN, Role1, Role2> broker("/testbroker", s);
    broker.template addFilter<CtxFilter>("ctx");
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000")) || !broker.bind(URI<STRICT>("mds://127.0.0.1:5001"))) sim_fail("bind", "bind failed");
    opencmw::majordomo::detail::rest::RestPeer rp;
    rp.fd = 77;
    opencmw::majordomo::detail::rest::restPeer() = &rp;
    netsim::fdReady = [](int, short) { return opencmw::majordomo::detail::rest::restPeer() && !opencmw::majordomo::detail::rest::restPeer()->incoming.empty(); };
    if (!broker.bindRest({})) sim_fail("bind", "bindRest failed");
    Cl *restClient = nullptr;
    rp.onNotification = [&](const mdp::Topic &t, opencmw::majordomo::detail::rest::Msg9 &&m) { if (restClient) onNote(*restClient, t.toZmqTopic(), &m, nullptr); };
    std::thread bt([&] { broker.run(); });
    std::vector<AnyWorker> ws;
    for (int i = 0; i < nsvc; i++)
        for (int j = 0; j < nw; j++) ws.push_back(i == 0 ? startW<"/alpha">(0, broker) : i == 1 ? startW<"/alphabet">(1, broker) : startW<"/beta/gamma">(2, broker));
    w.allActive = [&](int svc, const mdp::Topic &t) { for (auto &x : ws) if (x.svc == svc && !x.active().contains(t)) return false; return true; };
    w.noneActive = [&](int svc, const mdp::Topic &t) { for (auto &x : ws) if (x.svc == svc && x.active().contains(t)) return false; return true; };
    sim_sleep(20 * MS);
    bool haveRest = false;
    for (int i = 0; i < ncl; i++) {
        w.cl.push_back(Cl{ i, (Type) sim_cfg("type", 0, 3), {}, {}, {} });
        if (w.cl.back().type == REST && haveRest) w.cl.back().type = SUB_TCP;
        if (w.cl.back().type == REST) { haveRest = true; restClient = &w.cl.back(); }
    }
    std::atomic<bool> pubDone{ false };
    std::atomic<int> ready{ 0 };
    std::vector<std::thread> ts;
    for (int i = 0; i < ncl; i++) ts.emplace_back([&, i] {
        Cl &c = w.cl[(size_t) i];
        const unsigned st = (unsigned) (10 + i);
        if (c.type == SUB_TCP || c.type == DEALER) netsim::node(10 + i);
        std::optional<Subscriber> me;
        me.emplace(c, broker.context, st);
        bool first = true;
        for (int r = 0; r < rounds; r++) {
            const int k = 1 + (int) sim_wl(st, 3);
            for (int j = 0; j < k; j++) {
                TopicT t = pick(st, nsvc);
                const uint64_t act = sim_wl(st, 10);
                Sub *cur = me->find(t);
                if (!cur) {
                    if (c.type == DEALER && act == 0) { me->cmd(false, mk(t)); sim_probe("rogue-unsubscribe"); continue; } // was never subscribed
                    Sub &n = me->subscribe(t);
                    if (!churn || sim_wl(st, 3)) me->confirm(n);
                } else if (c.type == DEALER && act == 1) {
                    me->cmd(true, mk(t)); // repeated: one subscription all the same
                    sim_probe("repeated-subscribe");
                } else if (act < (churn ? 8u : 3u)) {
                    if (sim_wl(st, 2)) me->drain(*cur);
                    me->unsubscribe(*cur, sim_wl(st, 3) != 0);
                }
                me->pump(sim_wl(st, 20));
            }
            if (first) { ready++; first = false; }
            me->pump(sim_wl(st, 100));
            if (churn && (c.type == SUB_TCP || c.type == SUB_INPROC) && sim_wl(st, 8) == 0) { // leaves without a word and comes back as somebody else
                { SimGuard g; for (auto &x : c.subs) if (!x.unsubAt) x.unsubAt = sim_now() + 1; c.lastSeq.clear(); }
                const int m = me->marker;
                me.reset();
                me.emplace(c, broker.context, st);
                me->marker = m;
                sim_probe("subscriber-left");
            }
        }
        if (first) ready++;
        while (!pubDone) me->pump(20);
        for (auto &x : c.subs) if (!x.unsubAt) { if (!x.confirmedAt) me->confirm(x); me->drain(x); }
        ready--;
        while (ready > 0) me->pump(20); // all are complete
        if (churn) { // everybody leaves
            for (auto &x : c.subs) if (!x.unsubAt) {
                if ((c.type == SUB_TCP || c.type == SUB_INPROC) && sim_wl(st, 2)) { SimGuard g; x.unsubAt = sim_now() + 1; }
                else me->unsubscribe(x, sim_wl(st, 2) != 0);
            }
            if (c.type == SUB_TCP || c.type == SUB_INPROC) { sim_sleep(sim_wl(st, 5) * MS); me.reset(); }
            else me->pump(400);
        }
    });
    while (ready < ncl) sim_sleep(2 * MS);
    std::vector<std::thread> ps;
    std::atomic<int> npubs{ 0 };
    auto publish = [&](size_t wi, int pub, int q, unsigned st) {
        mdp::Message m;
        int id;
        {
            SimGuard g;
            id = (int) w.notes.size();
            w.notes.push_back(Note{ id, pub, q, ws[wi].svc, (int) sim_wl(st, 4), sim_now() + 1, 0, false });
            w.byPub[{ pub, ws[wi].svc }].push_back(id);
            m.topic = mdp::Message::URI(std::string(SV[ws[wi].svc]) + (w.notes.back().ctx ? "?ctx=" + std::to_string(w.notes.back().ctx) : ""));
            m.data = buf("n" + std::to_string(id) + std::string((size_t) (id % 40), '.'));
        }
        const bool ok = ws[wi].notify(std::move(m));
        { SimGuard g; w.notes[(size_t) id].ok = ok; w.notes[(size_t) id].end = sim_now() + 1; }
        SIM_CHECK(ok, "notify-failed", "notify() fails");
    };
    const int np = (int) ws.size() * npub;
    npubs = np;
    for (int i = 0; i < np; i++)
        ps.emplace_back([&, i] {
            const size_t wi = (size_t) (i / npub);
            const int pub = i;
            const unsigned st = (unsigned) (40 + pub);
            int q = 0, nnotes2;
            for (; q < nnotes; q++) {
                publish(wi, pub, q, st);
                if (sim_wl(st, 3) == 0) sim_sleep(sim_wl(st, 30) * MS);
                if (idle && q == nnotes / 2) {
                    sim_sleep((30000 - 500 + sim_wl(st, 4) * 400) * MS + sim_wl(st, 1000000) * 100);
                    if (sim_wl(st, 2)) break;
                }
            }
            for (nnotes2 = std::min(nnotes, q + 6); q < nnotes2; q++) { // short-lived publishers
                std::thread([&] { publish(wi, npubs++, 0, st); }).join();
                sim_sleep(sim_wl(st, hb) * MS);
                if (q == nnotes2 - 1) sim_probe("short-lived-publishers");
            }
        });
    for (auto &t : ps) t.join();
    pubDone = true;
    for (auto &t : ts) t.join();
    sim_calm();
    // the workers' view is the union of the subscriptions that are left
    const uint64_t t0 = sim_now();
    while (true) {
        std::string diff;
        for (auto &x : ws) {
            std::set<std::string> have, want;
            for (auto &t : x.active()) have.insert(t.toZmqTopic());
            if (!churn) for (auto &c : w.cl) if (c.type == DEALER || c.type == REST) for (auto &z : c.subs) if (!z.unsubAt && z.t.svc == x.svc) want.insert(mk(z.t).toZmqTopic());
            if (have != want) {
                diff = SV[x.svc] + std::string(": active {");
                for (auto &h : have) diff += h + " ";
                diff += "} subscribed {";
                for (auto &h : want) diff += h + " ";
                diff += "}";
            }
        }
        if (diff.empty()) break;
        if (sim_now() - t0 > bound()) sim_fail("stale-subscription", "after all clients are done, service %s", diff.c_str());
        sim_sleep(20 * MS);
    }
    if (w.received) sim_probe("notifications");
    sim_event((uint64_t) w.received);
    for (auto &x : ws) x.stop();
    for (auto &x : ws) x.join();
    broker.shutdown();
    bt.join();
    ws.clear();
    netsim::fdReady = nullptr;
    opencmw::majordomo::detail::rest::restPeer() = nullptr;
    W = nullptr;
}
} // namespace
// Every matching notification arrives once and in order while subscribed.
SIM_SCENARIO(brk_sub) { scenario(false); }
// Subscriptions come and go without affecting one another; unused ones are withdrawn from the workers.
SIM_SCENARIO(brk_churn) { scenario(true); }

// The worker stalls for so long that it is given up and has to register again, while subscriptions come and go.
SIM_SCENARIO(brk_resub) {
    sim_limits(3000000, 1500000);
    sim_time_limits(500000 * MS, 400000 * MS);
    constexpr int NT = 4;
    struct Got { int id, client, k; };
    const int ncl = (int) sim_cfg("clients", 1, 3), rounds = (int) sim_cfg("rounds", 2, 8);
    const uint64_t hb = 100 + 100 * (uint64_t) sim_cfg("hb", 0, 2), live = 4 + (uint64_t) sim_cfg("liveness", 0, 4);
    const bool stalls = sim_cfg_pct("stalls", 80);
    netsim::cfg.stall_max = hb * live * 3 * MS;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = (int) live;
    s.clientTimeout = std::chrono::milliseconds(1000000);
    s.workerReconnectInterval = std::chrono::milliseconds(100);
    Broker<ADMIN> broker("/testbroker", s);
    broker.addFilter<CtxFilter>("ctx");
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    uint64_t stall = 0, total = 0;
    bool stalled = false;
    BasicWorker<"/alpha", rbac<ADMIN>> worker(broker, [&](RequestContext &c) {
        uint64_t ms;
        { SimGuard g; ms = stall; stalled = true; }
        if (ms) sim_sleep(ms * MS);
        c.reply.data = c.request.data;
    });
    worker.addFilter<CtxFilter>("ctx");
    std::thread wt([&] { worker.run(); });
    sim_sleep(50 * MS);
    auto topic = [](int k) { return mdp::Topic::fromString("/alpha?ctx=" + std::to_string(k)); };
    std::deque<Peer> ps(static_cast<size_t>(ncl));
    std::vector<std::set<int>> want(static_cast<size_t>(ncl));
    for (int c = 0; c < ncl; c++) ps[(size_t) c].connect("tcp://127.0.0.1:5000");
    Peer boss;
    boss.connect("tcp://127.0.0.1:5000");
    for (int r = 0; r <= rounds; r++) {
        const bool last = r == rounds;
        if (!last) {
            netsim::cfg.stall_ppm = stalls ? 20000 : 0;
            const uint64_t kind = sim_wl(3, 4); // most of the time longer than the liveness
            { SimGuard g; stall = kind == 0 ? 0 : kind == 1 ? sim_wl(3, hb * live) : hb * live + sim_wl(3, hb * live * 2); stalled = false; total += stall; }
            boss.send(clientMsg(Command::Get, "/alpha", "x" + std::to_string(r), "/alpha", "stall", "ADMIN"));
            if (sim_wl(3, 3)) { const uint64_t t0 = sim_now(); while (!stalled && sim_now() - t0 < 2000 * MS) sim_sleep(MS); }
        }
        for (int j = (int) sim_wl(3, 6); j >= 0; j--) {
            const int c = (int) sim_wl(3, (uint64_t) ncl), k = 1 + (int) sim_wl(3, NT);
            const bool on = !want[(size_t) c].count(k);
            ps[(size_t) c].send(clientMsg(on ? Command::Subscribe : Command::Unsubscribe, "/alpha", "s", "/alpha?ctx=" + std::to_string(k), "", "ADMIN"));
            if (on) want[(size_t) c].insert(k); else want[(size_t) c].erase(k);
            if (sim_wl(3, 3) == 0) sim_sleep(sim_wl(3, hb) * MS);
        }
        if (!last && sim_wl(3, 2)) continue;
        // things settle
        netsim::cfg.stall_ppm = 0;
        if (last) sim_calm();
        if (stall > hb * live) sim_probe("given-up");
        std::set<std::string> wanted;
        for (auto &x : want) for (int k : x) wanted.insert(topic(k).toZmqTopic());
        const uint64_t t0 = sim_now();
        for (;;) {
            std::set<std::string> have;
            for (auto &t : worker.activeSubscriptions()) have.insert(t.toZmqTopic());
            // N.B. while the worker is given up and comes back it may hold this set only for a moment
            const uint64_t settle = total + 12 * hb * live + 1000;
            if (have == wanted && sim_now() - t0 > settle * MS) break;
            if (have != wanted && sim_now() - t0 > settle * 2 * MS) {
                std::string d = "active {";
                for (auto &h : have) d += h + " ";
                d += "} subscribed {";
                for (auto &h : wanted) d += h + " ";
                sim_fail("stale-subscription", "once the worker has registered again: %s}", d.c_str());
            }
            sim_sleep(50 * MS);
        }
        while (boss.recv(0)) {}
        total = 0;
        // and the subscriptions work: one notification for each subscriber
        const int tag = r;
        for (int k = 1; k <= NT; k++) {
            mdp::Message m;
            m.topic = mdp::Message::URI("/alpha?ctx=" + std::to_string(k));
            m.data = buf("n" + std::to_string(tag) + "/" + std::to_string(k));
            SIM_CHECK(worker.notify(std::move(m)), "notify-failed", "notify() fails");
        }
        for (int c = 0; c < ncl; c++) {
            std::set<int> missing = want[(size_t) c];
            const uint64_t t1 = sim_now();
            while (sim_now() - t1 < (missing.empty() ? 20 : 5000) * MS) {
                auto m = ps[(size_t) c].recv(20);
                if (!m) continue;
                const std::string d = str(m->data), w0 = "n" + std::to_string(tag) + "/";
                const int k = d.starts_with(w0) ? atoi(d.c_str() + w0.size()) : 0;
                SIM_CHECK(k && missing.erase(k), "wrong-notification", "client %d gets '%s', which it is not waiting for", c, d.c_str());
                SIM_CHECK(m->topic.str() == "/alpha?ctx=" + std::to_string(k), "wrong-notification", "client %d gets '%s' with topic %s", c, d.c_str(), std::string(m->topic.str()).c_str());
                sim_probe("notified");
            }
            if (!missing.empty()) sim_fail("lost-notification", "client %d does not get the notification of /alpha?ctx=%d although the subscription is in force", c, *missing.begin());
        }
    }
    worker.shutdown();
    wt.join();
    broker.shutdown();
    bt.join();
}
