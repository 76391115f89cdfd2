// Broker and workers: request/reply, scheduling, recovery.
#include "net_common.hpp"
using namespace net;

namespace {
enum Kind { OK, THROW, THROW_INT, SLOW, NOSVC, ECHO, MMI };
namespace rs = opencmw::majordomo::detail::rest;
struct Req {
    int client, kind, svc; bool set; std::string role, service, topic, data, rid;
    int handled = 0, replies = 0; uint64_t sentAt = 0, doneAt = 0;
};
struct World {
    std::map<std::string, Req> reqs; // by payload
    bool lossy = false, hostile = false;
    bool strict = true; // every request is answered
    uint64_t slowMs = 50;
    long handledTotal = 0;
    std::vector<std::string> order; // of handling
};
World *W;
constexpr const char *SVC[] = { "/alpha", "/alphabet", "/beta/gamma" };
bool allowed(const Req &r) {
    // workers serve ADMIN (RW), BOSS (RW), VIEW (RO), PUSH (WO), and all other roles like the last one: NONE
    if (r.role == "ADMIN" || r.role == "BOSS") return true;
    if (r.role == "VIEW") return !r.set;
    if (r.role == "PUSH") return r.set;
    return false;
}
// what a worker's handler does; also used by protocol-level workers
void handle(int svc, const std::string &data, std::string &reply) {
    int kind;
    {
        SimGuard g;
        auto it = W->reqs.find(data);
        if (it == W->reqs.end() && W->hostile) { reply = "?"; return; }
        SIM_CHECK(it != W->reqs.end(), "invented-request", "a worker receives a request nobody sent: '%s'", data.c_str());
        Req &r = it->second;
        kind = r.kind;
        SIM_CHECK(kind != NOSVC && kind != ECHO && kind != MMI, "misrouted-request", "request '%s' for %s reaches a worker of %s", data.c_str(), r.service.c_str(), SVC[svc]);
        SIM_CHECK(r.svc == svc, "misrouted-request", "request '%s' for %s reaches a worker of %s", data.c_str(), r.service.c_str(), SVC[svc]);
        SIM_CHECK(++r.handled == 1, "handled-twice", "request '%s' is given to a worker %d times", data.c_str(), r.handled);
        W->handledTotal++;
        W->order.push_back(data);
    }
    if (kind == SLOW) sim_sleep(W->slowMs * MS);
    if (kind == THROW) { sim_probe("handler-threw"); throw std::runtime_error("boom-" + data); }
    if (kind == THROW_INT) throw 42;
    reply = "R:" + data;
}
void onReply(int client, const auto &m) {
    SimGuard g;
    const std::string rid = str(m.clientRequestID);
    Req *r = nullptr;
    for (auto &[k, x] : W->reqs) if (x.rid == rid && x.client == client) r = &x;
    if (!r) sim_fail("misrouted-reply", "client %d receives a message with request id '%s' it never used (data '%s')", client, rid.c_str(), str(m.data).c_str());
    SIM_CHECK(m.protocolName == mdp::clientProtocol && (m.command == Command::Final || r->kind == ECHO), "reply-form", "reply to '%s' has protocol %s command %d", r->data.c_str(), m.protocolName.c_str(), (int) m.command);
    SIM_CHECK(r->sentAt, "misrouted-reply", "reply to '%s' before it was sent", r->data.c_str());
    SIM_CHECK(++r->replies == 1, "duplicate-reply", "request '%s' receives a second reply", r->data.c_str());
    r->doneAt = sim_now();
    const std::string d = str(m.data);
    const bool denied = r->kind <= SLOW && !allowed(*r);
    if (denied) {
        SIM_CHECK(!m.error.empty() && m.error.find("denied") != std::string::npos && d.empty() && r->handled == 0, "permission", "%s by role '%s' is not refused: data '%s' error '%s', handled %d", r->set ? "SET" : "GET", r->role.c_str(), d.c_str(), m.error.c_str(), r->handled);
        sim_probe("access-denied");
        return;
    }
    switch (r->kind) {
    case OK: case SLOW:
        SIM_CHECK(d == "R:" + r->data && m.error.empty(), "wrong-reply", "reply to '%s' is '%s' error '%s'", r->data.c_str(), d.c_str(), m.error.c_str());
        SIM_CHECK(m.serviceName == SVC[r->svc] && m.topic.str() == r->topic, "wrong-reply", "reply to '%s' names service '%s' topic '%s' instead of '%s' '%s'", r->data.c_str(), m.serviceName.c_str(), std::string(m.topic.str()).c_str(), SVC[r->svc], r->topic.c_str());
        break;
    case THROW:
        SIM_CHECK(m.error.find("boom-" + r->data) != std::string::npos && d.empty(), "error-reply", "handler threw for '%s' but the reply is data '%s' error '%s'", r->data.c_str(), d.c_str(), m.error.c_str());
        break;
    case THROW_INT:
        SIM_CHECK(!m.error.empty() && d.empty(), "error-reply", "handler threw for '%s' but the reply is data '%s' error '%s'", r->data.c_str(), d.c_str(), m.error.c_str());
        break;
    case NOSVC:
        SIM_CHECK(m.error.find("unknown service") != std::string::npos && d.empty(), "unknown-service", "request for an unknown service is answered with data '%s' error '%s'", d.c_str(), m.error.c_str());
        sim_probe("unknown-service");
        break;
    case ECHO:
        SIM_CHECK(d == r->data && m.error.empty(), "wrong-reply", "echo of '%s' is '%s'", r->data.c_str(), d.c_str());
        break;
    case MMI: break;
    }
}
template<units::basic_fixed_string N, int I>
struct W_ {
    using T = BasicWorker<N, rbac<ADMIN, Role1, Role2, Role3, NONE>>;
    static std::unique_ptr<T> make(const auto &broker) {
        return std::make_unique<T>(broker, [](RequestContext &c) {
            std::string out;
            handle(I, str(c.request.data), out);
            c.reply.data = buf(out);
        });
    }
};
struct WorkerThread {
    std::function<void()> stop;
    std::thread t;
    std::shared_ptr<std::atomic<bool>> done = std::make_shared<std::atomic<bool>>(false);
};
template<units::basic_fixed_string N, int I>
WorkerThread startBasic(const auto &broker) {
    WorkerThread r;
    auto w = std::shared_ptr<typename W_<N, I>::T>(W_<N, I>::make(broker));
    r.stop = [w] { w->shutdown(); };
    r.t = std::thread([w, d = r.done] { w->run(); *d = true; });
    return r;
}
WorkerThread startWorker(int svc, const auto &broker) {
    switch (svc) {
    case 0: return startBasic<"/alpha", 0>(broker);
    case 1: return startBasic<"/alphabet", 1>(broker);
    default: return startBasic<"/beta/gamma", 2>(broker);
    }
}
// protocol-level worker in its own process; answers after a while and checks that it gets one request at a time
void protoWorker(int svc, std::string ep, std::shared_ptr<std::atomic<bool>> stop, uint64_t hbMs, unsigned stream) {
    Peer p;
    p.connect(ep);
    auto ready = workerMsg(Command::Ready, SVC[svc]);
    ready.data = buf("description");
    p.send(std::move(ready));
    uint64_t nextHb = sim_now() + hbMs * MS;
    std::optional<mdp::Message> cur;
    uint64_t replyAt = 0;
    while (!*stop || cur) {
        uint64_t now = sim_now();
        if (now >= nextHb) { p.send(workerMsg(Command::Heartbeat, SVC[svc])); nextHb = now + hbMs * MS; }
        if (cur && now >= replyAt) {
            mdp::Message rep = workerMsg(Command::Final, cur->serviceName);
            rep.clientRequestID = cur->clientRequestID;
            rep.topic = cur->topic;
            Req q;
            { SimGuard g; auto it = W->reqs.find(str(cur->data)); if (it != W->reqs.end()) q = it->second; }
            if (!allowed(q)) rep.error = "access denied";
            else {
                try { std::string out; handle(svc, str(cur->data), out); rep.data = buf(out); }
                catch (const std::exception &e) { rep.error = e.what(); }
                catch (...) { rep.error = "unexpected"; }
            }
            cur.reset();
            p.send(std::move(rep));
            continue;
        }
        uint64_t until = std::min(nextHb, cur ? replyAt : nextHb);
        auto m = p.recv(now >= until ? 1 : std::max<uint64_t>(1, (until - now) / MS));
        if (!m) continue;
        if (m->command == Command::Get || m->command == Command::Set) {
            SIM_CHECK(!cur, "two-at-once", "a worker that has not answered yet is given a second request '%s'", str(m->data).c_str());
            SIM_CHECK(m->protocolName == mdp::workerProtocol, "reply-form", "request reaches the worker with protocol %s", m->protocolName.c_str());
            cur = std::move(*m);
            replyAt = sim_now() + sim_wl(stream, 40) * MS;
        } else if (m->command == Command::Disconnect) return;
    }
}
void restClient(int id, std::vector<std::string> todo, uint64_t giveUpMs, unsigned stream) {
    size_t next = 0;
    while (next < todo.size()) {
        const size_t first = next;
        const int burst = 1 + (int) sim_wl(stream, 4);
        {
            SimGuard g;
            for (int k = 0; k < burst && next < todo.size(); k++, next++) {
                auto &x = W->reqs.at(todo[next]);
                x.sentAt = sim_now() + 1;
                rs::Msg9 m;
                m.command = x.set ? Command::Set : Command::Get;
                m.serviceName = x.service;
                m.topic = mdp::Message::URI(x.topic);
                m.clientRequestID = buf(x.rid);
                m.data = buf(x.data);
                if (!x.role.empty()) m.rbac = buf("RBAC=" + x.role + ",123456abcdef");
                rs::restPeer()->incoming.push_back(std::move(m));
            }
        }
        netsim::wakeAll();
        const uint64_t t0 = sim_now();
        for (size_t i = first; i < next;) {
            sim_sleep(10 * MS);
            SimGuard g;
            while (i < next && W->reqs.at(todo[i]).replies) i++;
            if (i < next && sim_now() - t0 > giveUpMs * MS) sim_fail("no-reply", "REST request '%s' (%s, client %d) has no reply after %lu ms (handled %d times)", todo[i].c_str(), W->reqs.at(todo[i]).service.c_str(), id, (sim_now() - t0) / MS, W->reqs.at(todo[i]).handled);
        }
        if (sim_wl(stream, 2)) sim_sleep(sim_wl(stream, 100) * MS);
    }
}
void client(int id, std::string ep, std::vector<std::string> todo, int window, uint64_t giveUpMs, unsigned stream, uint64_t pauseMs = 0) {
    Peer p;
    p.connect(ep);
    size_t next = 0;
    int open = 0;
    uint64_t last = sim_now(), nextSend = 0;
    while (true) {
        if (next < todo.size() && open < window && sim_now() >= nextSend) {
            Req r;
            { SimGuard g; auto &x = W->reqs.at(todo[next]); x.sentAt = sim_now() + 1; r = x; }
            p.send(clientMsg(r.set ? Command::Set : Command::Get, r.service, r.rid, r.topic, r.data, r.role));
            next++;
            open++;
            last = sim_now();
            nextSend = sim_now() + (pauseMs ? sim_wl(stream, pauseMs) * MS : sim_wl(stream, 3) ? 0 : sim_wl(stream, 30) * MS);
            continue;
        }
        if (next >= todo.size() && open == 0) break;
        auto m = p.recv(20);
        if (m) { onReply(id, *m); open--; last = sim_now(); }
        else if (sim_now() - last > giveUpMs * MS) {
            SimGuard g;
            if (W->strict)
                for (auto &[k, r] : W->reqs)
                    if (r.client == id && r.sentAt && !r.replies) sim_fail("no-reply", "request '%s' (%s, role %s) has no reply after %lu ms (handled %d times)", r.data.c_str(), r.service.c_str(), r.role.c_str(), (sim_now() - r.sentAt) / MS, r.handled);
            open = 0;
            last = sim_now();
            if (next >= todo.size()) break;
        }
    }
}
std::string newReq(int c, int n, int nsvc, const char *tag, unsigned stream, bool plain = false) {
    Req r;
    r.client = c;
    const uint64_t k = plain ? 0 : sim_wl(stream, 20);
    r.kind = k < 12 ? OK : k < 14 ? SLOW : k == 14 ? THROW : k == 15 ? THROW_INT : k == 16 ? NOSVC : k == 17 ? ECHO : k == 18 ? MMI : OK;
    r.svc = (int) sim_wl(stream, (uint64_t) nsvc);
    r.set = sim_wl(stream, 2);
    const char *roles[] = { "ADMIN", "BOSS", "VIEW", "PUSH", "NONE", "STRANGER", "" };
    r.role = plain ? roles[sim_wl(stream, 2)] : roles[sim_wl(stream, 3) ? sim_wl(stream, 2) : sim_wl(stream, 7)];
    r.data = std::string(tag) + std::to_string(c) + "-" + std::to_string(n);
    r.rid = sim_wl(stream, 8) ? std::to_string(n) : "id " + std::to_string(n); // ids of different clients coincide
    r.service = SVC[r.svc];
    r.topic = std::string(SVC[r.svc]) + "?ctx=" + std::to_string(n);
    if (r.kind == NOSVC) { // among them beginnings of registered names
        const char *no[] = { "/nosuch.service", "/alph", "/beta", "/mmi", "/beta/gamm", "/z" };
        r.service = r.topic = no[sim_wl(stream, 6)];
    }
    if (r.kind == ECHO) r.service = r.topic = "/mmi.echo";
    if (r.kind == MMI) r.service = r.topic = "/mmi.service";
    if (r.kind == OK && r.svc == 2 && !sim_wl(stream, 4)) { r.service += "/sub"; r.topic = r.service; } // sub-resource of a service
    W->reqs.emplace(r.data, r);
    return r.data;
}
} // namespace

// Every request gets exactly one reply: the right one, to the right client, from a worker of the named service.
SIM_SCENARIO(brk_req) {
    sim_limits(4000000, 2000000);
    sim_time_limits(300000 * MS, 200000 * MS);
    World w;
    W = &w;
    int nc = (int) sim_cfg("clients", 1, 4), nsvc = (int) sim_cfg("services", 1, 3), nr = (int) sim_cfg("requests", 3, 10);
    const int mode = (int) sim_cfg("mode", 0, 6); // 0: clients expire soon, but not those that are active; 1: nothing is due to heart-beats; 2: workers that are never idle
    const bool expiry = mode == 0, longHb = mode == 1, steady = mode == 2, rest = sim_cfg_pct("rest", 40) && !steady;
    if (steady) { nsvc = 1; nc = std::max(nc, 3); nr = 10 + nr / 2; w.slowMs = 300; }
    const uint64_t hb = longHb ? 30000 : steady ? 200 : (uint64_t) sim_cfg("hb", 0, 2) * 400 + 200;
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    if (!expiry && !longHb && !steady && sim_cfg_pct("slow-handlers", 20)) w.slowMs = hb * 5; // longer than the liveness of a silent worker
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = steady || sim_cfg_pct("liveness", 30) ? 20 : 100; // nobody is given up because the scheduler starves it
    s.clientTimeout = std::chrono::milliseconds(expiry ? 8000 : 200000); // replies awaited longer than this may be dropped
    s.workerReconnectInterval = std::chrono::milliseconds(300);
    Broker<ADMIN, Role1, Role2> broker("/testbroker", s);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000")) || !broker.bind(URI<STRICT>("mds://127.0.0.1:5001"))) sim_fail("bind", "bind failed");
    rs::RestPeer rp;
    if (rest) {
        rp.fd = 77;
        rs::restPeer() = &rp;
        netsim::fdReady = [](int, short) { return rs::restPeer() && !rs::restPeer()->incoming.empty(); };
        rp.onResponse = [](rs::Msg9 &&m) { onReply(6, m); };
        if (!broker.bindRest({})) sim_fail("bind", "bindRest failed");
    }
    std::thread bt([&] { broker.run(); });
    auto stop = std::make_shared<std::atomic<bool>>(false);
    std::vector<WorkerThread> ws;
    std::vector<std::thread> proto;
    std::set<int> withProto;
    for (int i = 0; i < nsvc; i++) {
        const int k = steady ? 1 : (int) sim_cfg("workers", 1, 3);
        for (int j = 0; j < k; j++) {
            if (!steady && sim_cfg_pct("proto-worker", 30)) {
                proto.emplace_back([=] { netsim::node(50 + i * 4 + j); protoWorker(i, "tcp://127.0.0.1:5000", stop, hb, (unsigned) (100 + i * 4 + j)); });
            } else ws.push_back(startWorker(i, broker));
        }
    }
    sim_sleep((100 + (netsim::cfg.delay_ppm ? 500 : 0)) * MS); // services are registered
    if (expiry && sim_cfg_pct("quitters", 60)) { // clients that are gone when the reply comes
        const int k = 1 + (int) sim_wl(19, 3);
        w.slowMs = 9000;
        std::vector<std::string> q;
        for (int n = 0; n < k; n++) {
            auto d = newReq(8, 100 + n, nsvc, "gone", 19, true);
            w.reqs.at(d).kind = SLOW;
            w.reqs.at(d).role = "ADMIN";
            q.push_back(d);
        }
        std::thread t([&] {
            netsim::node(11);
            Peer p;
            p.connect("tcp://127.0.0.1:5000");
            for (auto &d : q) {
                Req r;
                { SimGuard g; auto &x = w.reqs.at(d); x.sentAt = sim_now() + 1; r = x; }
                p.send(clientMsg(Command::Get, r.service, r.rid, r.topic, r.data, r.role));
            }
            sim_sleep(2000 * MS);
        });
        t.join();
        sim_sleep((uint64_t) k * 9500 * MS);
        w.slowMs = 50;
        sim_probe("client-gone");
    }
    std::vector<std::vector<std::string>> todo((size_t) nc);
    for (int c = 0; c < nc; c++)
        for (int n = 0; n < nr; n++) todo[(size_t) c].push_back(newReq(c, n, nsvc, "q", (unsigned) (1 + c)));
    if (steady)
        for (auto &[k, r] : w.reqs)
            if (r.kind == OK && sim_wl(18, 12)) r.kind = SLOW;
    std::vector<std::string> rtodo;
    if (rest) for (int n = 0; n < nr; n++) rtodo.push_back(newReq(6, n, nsvc, "r", 7));
    std::vector<std::thread> cs;
    const int window = steady ? 8 : (int) sim_cfg("window", 1, 8);
    const uint64_t giveUp = longHb ? 20000 : 60000;
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(2 + c); client(c, "tcp://127.0.0.1:5000", todo[(size_t) c], window, giveUp, (unsigned) (20 + c), expiry ? 3000 : 0); });
    if (rest) cs.emplace_back([&] { restClient(6, rtodo, giveUp, 28); });
    for (auto &t : cs) t.join();
    sim_sleep(300 * MS); // late duplicates would show up as handled twice
    {
        SimGuard g;
        for (auto &[k, r] : w.reqs) {
            if (r.client == 8) continue; // gone
            SIM_CHECK(r.replies == 1, "no-reply", "request '%s' has %d replies", k.c_str(), r.replies);
            const bool must = r.kind <= SLOW && allowed(r);
            SIM_CHECK(r.handled == (must ? 1 : 0), "handled-count", "request '%s' was handled %d times", k.c_str(), r.handled);
        }
    }
    sim_calm();
    *stop = true;
    for (auto &t : proto) t.join();
    const bool brokerFirst = sim_cfg_pct("broker-first", 50);
    if (brokerFirst) { // the workers of a broker that shuts down end
        broker.shutdown();
        bt.join();
        sim_probe("broker-first");
        for (auto &x : ws) x.t.join();
    } else {
        for (auto &x : ws) x.stop();
        for (auto &x : ws) x.t.join();
        broker.shutdown();
        bt.join();
    }
    rs::restPeer() = nullptr;
    ws.clear();
    W = nullptr;
}

// ---- scheduling: higher roles first, first come first served within a role, one request at a time ----
namespace {
struct PItem { int client, seq, queue; std::string role, data; uint64_t queuedAt = 0, handedAt = 0; bool replied = false; };
struct PWorld { std::deque<PItem> items; uint64_t lastReturn = 0; bool busy = false; } *PW;
}
SIM_SCENARIO(brk_prio) {
    sim_limits(3000000, 2000000);
    sim_time_limits(200000 * MS, 60000 * MS);
    PWorld w;
    PW = &w;
    const int nc = (int) sim_cfg("clients", 1, 3), batches = (int) sim_cfg("batches", 1, 4);
    const uint64_t hb = (uint64_t) sim_cfg("hb", 0, 2) * 400 + 200;
    if (sim_cfg_pct("delays", 30)) netsim::cfg.delay_ppm = 60000;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    Broker<ADMIN, Role1, Role2> broker("/testbroker", s);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    using RAny = Role<"ANYBODY", Permission::RW>;
    BasicWorker<"/alpha", rbac<ADMIN, Role1, Role2, RAny>> worker(broker, [&](RequestContext &c) {
        uint64_t ms;
        {
            SimGuard g;
            const std::string d = str(c.request.data);
            PItem *r = nullptr;
            for (auto &i : w.items) if (i.data == d) r = &i;
            SIM_CHECK(r && !r->handedAt, "handled-twice", "request '%s' handled again (or invented)", d.c_str());
            SIM_CHECK(!w.busy, "two-at-once", "the only worker is given two requests at a time");
            w.busy = true;
            for (auto &q : w.items) {
                if (q.handedAt || &q == r) continue;
                if (q.queuedAt && q.queuedAt < w.lastReturn) {
                    sim_probe("choice");
                    SIM_CHECK(q.queue >= r->queue, "priority", "request '%s' of role %s is served while '%s' of the more important role %s has been waiting", r->data.c_str(), r->role.c_str(), q.data.c_str(), q.role.c_str());
                }
                SIM_CHECK(!(q.client == r->client && q.queue == r->queue && q.seq < r->seq), "fifo", "request '%s' is served before '%s' of the same client and priority, which was sent earlier", r->data.c_str(), q.data.c_str());
            }
            r->handedAt = sim_now() + 1;
            sim_class((uint64_t) r->queue);
            ms = r->seq == 0 ? 100 : sim_wl(5, 3) ? sim_wl(5, 8) : 0;
        }
        if (ms) sim_sleep(ms * MS);
        c.reply.data = c.request.data;
        SimGuard g;
        w.busy = false;
        w.lastReturn = sim_now() + 1;
    });
    std::thread wt([&] { worker.run(); });
    sim_sleep(50 * MS);
    std::vector<std::thread> cs;
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] {
        netsim::node(2 + c);
        const unsigned st = (unsigned) (20 + c);
        Peer p;
        p.connect("tcp://127.0.0.1:5000");
        int seq = 0, outstanding = 0;
        const char *roles[] = { "ADMIN", "BOSS", "VIEW", "STRANGER", "" };
        auto take = [&](const mdp::Message &m, uint64_t &echoed) {
            SimGuard g;
            const std::string d = str(m.data), rid = str(m.clientRequestID);
            if (rid.rfind("echo", 0) == 0) { echoed = (uint64_t) atoi(rid.c_str() + 4) + 1; return; }
            for (auto &i : w.items) if (i.client == c && i.data == d) {
                SIM_CHECK(!i.replied && i.handedAt && m.error.empty(), "wrong-reply", "reply to '%s': already replied %d, error '%s'", d.c_str(), i.replied, m.error.c_str());
                i.replied = true;
                outstanding--;
                return;
            }
            sim_fail("misrouted-reply", "client %d receives '%s'", c, d.c_str());
        };
        for (int b = 0; b < batches; b++) {
            const int k = 1 + (int) sim_wl(st, 6);
            std::vector<PItem *> mine;
            for (int i = 0; i < k; i++) {
                PItem *it;
                {
                    SimGuard g;
                    const auto ri = sim_wl(st, 5);
                    w.items.push_back(PItem{ c, seq, (int) std::min<uint64_t>(ri, 2), roles[ri], "p" + std::to_string(c) + "-" + std::to_string(seq), 0, 0, false });
                    it = &w.items.back();
                    seq++;
                }
                mine.push_back(it);
                p.send(clientMsg(Command::Get, "/alpha", std::to_string(it->seq), "/alpha", it->data, it->role));
                outstanding++;
            }
            p.send(clientMsg(Command::Get, "/mmi.echo", "echo" + std::to_string(b), "/mmi.echo", "e", "ADMIN"));
            uint64_t echoed = 0;
            const uint64_t t0 = sim_now();
            while (echoed != (uint64_t) b + 1) {
                auto m = p.recv(20);
                if (m) take(*m, echoed);
                else if (sim_now() - t0 > 60000 * MS) sim_fail("no-reply", "echo is not answered");
            }
            { SimGuard g; for (auto *i : mine) i->queuedAt = sim_now() + 1; }
            if (sim_wl(st, 2)) sim_sleep(sim_wl(st, 60) * MS);
        }
        uint64_t last = sim_now(), e = 0;
        while (outstanding) {
            auto m = p.recv(20);
            if (m) { take(*m, e); last = sim_now(); }
            else if (sim_now() - last > 60000 * MS) sim_fail("no-reply", "%d requests of client %d are never answered", outstanding, c);
        }
    });
    for (auto &t : cs) t.join();
    sim_calm();
    worker.shutdown();
    wt.join();
    broker.shutdown();
    bt.join();
    PW = nullptr;
}

// ---- recovery: stalls, crashed workers and clients, broken connections; afterwards every service answers again ----
SIM_SCENARIO(brk_recover) {
    sim_limits(4000000, 4000000);
    sim_time_limits(300000 * MS, 200000 * MS);
    World w;
    W = &w;
    w.strict = false;
    w.lossy = true;
    const int nc = (int) sim_cfg("clients", 1, 3), nsvc = (int) sim_cfg("services", 1, 3), nr = (int) sim_cfg("requests", 3, 10);
    const uint64_t hb = (uint64_t) sim_cfg("hb", 0, 2) * 300 + 200;
    netsim::cfg.stall_max = hb * 10 * MS;
    if (sim_cfg_pct("stalls", 70)) netsim::cfg.stall_ppm = 20000;
    if (sim_cfg_pct("breaks", 50)) netsim::cfg.drop_ppm = 30000;
    if (sim_cfg_pct("refuse", 30)) netsim::cfg.refuse_ppm = 200000;
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    const bool crashes = sim_cfg_pct("crashes", 50), partition = sim_cfg_pct("partition", 30);
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.clientTimeout = std::chrono::milliseconds(sim_cfg_pct("short-client-timeout", 30) ? 2000 : 200000);
    s.workerReconnectInterval = std::chrono::milliseconds(300);
    Broker<ADMIN, Role1, Role2> broker("/testbroker", s);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    auto stop = std::make_shared<std::atomic<bool>>(false);
    std::vector<WorkerThread> ws;
    std::vector<std::pair<int, std::thread>> proto; // node, thread
    std::vector<WorkerThread> spare;                // leave while others stay
    for (int i = 0; i < nsvc; i++) {
        ws.push_back(startWorker(i, broker)); // every service has one worker that is not crashed
        if (sim_cfg_pct("second-worker", 40)) spare.push_back(startWorker(i, broker));
        if (crashes && sim_cfg_pct("proto-worker", 60)) proto.emplace_back(50 + i, std::thread([=] { netsim::node(50 + i); protoWorker(i, "tcp://127.0.0.1:5000", stop, hb, (unsigned) (100 + i)); }));
    }
    sim_sleep(100 * MS);
    std::vector<std::vector<std::string>> todo((size_t) nc), again((size_t) nc), third((size_t) nc);
    for (int c = 0; c < nc; c++) {
        for (int n = 0; n < nr; n++) todo[(size_t) c].push_back(newReq(c, n, nsvc, "q", (unsigned) (1 + c)));
        for (int n = 0; n < nsvc * 2; n++) {
            auto d = newReq(10 + c, 1000 + n, nsvc, "a", (unsigned) (1 + c), true);
            Req &r = w.reqs.at(d);
            r.svc = n % nsvc;
            r.service = SVC[r.svc];
            r.topic = r.service;
            again[(size_t) c].push_back(d);
            d = newReq(40 + c, 2000 + n, nsvc, "z", (unsigned) (1 + c), true);
            w.reqs.at(d).svc = n % nsvc;
            w.reqs.at(d).service = w.reqs.at(d).topic = SVC[n % nsvc];
            third[(size_t) c].push_back(d);
        }
    }
    std::vector<std::thread> cs;
    const int window = (int) sim_cfg("window", 1, 8);
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(2 + c); client(c, "tcp://127.0.0.1:5000", todo[(size_t) c], window, hb * 12, (unsigned) (20 + c)); });
    if (partition) { sim_sleep(sim_wl(9, 300) * MS); netsim::partition(1, 2, (100 + sim_wl(9, 3000)) * MS); sim_probe("partition"); }
    for (auto &[node, t] : proto) {
        sim_sleep(sim_wl(9, 200) * MS);
        if (sim_wl(9, 3)) { netsim::crash(node); t.detach(); node = -1; sim_probe("worker-crash"); }
    }
    for (auto &t : cs) t.join();
    cs.clear();
    sim_calm(); // faults are over
    *stop = true;
    for (auto &[node, t] : proto) if (node >= 0) t.join();
    // stalled threads wake up, dead workers expire, live ones register again
    sim_sleep((hb * 30 + 2000) * MS);
    w.strict = true;
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(20 + c); client(10 + c, "tcp://127.0.0.1:5000", again[(size_t) c], window, 20000, (unsigned) (30 + c)); });
    for (auto &t : cs) t.join();
    {
        SimGuard g;
        for (auto &x : ws) SIM_CHECK(!*x.done, "worker-gone", "a worker ended by itself although the broker is running");
        for (auto &x : spare) SIM_CHECK(!*x.done, "worker-gone", "a worker ended by itself although the broker is running");
        for (auto &[k, r] : w.reqs) if (r.client >= 10 && r.client < 40) SIM_CHECK(r.replies == 1, "no-reply", "after the faults request '%s' has %d replies", k.c_str(), r.replies);
    }
    if (!spare.empty()) { // some workers sign off, the others take over at once
        for (auto &x : spare) x.stop();
        for (auto &x : spare) x.t.join();
        sim_sleep(20 * MS);
        cs.clear();
        for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(30 + c); client(40 + c, "tcp://127.0.0.1:5000", third[(size_t) c], window, 20000, (unsigned) (30 + c)); });
        for (auto &t : cs) t.join();
        sim_probe("worker-left");
        SimGuard g;
        for (auto &[k, r] : w.reqs) if (r.client >= 40) SIM_CHECK(r.replies == 1, "no-reply", "after a worker signed off, request '%s' has %d replies", k.c_str(), r.replies);
    }
    for (auto &x : ws) x.stop();
    for (auto &x : ws) x.t.join();
    broker.shutdown();
    bt.join();
    ws.clear();
    spare.clear();
    W = nullptr;
}

// ---- malformed messages: whatever peers send, the broker keeps serving the others ----
namespace {
std::string junk(unsigned st) {
    static const std::string J[] = { "", "/", "//", "?", "#", "%", "%zz", "/a b", "://", "a://", "mdp://x:99999999999/", "http://[::1", "/alpha?ctx", "/alpha?ctx=", "/alpha?=1", "/alpha?a=%", "/alpha?a=1&a=2", "mdp:///", "/alpha/../beta",
        std::string("\0", 1), std::string("\xff\xfe\0\1", 4), "RBAC=", "RBAC=,", "RBAC", "RBAC=ADMIN", "RBAC=ADMIN,a,b", "MDPC03", "MDPW03", "/mmi.dns", "/mmi.service", "/mmi.openapi", "rest", "mds://127.0.0.1:1/x", "@", "user@:80", ":", "[", "]", std::string(3000, 'a'), "/" + std::string(300, '/') };
    constexpr size_t N = sizeof J / sizeof *J;
    if (sim_wl(st, 4)) return J[sim_wl(st, N)];
    std::string r;
    for (uint64_t k = sim_wl(st, 12); k > 0; k--) r += sim_wl(st, 2) ? (char) sim_wl(st, 256) : "/?#%&=:@[],.a1"[sim_wl(st, 14)];
    return r;
}
void hostile(unsigned st, int n, std::string ep) {
    Peer p(sim_wl(st, 5) == 0 ? ZMQ_SUB : ZMQ_DEALER);
    const bool isSub = p.type == ZMQ_SUB;
    p.connect(isSub ? "tcp://127.0.0.1:5001" : ep);
    const char *svcs[] = { "/alpha", "/alphabet", "/rogue", "/nosuch", "", "/", "/mmi.dns", "/mmi.service", "/mmi.openapi", "/mmi.echo", "x" };
    std::vector<std::string> subs;
    for (int i = 0; i < n; i++) {
        if (isSub) {
            if (subs.empty() || sim_wl(st, 3)) { subs.push_back(junk(st)); p.sub(subs.back()); }
            else { p.unsub(subs.back()); subs.pop_back(); }
        } else {
            const bool worker = sim_wl(st, 3) == 0;
            std::vector<std::string> f{ worker ? "MDPW03" : "MDPC03", std::string(1, (char) (1 + sim_wl(st, 10))), svcs[sim_wl(st, 11)], "r" + std::to_string(i), "/alpha?ctx=1", "X", "", "RBAC=ADMIN,123" };
            if (worker && f[1][0] == (char) Command::Ready && (f[2] == "/alpha" || f[2] == "/alphabet")) f[2] = "/rogue"; // a worker that does not work may well take requests
            if (worker && f[1][0] == (char) Command::Ready && f[2].rfind("/mmi", 0) == 0) f[2] = "/rogue";
            for (uint64_t k = sim_wl(st, 4); k > 0; k--) {
                const size_t j = sim_wl(st, 8);
                if (worker && f[1].size() == 1 && f[1][0] == (char) Command::Ready && j == 2) continue;
                if (j == 0 && f[1].size() == 1 && f[1][0] == (char) Command::Ready) continue;
                if (j == 1) f[j] = sim_wl(st, 2) ? std::string(1, (char) (11 + sim_wl(st, 245))) : junk(st);
                else f[j] = junk(st);
            }
            if (f[1].size() == 1 && f[1][0] == (char) Command::Ready && f[0] != "MDPC03" && (f[2] == "/alpha" || f[2] == "/alphabet")) f[2] = "/rogue";
            const uint64_t cut = sim_wl(st, 8);
            if (cut == 0) f.resize(1 + sim_wl(st, 7));
            if (cut == 1) for (uint64_t k = 1 + sim_wl(st, 4); k > 0; k--) f.push_back(junk(st));
            p.raw(f);
            if (worker && sim_wl(st, 4) == 0) p.raw(f); // once more
            while (p.recv(0)) {}
        }
        sim_sleep(sim_wl(st, 30) * MS);
    }
}
}
SIM_SCENARIO(brk_hostile) {
    sim_limits(4000000, 2000000);
    sim_time_limits(200000 * MS, 60000 * MS);
    World w;
    W = &w;
    w.hostile = true;
    const int nc = (int) sim_cfg("clients", 1, 2), nsvc = 2, nr = (int) sim_cfg("requests", 3, 10), nh = (int) sim_cfg("hostile", 1, 4);
    const uint64_t hb = (uint64_t) sim_cfg("hb", 0, 2) * 100 + 100;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = 20;
    s.dnsTimeout = std::chrono::milliseconds(sim_cfg_pct("dns", 50) ? 1000 : 10000);
    s.clientTimeout = std::chrono::milliseconds(200000);
    Broker<ADMIN, Role1, Role2> broker("/testbroker", s);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000")) || !broker.bind(URI<STRICT>("mds://127.0.0.1:5001"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    std::vector<WorkerThread> ws;
    for (int i = 0; i < nsvc; i++) ws.push_back(startWorker(i, broker));
    sim_sleep(100 * MS);
    std::vector<std::vector<std::string>> todo((size_t) nc);
    for (int c = 0; c < nc; c++)
        for (int n = 0; n < nr; n++) { // services of the rogue workers are prefixes of anything: known services only
            auto d = newReq(c, n, nsvc, "q", (unsigned) (1 + c));
            if (w.reqs.at(d).kind == NOSVC) { w.reqs.at(d).kind = MMI; w.reqs.at(d).service = w.reqs.at(d).topic = "/mmi.service"; }
            todo[(size_t) c].push_back(d);
        }
    std::vector<std::thread> cs;
    for (int h = 0; h < nh; h++) cs.emplace_back([&, h] { netsim::node(60 + h); hostile((unsigned) (60 + h), 10 + (int) sim_wl((unsigned) (60 + h), 30), "tcp://127.0.0.1:5000"); });
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(2 + c); client(c, "tcp://127.0.0.1:5000", todo[(size_t) c], 3, 60000, (unsigned) (20 + c)); });
    for (auto &t : cs) t.join();
    sim_sleep(hb * 25 * MS); // rogue workers expire
    cs.clear();
    std::vector<std::string> more;
    for (int n = 0; n < 4; n++) { auto d = newReq(7, n, nsvc, "m", 8, true); more.push_back(d); }
    cs.emplace_back([&] { netsim::node(9); client(7, "tcp://127.0.0.1:5000", more, 1, 60000, 29); });
    for (auto &t : cs) t.join();
    {
        SimGuard g;
        for (auto &[k, r] : w.reqs) SIM_CHECK(r.replies == 1, "no-reply", "request '%s' has %d replies", k.c_str(), r.replies);
    }
    sim_calm();
    for (auto &x : ws) x.stop();
    for (auto &x : ws) x.t.join();
    broker.shutdown();
    bt.join();
    ws.clear();
    W = nullptr;
}
