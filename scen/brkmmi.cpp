// The broker's management services: list of services, existence, description, echo.
#include "net_common.hpp"
using namespace net;

namespace {
constexpr const char *SVC[] = { "/alpha", "/beta/gamma", "/delta", "/epsilon.zeta" };
constexpr int NS = 4;
struct MWorld {
    bool begun[NS] = {}, known[NS] = {}; // a worker of it has been started; one has answered a request
    std::set<std::string> texts[NS];     // descriptions its workers gave
    std::string text[NS];                // the one first seen
    bool seen[NS] = {};
    long served[NS] = {};
    long readies = 0, told = 0; // registrations sent; notices of the listener
};
MWorld *M;
int ns = NS;
constexpr const char *DELTA = "a service with a description, \"quoted\"\nand two lines";
std::vector<std::string> splitList(const std::string &s) {
    std::vector<std::string> r;
    size_t i = 0;
    while (true) {
        const size_t j = s.find(',', i);
        r.push_back(s.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos) return r;
        i = j + 1;
    }
}
void protoWorker(int svc, std::string text, uint64_t hb, unsigned stream, std::shared_ptr<std::atomic<bool>> stop) {
    Peer p;
    p.connect("tcp://127.0.0.1:5000");
    auto ready = [&] {
        auto m = workerMsg(Command::Ready, SVC[svc]);
        m.data = buf(text);
        { SimGuard g; M->readies++; }
        p.send(std::move(m));
    };
    ready();
    uint64_t nextHb = sim_now() + hb * MS;
    long left = sim_wl(stream, 3) ? -1 : (long) sim_wl(stream, 6); // requests until it signs off and returns
    while (!*stop) {
        if (sim_now() >= nextHb) { p.send(workerMsg(Command::Heartbeat, SVC[svc])); nextHb = sim_now() + hb * MS; }
        auto m = p.recv(std::max<uint64_t>(1, std::min<uint64_t>(50, hb)));
        if (!m) continue;
        if (m->command == Command::Disconnect) { ready(); continue; }
        if (m->command != Command::Get && m->command != Command::Set) continue;
        mdp::Message rep = workerMsg(Command::Final, m->serviceName);
        rep.clientRequestID = m->clientRequestID;
        rep.topic = m->topic;
        rep.data = buf("A:" + str(m->data));
        p.send(std::move(rep));
        if (left > 0 && --left == 0) {
            p.send(workerMsg(Command::Disconnect, SVC[svc]));
            sim_probe("worker-left");
            sim_sleep(sim_wl(stream, 300) * MS);
            ready();
        }
    }
    p.send(workerMsg(Command::Disconnect, SVC[svc]));
}
void client(int id, int ops, unsigned stream) {
    Peer p;
    p.connect("tcp://127.0.0.1:5000");
    for (int i = 0; i < ops; i++) {
        enum { LIST, HAS, TEXT, ECHO, CALL, HASNOT, TEXTNOT };
        const uint64_t k = sim_wl(stream, 14);
        const int op = k < 3 ? LIST : k < 5 ? HAS : k < 7 ? TEXT : k == 7 ? ECHO : k < 11 ? CALL : k == 11 ? HASNOT : k == 12 ? TEXTNOT : LIST;
        const int svc = (int) sim_wl(stream, sim_wl(stream, 5) ? (uint64_t) ns : NS);
        const char *builtin[] = { "/mmi.dns", "/mmi.echo", "/mmi.openapi", "/mmi.service" };
        const char *no[] = { "/alph", "/alpha/", "alpha", "/beta", "/gamma", "/delta?x=1", "/nosuch", " /alpha", "/ALPHA", "/mmi", "*" };
        std::string body, to;
        bool own = false;
        switch (op) {
        case LIST: to = "/mmi.service"; break;
        case HAS: to = "/mmi.service"; own = !sim_wl(stream, 4); body = own ? builtin[sim_wl(stream, 4)] : SVC[svc]; break;
        case TEXT: to = "/mmi.openapi"; body = SVC[svc]; break;
        case HASNOT: to = "/mmi.service"; body = no[sim_wl(stream, 11)]; break;
        case TEXTNOT: to = "/mmi.openapi"; body = no[sim_wl(stream, 11)]; break;
        case ECHO: to = "/mmi.echo"; body = std::string((size_t) sim_wl(stream, 3) * 7, 'e') + std::to_string(i); break;
        default: to = SVC[svc]; body = "c" + std::to_string(id) + "-" + std::to_string(i);
        }
        const std::string rid = "r" + std::to_string(i);
        bool known[NS];
        { SimGuard g; std::copy(M->known, M->known + NS, known); }
        p.send(clientMsg(sim_wl(stream, 4) ? Command::Get : Command::Set, to, rid, to, body, sim_wl(stream, 3) ? "ADMIN" : ""));
        const uint64_t t0 = sim_now();
        std::optional<mdp::Message> m;
        const uint64_t until = op == CALL ? 20000 : 5000;
        while (!m && sim_now() - t0 < until * MS) m = p.recv(50);
        SimGuard g;
        if (!m) {
            if (op == CALL) { // it may have been handed to a worker that was just leaving; the next one uses a new connection
                sim_probe("call-lost");
                return;
            }
            sim_fail("no-reply", "request to %s with '%s' is not answered within 5 s", to.c_str(), body.c_str());
        }
        const std::string d = str(m->data);
        SIM_CHECK(str(m->clientRequestID) == rid, "misrouted-reply", "reply with request id '%s' to request '%s' to %s", str(m->clientRequestID).c_str(), rid.c_str(), to.c_str());
        auto begun = [&](const std::string &n) { for (int s = 0; s < NS; s++) if (n == SVC[s]) return M->begun[s]; return n.starts_with("/mmi.") && n.size() > 5; };
        switch (op) {
        case LIST: {
            const auto l = splitList(d);
            SIM_CHECK(std::is_sorted(l.begin(), l.end()) && std::adjacent_find(l.begin(), l.end()) == l.end(), "wrong-list", "the list of services '%s' is not in order", d.c_str());
            for (auto &n : l) SIM_CHECK(begun(n), "wrong-list", "the list of services '%s' names '%s', which no worker has registered", d.c_str(), n.c_str());
            for (int s = 0; s < NS; s++)
                if (known[s]) SIM_CHECK(std::count(l.begin(), l.end(), SVC[s]) == 1, "wrong-list", "the list of services '%s' lacks %s, which has been in use before", d.c_str(), SVC[s]);
            for (auto n : builtin) SIM_CHECK(std::count(l.begin(), l.end(), n) == 1, "wrong-list", "the list of services '%s' lacks %s", d.c_str(), n);
            SIM_CHECK(m->error.empty() && m->command == Command::Final, "reply-form", "list of services: error '%s' command %d", m->error.c_str(), (int) m->command);
            break;
        }
        case HAS: case HASNOT: {
            const bool must = op == HAS && (own || known[svc]), may = op == HAS && (own || M->begun[svc]);
            SIM_CHECK(d == (must ? "200" : may && d == "200" ? "200" : "404"), "wrong-existence", "whether '%s' exists is answered with '%s' (%s)", body.c_str(), d.c_str(), must ? "it does" : may ? "being registered" : "it does not");
            SIM_CHECK(m->error.empty() && m->command == Command::Final, "reply-form", "existence of a service: error '%s' command %d", m->error.c_str(), (int) m->command);
            break;
        }
        case TEXT: case TEXTNOT: {
            const bool must = op == TEXT && known[svc], may = op == TEXT && M->begun[svc];
            SIM_CHECK(m->command == Command::Final, "reply-form", "description: command %d", (int) m->command);
            if (!m->error.empty()) {
                SIM_CHECK(!must && d.empty(), "wrong-description", "the description of %s is answered with error '%s' data '%s'", body.c_str(), m->error.c_str(), d.c_str());
            } else {
                SIM_CHECK(may, "wrong-description", "'%s' is described as '%s' although there is no such service", body.c_str(), d.c_str());
                SIM_CHECK(M->texts[svc].count(d), "wrong-description", "%s is described as '%s', which none of its workers gave", body.c_str(), d.c_str());
                SIM_CHECK(!M->seen[svc] || M->text[svc] == d, "wrong-description", "the description of %s changes from '%s' to '%s'", body.c_str(), M->text[svc].c_str(), d.c_str());
                M->seen[svc] = true;
                M->text[svc] = d;
                sim_probe("described");
            }
            break;
        }
        case ECHO:
            SIM_CHECK(d == body && m->error.empty(), "wrong-echo", "echo of '%s' is '%s' error '%s'", body.c_str(), d.c_str(), m->error.c_str());
            break;
        default:
            if (m->error.find("unknown service") != std::string::npos) {
                SIM_CHECK(!known[svc], "wrong-reply", "%s is unknown although it has been in use before", to.c_str());
                sim_probe("not-yet");
            } else if (m->error.empty()) {
                SIM_CHECK(M->begun[svc] && d == "A:" + body, "wrong-reply", "request '%s' to %s is answered with '%s'", body.c_str(), to.c_str(), d.c_str());
                M->known[svc] = true;
                M->served[svc]++;
            } // else: refused for its role
        }
        sim_event(0xc000u + (unsigned) op * 16 + (unsigned) svc);
    }
}
} // namespace

SIM_SCENARIO(brk_mmi) {
    sim_limits(3000000, 2000000);
    sim_time_limits(400000 * MS, 200000 * MS);
    MWorld w;
    M = &w;
    const uint64_t hb = 200 + 300 * (uint64_t) sim_cfg("hb", 0, 2);
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    s.dnsTimeout = std::chrono::milliseconds(1000 + 2000 * (int) sim_cfg("dns", 0, 2));
    Broker<ADMIN> broker("/testbroker", s);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000")) || !broker.bind(URI<STRICT>("mds://127.0.0.1:5001"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    auto stop = std::make_shared<std::atomic<bool>>(false);
    const int nc = (int) sim_cfg("clients", 1, 3), ops = (int) sim_cfg("ops", 3, 20), nw = (int) sim_cfg("workers", 1, 6);
    ns = (int) sim_cfg("services", 1, NS);
    using Delta = BasicWorker<"/delta", description<"a service with a description, \"quoted\"\nand two lines">>;
    std::unique_ptr<Delta> delta;
    std::vector<std::thread> ws, cs;
    std::thread dt;
    auto lstop = std::make_shared<std::atomic<bool>>(false);
    std::thread listener;
    if (sim_cfg_pct("listener", 50)) {
        listener = std::thread([&, lstop] {
            netsim::node(19);
            Peer p(ZMQ_SUB);
            p.connect("tcp://127.0.0.1:5001");
            p.sub("/mmi.service");
            while (!*lstop) {
                auto m = p.recv<mdp::MessageFormat::WithSourceId>(50);
                if (!m) continue;
                SimGuard g;
                SIM_CHECK(m->sourceId == "/mmi.service" && m->serviceName == "/mmi.service" && m->topic.str() == "/mmi.service", "wrong-notice", "a listener to new services gets a message from '%s' with topic '%s'", m->serviceName.c_str(), m->topic.str().c_str());
                w.told++;
            }
        });
        sim_sleep(1500 * MS);
    }
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { netsim::node(2 + c); client(c, ops, (unsigned) (10 + c)); });
    for (int k = 0; k < nw; k++) { // services appear while clients ask for them
        const int svc = (int) sim_wl(1, (uint64_t) ns);
        if (svc == 2 && !delta) {
            { SimGuard g; w.begun[2] = true; w.texts[2].insert(DELTA); }
            delta = std::make_unique<Delta>(broker, [](RequestContext &c) { c.reply.data = buf("A:" + str(c.request.data)); });
            dt = std::thread([&] { delta->run(); });
        } else {
            const std::string text = sim_wl(1, 5) ? "text " + std::to_string(k) + " of " + SVC[svc] : "";
            { SimGuard g; w.begun[svc] = true; w.texts[svc].insert(text); }
            ws.emplace_back([=] { netsim::node(20 + k); protoWorker(svc, text, hb, (unsigned) (30 + k), stop); });
        }
        if (sim_wl(1, 3)) sim_sleep(sim_wl(1, 400) * MS);
    }
    for (auto &t : cs) t.join();
    sim_calm();
    // once all is quiet every service has been registered
    sim_sleep(2000 * MS);
    {
        Peer p;
        std::thread t([&] {
            netsim::node(9);
            p.connect("tcp://127.0.0.1:5000");
            p.send(clientMsg(Command::Get, "/mmi.service", "last", "/mmi.service", "", "ADMIN"));
            auto m = p.recv(5000);
            if (!m) sim_fail("no-reply", "the list of services is not answered");
            SimGuard g;
            const auto l = splitList(str(m->data));
            for (int i = 0; i < NS; i++) SIM_CHECK(std::count(l.begin(), l.end(), SVC[i]) == (w.begun[i] ? 1 : 0), "wrong-list", "the final list of services is '%s'; %s has %sbeen registered", str(m->data).c_str(), SVC[i], w.begun[i] ? "" : "not ");
        });
        t.join();
    }
    if (listener.joinable()) {
        SimGuard g;
        SIM_CHECK(delta ? w.told > w.readies : w.told == w.readies, "wrong-notice", "a listener to new services is told %ld times, workers registered %ld times%s", w.told, w.readies, delta ? " and once more" : "");
        sim_probe("listened");
    }
    *stop = true;
    *lstop = true;
    for (auto &t : ws) t.join();
    if (listener.joinable()) listener.join();
    if (delta) { delta->shutdown(); dt.join(); }
    broker.shutdown();
    bt.join();
    delta.reset();
    M = nullptr;
}
