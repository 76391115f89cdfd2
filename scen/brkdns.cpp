// Name service: brokers register their services with a DNS broker, stay while they live, vanish when they do not, come back.
#include "net_common.hpp"
using namespace net;
namespace {
template<units::basic_fixed_string N>
using BW = BasicWorker<N, rbac<ADMIN, NONE>>;
Settings mkSettings(uint64_t hb, uint64_t dnsTo, const std::string &dns) {
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(hb);
    s.dnsTimeout = std::chrono::milliseconds(dnsTo);
    s.dnsAddress = dns;
    return s;
}
std::set<std::string> uris(const std::string &reply) { // everything that looks like a URI
    std::set<std::string> r;
    size_t i = 0;
    while ((i = reply.find("://", i)) != std::string::npos) {
        size_t a = i, b = i + 3;
        while (a > 0 && isalpha((unsigned char) reply[a - 1])) a--;
        while (b < reply.size() && !strchr(",] ", reply[b])) b++;
        r.insert(reply.substr(a, b - a));
        i = b;
    }
    return r;
}
}
SIM_SCENARIO(brk_dns) {
    sim_limits(6000000, 3000000);
    sim_time_limits(900000 * MS, 200000 * MS);
    const uint64_t hb = 100 + 200 * (uint64_t) sim_cfg("hb", 0, 2), to = 300 + 300 * (uint64_t) sim_cfg("dns-timeout", 0, 3);
    if (sim_cfg_pct("delays", 40)) netsim::cfg.delay_ppm = 60000;
    if (sim_cfg_pct("refuse", 30)) netsim::cfg.refuse_ppm = 100000;
    const uint64_t up = 4 * to + 4 * hb + 3000, down = 5 * to + 4 * hb + 3000;
    netsim::node(1);
    Broker<> dns("/dnsbroker", mkSettings(hb, to, ""));
    if (!dns.bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread dt([&] { dns.run(); });
    std::shared_ptr<std::atomic<bool>> stops[2] = { std::make_shared<std::atomic<bool>>(false), std::make_shared<std::atomic<bool>>(false) };
    bool want[2] = { false, false };
    std::set<std::string> all[2] = { { "mdp://127.0.0.1:6000/alpha", "mds://127.0.0.1:6100/alpha" }, { "mdp://127.0.0.1:6001/alphabet", "mdp://127.0.0.1:6001/beta" } };
    std::thread bt[2];
    int nodeOf[2] = { 2, 3 };
    auto startB = [&](int i) {
        *stops[i] = false;
        const int node = nodeOf[i];
        auto st = stops[i];
        bt[i] = std::thread([=] {
            netsim::node(node);
            Broker<> b(i ? "/brokerB" : "/brokerA", mkSettings(hb, to, "mdp://127.0.0.1:5000"));
            while (!b.bind(URI<STRICT>(i ? "mdp://127.0.0.1:6001" : "mdp://127.0.0.1:6000"))) sim_sleep(50 * MS);
            if (i == 0) while (!b.bind(URI<STRICT>("mds://127.0.0.1:6100"))) sim_sleep(50 * MS);
            std::thread r([&] { b.run(); });
            if (i == 0) {
                BW<"/alpha"> w(b, [](RequestContext &) {});
                std::thread t([&] { w.run(); });
                while (!*st) sim_sleep(20 * MS);
                w.shutdown();
                t.join();
            } else {
                BW<"/alphabet"> w(b, [](RequestContext &) {});
                BW<"/beta"> w2(b, [](RequestContext &) {});
                std::thread t([&] { w.run(); }), t2([&] { w2.run(); });
                while (!*st) sim_sleep(20 * MS);
                w.shutdown();
                w2.shutdown();
                t.join();
                t2.join();
            }
            b.shutdown();
            r.join();
        });
        want[i] = true;
    };
    std::optional<Peer> q;
    int rid = 0;
    auto ask = [&](const std::string &body) {
        if (!q) { q.emplace(); q->connect("tcp://127.0.0.1:5000"); }
        const std::string id = std::to_string(++rid);
        q->send(clientMsg(Command::Get, "/mmi.dns", id, "/mmi.dns", body, "ADMIN"));
        const uint64_t t0 = sim_now();
        while (true) {
            auto m = q->recv(50);
            if (m && str(m->clientRequestID) == id) {
                SIM_CHECK(m->error.empty() && m->command == Command::Final, "dns-error", "name query '%s' fails: %s", body.c_str(), m->error.c_str());
                return str(m->data);
            }
            if (sim_now() - t0 > 30000 * MS) sim_fail("no-reply", "name query '%s' is not answered", body.c_str());
        }
    };
    auto check = [&](const char *when) {
        const std::string l = ask("");
        const auto u = uris(l);
        for (int i = 0; i < 2; i++) {
            const bool named = l.find(i ? "/brokerB" : "/brokerA") != std::string::npos;
            SIM_CHECK(named == want[i], want[i] ? "dns-missing" : "dns-stale", "%s: broker %c is %s but the list of names %s it: %s", when, 'A' + i, want[i] ? "running" : "gone", named ? "has" : "lacks", l.substr(0, 300).c_str());
            for (auto &x : all[i]) SIM_CHECK(u.count(x) == (want[i] ? 1u : 0u), want[i] ? "dns-missing" : "dns-stale", "%s: %s is %s but the list of names %s it", when, x.c_str(), want[i] ? "offered" : "gone", u.count(x) ? "has" : "lacks");
        }
        struct { const char *body; const char *scheme; const char *path; } qs[] = { { "/alpha", "", "/alpha" }, { "mdp:/alpha", "mdp", "/alpha" }, { "mds:/alpha", "mds", "/alpha" }, { "mdp:/beta", "mdp", "/beta" }, { "/nosuch", "", "/nosuch" }, { "MDP:/alpha", "mdp", "/alpha" } };
        std::string several, answers;
        for (auto &x : qs) {
            std::set<std::string> exp;
            for (int i = 0; i < 2; i++) if (want[i]) for (auto &s : all[i]) {
                const std::string path = s.substr(s.find('/', s.find("://") + 3));
                if (path.starts_with(x.path) && s.starts_with(x.scheme)) exp.insert(s);
            }
            const std::string r = ask(x.body);
            std::set<std::string> got;
            for (auto &s : uris(r)) if (s.find(":5000") == std::string::npos) got.insert(s);
            SIM_CHECK(got == exp, "dns-lookup", "%s: look-up of '%s' yields '%s', expected %zu entries", when, x.body, r.c_str(), exp.size());
            if (!sim_wl(4, 2)) continue;
            several += (several.empty() ? "" : sim_wl(4, 2) ? "," : " , ") + std::string(x.body);
            answers += (answers.empty() ? "" : ",") + r;
        }
        if (several.find(',') != std::string::npos) {
            const std::string r = ask(several);
            SIM_CHECK(r == answers, "dns-lookup", "%s: look-up of '%s' yields '%s' instead of '%s'", when, several.c_str(), r.c_str(), answers.c_str());
            sim_probe("several-names");
        }
    };
    startB(0);
    startB(1);
    sim_sleep(up * MS);
    check("after the start");
    const int steps = (int) sim_cfg("steps", 1, 5);
    for (int k = 0; k < steps; k++) {
        const int i = (int) sim_wl(3, 2);
        if (want[i]) {
            const uint64_t how = sim_wl(3, 4);
            if (how == 0) { // graceful end
                *stops[i] = true;
                bt[i].join();
                want[i] = false;
                sim_probe("broker-stopped");
            } else if (how == 1) {
                netsim::crash(nodeOf[i]);
                bt[i].detach();
                nodeOf[i] += 10;
                want[i] = false;
                sim_probe("broker-crashed");
            } else if (how == 2) {
                const uint64_t len = sim_wl(3, 2) ? down + 3000 : sim_wl(3, to);
                netsim::partition(1, nodeOf[i], len * MS);
                sim_probe("partition");
                if (len > down) {
                    sim_sleep(down * MS);
                    want[i] = false;
                    check("during a partition");
                    want[i] = true;
                    sim_sleep((3000 + 100) * MS);
                } else sim_sleep(len * MS);
            } else sim_sleep(sim_wl(3, 20) * to * MS); // nothing happens for a while
        } else startB(i);
        sim_sleep(std::max(up, down) * MS);
        check("after a change");
    }
    sim_calm();
    for (int i = 0; i < 2; i++) if (want[i]) { *stops[i] = true; bt[i].join(); }
    q.reset();
    dns.shutdown();
    dt.join();
}
