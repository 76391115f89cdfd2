// Authorisation service and key store: users submit keys, authorise in a browser, fetch tokens; others look up keys.
#include "net_common.hpp"
#include <Client.hpp>
#include <services/OAuthClient.hpp>
#include <deque>
#include <random>
unsigned std::random_device::_M_getval() { return (unsigned) sim_wl(98, 1ull << 32); } // randomness is the simulator's
namespace {
using namespace net;
struct User { // one authorisation attempt
    std::string scope, id, key, secret, code;
    uint64_t given = 0;                // secret received
    uint64_t authI = 0, authR = 0;     // browser came back with a code: call and return
    int64_t wallI = 0, wallR = 0;      // when the key was submitted, by the wall clock
};
struct World { std::deque<User> users; std::map<std::string, std::string> tokens; int failRate = 0; } *W;
int64_t wallNow() { return std::chrono::system_clock::now().time_since_epoch().count(); }
constexpr const char *ROLES[] = { "ADMIN", "BOSS", "openid profile", "" };
struct Conn {
    Peer p;
    int n = 0;
    Conn() { p.connect("tcp://127.0.0.1:5000"); }
    template<typename Out, typename In>
    Out ask(const char *service, In in, std::string *error = nullptr) {
        IoBuffer b;
        opencmw::serialise<opencmw::YaS>(b, in);
        const std::string rid = std::to_string(n++);
        mdp::Message m = clientMsg(Command::Set, service, rid, service, "", "");
        m.data = b;
        p.send(std::move(m));
        const uint64_t t0 = sim_now();
        for (;;) {
            auto r = p.recv(100);
            if (r && str(r->clientRequestID) == rid) {
                Out out;
                if (error) *error = r->error;
                else if (!r->error.empty()) sim_fail("error-reply", "%s answers with an error: %s", service, r->error.c_str());
                if (!r->error.empty()) return out;
                IoBuffer d = r->data;
                opencmw::deserialise<opencmw::YaS, opencmw::ProtocolCheck::ALWAYS>(d, out);
                return out;
            }
            if (sim_now() - t0 > 60000 * MS) sim_fail("no-reply", "%s does not answer", service);
        }
    }
};
void lookup(Conn &c, User &u) {
    const uint64_t i = sim_now();
    const auto out = c.ask<KeystoreOutput>("/keystore", KeystoreInput{ KeystoreWorker::keyHash(u.key) });
    sim_sleep(1);
    SimGuard g;
    if (out.key.empty()) {
        SIM_CHECK(!(u.authR && u.authR < i), "key-lost", "the key of user %s is not in the key store although the user has authorised it", u.id.c_str());
        SIM_CHECK(out.role.empty() && out.expiryDate == 0, "wrong-key", "without a key the key store names role '%s'", out.role.c_str());
        return;
    }
    SIM_CHECK(u.authI && u.authI < sim_now(), "key-not-authorised", "the key store has the key of user %s, who has not authorised it", u.id.c_str());
    SIM_CHECK(out.key == u.key && out.role == u.scope, "wrong-key", "the key store names role '%s' for the key of user %s, who asked for '%s'", out.role.c_str(), u.id.c_str(), u.scope.c_str());
    const int64_t year = std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::years(1)).count();
    SIM_CHECK(out.expiryDate >= u.wallI + year && out.expiryDate <= u.wallR + year, "wrong-expiry", "the key of user %s does not expire in a year", u.id.c_str());
    sim_probe("key-found");
}
void browser(User &u, unsigned st) {
    if (sim_wl(st, 4) == 0) { // cancelled at first
        auto r = httplib::Server::serve(8091, { "GET", "/", { { "error_description", "cancelled" }, { "state", u.secret } }, {} });
        SIM_CHECK(r && r->status == 401, "wrong-status", "a failed authorisation is answered with %d", r ? r->status : -1);
        sim_probe("cancelled");
        if (sim_wl(st, 3) == 0) return;
        sim_sleep(sim_wl(st, 100) * MS);
    }
    const int times = sim_wl(st, 5) ? 1 : 2; // reloads the page
    for (int k = 0; k < times; k++) {
        { SimGuard g; if (!u.authI) { u.code = "code" + std::to_string(sim_wl(st, 1000000)); u.authI = sim_now() + 1; } }
        sim_sleep(1);
        auto r = httplib::Server::serve(8091, { "GET", "/", { { "code", u.code }, { "state", u.secret }, { "session_state", "x" } }, {} });
        SIM_CHECK(r && r->status == 200, "wrong-status", "a successful authorisation is answered with %d", r ? r->status : -1);
        SimGuard g;
        if (!u.authR) u.authR = sim_now() + 1;
    }
}
void token(Conn &c, User &u) {
    const uint64_t i = sim_now();
    const auto out = c.ask<OAuthOutput>("/oauth", OAuthInput{ u.scope, u.id, "", u.secret, "" });
    sim_sleep(1);
    SimGuard g;
    if (out.accessToken.empty()) {
        SIM_CHECK(!(u.authR && u.authR < i && !W->failRate), "no-token", "user %s has authorised, but gets no token", u.id.c_str());
        return;
    }
    SIM_CHECK(u.authI, "token-not-authorised", "user %s gets a token without having authorised", u.id.c_str());
    SIM_CHECK(out.accessToken == "T:" + u.code + ":" + u.id && out.refreshToken == "R:" + u.code, "wrong-token", "user %s (code %s) gets token '%s', '%s'", u.id.c_str(), u.code.c_str(), out.accessToken.c_str(), out.refreshToken.c_str());
    SIM_CHECK(out.roles == "role-" + u.code + ",view" || (W->failRate && out.roles.empty()), "wrong-roles", "user %s (code %s) gets roles '%s'", u.id.c_str(), u.code.c_str(), out.roles.c_str());
    sim_probe("token");
}
void scenario() {
    sim_limits(8000000, 4000000);
    sim_time_limits(400000 * MS, 200000 * MS);
    World w;
    W = &w;
    const int nu = (int) sim_cfg("users", 1, 4), nt = (int) sim_cfg("attempts", 1, 4), nl = (int) sim_cfg("lookups", 0, 2);
    if (sim_cfg_pct("delays", 30)) netsim::cfg.delay_ppm = 60000;
    w.failRate = sim_cfg_pct("server-fails", 30) ? 300000 : 0;
    netsim::node(1);
    // the authorisation server
    httplib::Hub::get().outside = [](const std::string &base, const httplib::Request &q) -> httplib::Result {
        if (sim_wl(5, 2)) sim_sleep(sim_wl(5, 60) * MS);
        if (base != "http://keycloak:8090") return {};
        if (W->failRate && sim_fault("auth-server-unreachable", (unsigned) W->failRate)) return {};
        httplib::Response r;
        if (W->failRate && sim_fault("auth-server-error", (unsigned) W->failRate)) { r.status = 500; r.body = "{\"access_token\":\"bad\"}"; return httplib::Result(r); }
        if (q.method == "POST" && q.path == "/realm/token") {
            const std::string code = q.get_param_value("code"), id = q.get_param_value("client_id");
            if (q.get_param_value("grant_type") != "authorization_code" || q.get_param_value("redirect_uri").find("8091") == std::string::npos || code.rfind("code", 0) != 0) { r.status = 400; r.body = "{}"; return httplib::Result(r); }
            r.body = "{\"access_token\":\"T:" + code + ":" + id + "\",\"expires_in\":300,\"refresh_token\":\"R:" + code + "\",\"token_type\":\"Bearer\"}";
            return httplib::Result(r);
        }
        if (q.method == "GET" && q.path == "/realm/userinfo") {
            auto it = q.headers.find("Authorization");
            const std::string t = it == q.headers.end() ? "" : it->second;
            if (t.rfind("Bearer T:", 0) != 0) { r.status = 401; return httplib::Result(r); }
            r.body = "{\"sub\":\"x\",\"resource_access\":{\"account\":{\"roles\":[\"role-" + t.substr(9, t.find(':', 9) - 9) + "\",\"view\"]}}}";
            return httplib::Result(r);
        }
        r.status = 404;
        return httplib::Result(r);
    };
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(500);
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    auto broker = std::make_unique<Broker<ADMIN>>("/testbroker", s);
    if (!broker->bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker->run(); });
    auto worker = std::make_unique<OAuthWorker>(URI<STRICT>("http://localhost:8091"), URI<STRICT>("http://keycloak:8090/realm/auth"), URI<STRICT>("http://keycloak:8090/realm/token"), URI<STRICT>("http://keycloak:8090/realm/userinfo"), *broker);
    std::thread wt([&] { worker->run(); });
    sim_sleep(100 * MS);
    std::vector<std::thread> ts;
    std::atomic<int> left{ nu };
    for (int c = 0; c < nu; c++) ts.emplace_back([&, c] {
        netsim::node(2 + c);
        const unsigned st = (unsigned) (20 + c);
        Conn con;
        std::vector<User *> mine;
        std::vector<std::thread> bs;
        for (int k = 0; k < nt; k++) {
            User *u;
            { SimGuard g; w.users.push_back({}); u = &w.users.back(); }
            u->scope = ROLES[sim_wl(st, 3)];
            u->id = "user" + std::to_string(c) + "-" + std::to_string(k);
            for (int b = 0; b < 32; b++) u->key += (char) (unsigned char) sim_wl(st, 256);
            OAuthInput in{ u->scope, u->id, "", "", u->key };
            if (sim_wl(st, 8) == 0) { // a key of the wrong size
                const std::string bad = sim_wl(st, 2) ? u->key + std::string(1 + sim_wl(st, 64), 'x') : u->key.substr(0, sim_wl(st, 31) + 1);
                std::string err;
                auto out = con.ask<OAuthOutput>("/oauth", OAuthInput{ u->scope, u->id, "", "", bad }, &err);
                SIM_CHECK(!err.empty() && out.secret.empty(), "bad-key-accepted", "a public key of %zu bytes is accepted", bad.size());
                sim_probe("bad-key");
            }
            { SimGuard g; u->wallI = wallNow(); }
            const auto out = con.ask<OAuthOutput>("/oauth", in);
            {
                SimGuard g;
                u->wallR = wallNow();
                SIM_CHECK(out.secret.size() >= 32 && out.accessToken.empty(), "no-secret", "submitting a key gives secret '%s' and token '%s'", out.secret.c_str(), out.accessToken.c_str());
                for (auto &x : w.users) SIM_CHECK(x.secret != out.secret, "secret-twice", "users %s and %s get the same secret", x.id.c_str(), u->id.c_str());
                u->secret = out.secret;
                u->given = sim_now() + 1;
            }
            const auto q = URI<STRICT>(out.authorizationUri).queryParamMap();
            auto has = [&](const char *n, const std::string &v) { auto it = q.find(n); return it != q.end() && it->second && *it->second == v; };
            SIM_CHECK(out.authorizationUri.rfind("http://keycloak:8090/realm/auth", 0) == 0 && has("state", u->secret) && has("client_id", u->id) && has("response_type", "code") && has("scope", u->scope), "wrong-uri", "user %s is sent to %s", u->id.c_str(), out.authorizationUri.c_str());
            { SimGuard g; mine.push_back(u); }
            if (sim_wl(st, 3) == 0) lookup(con, *u);
            if (sim_wl(st, 4) == 0) token(con, *u);
            if (sim_wl(st, 5)) bs.emplace_back([u, st, k, c] { sim_sleep(sim_wl(60 + (unsigned) (4 * c + k), 50) * MS); browser(*u, 60 + (unsigned) (4 * c + k)); });
            for (auto *x : mine) {
                if (sim_wl(st, 3) == 0) lookup(con, *x);
                if (sim_wl(st, 3) == 0) token(con, *x);
            }
        }
        for (auto &b : bs) b.join();
        for (auto *x : mine) { lookup(con, *x); token(con, *x); }
        const auto no = con.ask<OAuthOutput>("/oauth", OAuthInput{ "openid", "nobody", "", "guessed", "" });
        SIM_CHECK(no.accessToken.empty() && no.secret.empty(), "token-not-authorised", "an invented secret gives token '%s'", no.accessToken.c_str());
        left--;
    });
    for (int l = 0; l < nl; l++) ts.emplace_back([&, l] {
        netsim::node(10 + l);
        Conn con;
        while (left > 0) {
            User *u = nullptr;
            { SimGuard g; if (!w.users.empty()) { u = &w.users[sim_wl(80 + (unsigned) l, w.users.size())]; if (!u->given) u = nullptr; } }
            if (u) lookup(con, *u);
            sim_sleep((1 + sim_wl(80 + (unsigned) l, 100)) * MS);
        }
    });
    for (auto &t : ts) t.join();
    sim_calm();
    worker->stop();
    worker->shutdown();
    wt.join();
    worker.reset();
    broker->shutdown();
    bt.join();
    broker.reset();
    httplib::Hub::get().outside = nullptr;
    W = nullptr;
}
SimReg r1("svc_oauth", scenario);
} // namespace
