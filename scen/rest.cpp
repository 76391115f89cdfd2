// REST interface: the real HTTP/2 server of the broker and the real REST client over simulated TCP.
#include "net_common.hpp"
#include "h2peer.hpp"
#include <Filters.hpp>
#include <RestClientNative.hpp>
#include <deque>
namespace {
using namespace net;
using CtxFilter = NumberFilter<int>;
std::string pattern(uint64_t tok, size_t n) { std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = (char) ('a' + (tok * 7 + i + i / 26) % 26); return s; }

enum Kind { GET, POST, OPTIONS, BODY, VIEW, READER, FAILING, NOSVC, BADPATH, BADMETHOD, INDEX, KINDS };
struct Rq { Kind k; uint64_t tok; std::string path, payload; bool cancel; int handled = 0; std::string mime = "", note = ""; };
struct World { std::deque<Rq> reqs; std::string big; } *W;
std::string param(const std::string &t, const std::string &name) {
    size_t i = t.find("?" + name + "=");
    if (i == std::string::npos) i = t.find("&" + name + "=");
    if (i == std::string::npos) return "";
    i += name.size() + 2;
    return t.substr(i, t.find_first_of("&#", i) - i);
}
majordomo::rest::Settings restSettings() {
    majordomo::rest::Settings rs;
    rs.port = 8080;
    rs.protocols = majordomo::rest::Protocol::Http2;
    auto parse = [](const std::string &path) { const size_t i = path.rfind('/'), j = path.rfind('/', i - 1); return std::pair{ (size_t) atol(path.c_str() + j + 1), (uint64_t) atol(path.c_str() + i + 1) }; }; // .../<bytes>/<token>
    auto head = [](majordomo::rest::Response &r, uint64_t tok) { r.code = 200; r.headers.emplace_back("x-tok", std::to_string(tok)); SimGuard g; if (W && tok < W->reqs.size()) W->reqs[tok].handled++; };
    rs.handlers.push_back({ "GET", "/h/body/*", [=](const majordomo::rest::Request &q) { auto [n, tok] = parse(q.path); majordomo::rest::Response r; head(r, tok); r.body = buf(pattern(tok, n)); return r; } });
    rs.handlers.push_back({ "GET", "/h/view/*", [=](const majordomo::rest::Request &q) { auto [n, tok] = parse(q.path); majordomo::rest::Response r; head(r, tok); r.bodyView = std::span((const uint8_t *) W->big.data(), n); return r; } });
    rs.handlers.push_back({ "GET", "/h/*", [=](const majordomo::rest::Request &q) { majordomo::rest::Response r; r.code = 418; return r; } });
    auto reader = [=](bool bad) { return [=](const majordomo::rest::Request &q) {
        auto [n, tok] = parse(q.path);
        majordomo::rest::Response r;
        head(r, tok);
        r.bodyReader = [off = (size_t) 0, n, d = pattern(tok, n), bad](std::span<uint8_t> o) mutable -> std::expected<majordomo::rest::Response::ReadStatus, std::string> {
            if (bad && off >= n / 2) return std::unexpected("cannot be read");
            const size_t k = std::min({ o.size(), (bad ? n / 2 : n) - off, (size_t) 5000 });
            memcpy(o.data(), d.data() + off, k);
            off += k;
            return majordomo::rest::Response::ReadStatus{ k, off < n };
        };
        return r;
    }; };
    rs.handlers.push_back({ "GET", "/h/reader/*", reader(false) });
    rs.handlers.push_back({ "GET", "/h/failing/*", reader(true) });
    return rs;
}
majordomo::Settings settings() { majordomo::Settings s; s.heartbeatInterval = std::chrono::milliseconds(300); s.heartbeatLiveness = 100; s.clientTimeout = std::chrono::milliseconds(200000); return s; }
void faults(bool resets) {
    tcpsim::cfg = {};
    netsim::cfg = {};
    tcpsim::cfg.lat_max = 50000ull << sim_cfg("latency", 0, 9);
    tcpsim::cfg.buf = (size_t) 1 << sim_cfg("sockbuf", 11, 17);
    tcpsim::cfg.short_ppm = sim_cfg_pct("short", 60) ? (unsigned) sim_cfg("short_ppm", 10000, 400000) : 0;
    if (resets) { tcpsim::cfg.reset_ppm = (unsigned) sim_cfg("reset_ppm", 200, 8000); tcpsim::cfg.refuse_ppm = (unsigned) sim_cfg("refuse_ppm", 0, 100000); }
}
size_t someSize(unsigned st) { switch (sim_wl(st, 6)) { case 0: return 1; case 1: return 1 + sim_wl(st, 100); case 2: return 1000 + sim_wl(st, 40); case 3: return 1024 * (1 + sim_wl(st, 8)); case 4: return sim_wl(st, 20000) + 1; default: return 40000 + sim_wl(st, 120000); } }
} // namespace

// ---- every HTTP request gets its own response, once ----
SIM_SCENARIO(rest_req) {
    sim_limits(12000000, 4000000);
    sim_time_limits(600000 * MS, 300000 * MS);
    World w; W = &w;
    const bool resets = sim_cfg_pct("resets", 35);
    faults(resets);
    w.big = pattern(3, 200000);
    const int nc = (int) sim_cfg("clients", 1, 4), nr = (int) sim_cfg("requests", 2, 14), nw = (int) sim_cfg("workers", 1, 2), slow = (int) sim_cfg("slow", 0, 40), big = sim_cfg_pct("big", 50);
    Broker<ADMIN> broker("/testbroker", settings());
    if (auto r = broker.bindRest(restSettings()); !r) sim_fail("bind", "%s", r.error().c_str());
    const long sockets = tcpsim::open();
    std::thread bt([&] { broker.run(); });
    std::vector<std::unique_ptr<BasicWorker<"/echo">>> ws;
    std::vector<std::thread> wts;
    for (int i = 0; i < nw; i++) {
        ws.push_back(std::make_unique<BasicWorker<"/echo">>(broker, [&, i](RequestContext &ctx) {
            const std::string t(ctx.request.topic.str());
            const uint64_t tok = (uint64_t) atol(param(t, "tok").c_str());
            { SimGuard g; SIM_CHECK(tok < w.reqs.size(), "invented-request", "the service gets a request with topic %s", t.c_str()); Rq &q = w.reqs[tok]; q.handled++;
              SIM_CHECK(q.handled == 1, "request-twice", "request %lu reaches the service twice", tok);
              SIM_CHECK((q.k == GET || q.k == POST) && (ctx.request.command == Command::Set) == (q.k == POST), "wrong-command", "request %lu (%s) reaches the service as the wrong command", tok, q.path.c_str());
              SIM_CHECK(str(ctx.request.data) == q.payload, "wrong-body", "the service gets %zu bytes for request %lu which carried %zu", ctx.request.data.size(), tok, q.payload.size());
              std::map<std::string, std::string> ps;
              const auto tp = mdp::Topic::fromMdpTopic(ctx.request.topic);
              for (auto &[n, v] : tp.params()) ps[std::string(n)] = v.value_or("");
              SIM_CHECK(ps["contentType"] == q.mime, "wrong-type", "request %lu asks the service for %s instead of %s", tok, ps["contentType"].c_str(), q.mime.c_str());
              SIM_CHECK(ps["note"] == q.note, "wrong-parameter", "the parameter of request %lu is '%s' instead of '%s' (%s)", tok, ps["note"].c_str(), q.note.c_str(), q.path.c_str()); }
            if (slow) sim_sleep(sim_wl(40 + (unsigned) i, (uint64_t) slow + 1) * MS);
            if (tok % 11 == 5) throw std::runtime_error("refused " + std::to_string(tok));
            ctx.reply.data = buf("tok=" + std::to_string(tok) + ";" + std::string(ctx.request.data.asString()) + pattern(tok, tok % 3 == 0 ? 0 : (tok * 977) % 30000));
        }));
        wts.emplace_back([&, i] { ws[(size_t) i]->run(); });
    }
    sim_sleep(200 * MS);
    std::vector<std::thread> cs;
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] {
        const unsigned st = (unsigned) (10 + c);
        H2 h;
        std::map<int32_t, size_t> open;
        const int depth = 1 + (int) sim_wl(st, 6);
        const bool leaves = sim_wl(st, 4) == 0;
        const uint64_t reading = sim_wl(st, 3) ? 0 : 500 + sim_wl(st, 3000); // a slow reader
        int sent = 0;
        uint64_t last = sim_now();
        auto check = [&](H2::Resp &r, const Rq &q) {
            const int code = r.h.count(":status") ? atoi(r.h[":status"].c_str()) : 0;
            const char *p = q.path.c_str();
            if (q.k == FAILING) { SIM_CHECK(r.reset, "complete-failing", "a body that cannot be read ends as if it were complete (%s)", p); sim_probe("failing"); return; }
            SIM_CHECK(!r.reset, "stream-reset", "the stream of %s is reset by the server", p);
            SIM_CHECK(r.headers == 1, "two-responses", "%d responses to %s", r.headers, p);
            auto isCode = [&](int x) { SIM_CHECK(code == x, "wrong-status", "%s is answered with %d instead of %d: %.80s", p, code, x, r.body.c_str()); };
            auto body = [&](const std::string &x) { SIM_CHECK(r.body == x, "wrong-response", "%s is answered with a body of %zu bytes '%.60s' instead of %zu bytes '%.60s'", p, r.body.size(), r.body.c_str(), x.size(), x.c_str()); };
            switch (q.k) {
            case GET: case POST:
                if (q.tok % 11 == 5) { isCode(500); SIM_CHECK(r.body.find("refused " + std::to_string(q.tok)) != std::string::npos, "wrong-response", "%s is answered with '%.80s'", p, r.body.c_str()); }
                else { isCode(200); body("tok=" + std::to_string(q.tok) + ";" + q.payload + pattern(q.tok, q.tok % 3 == 0 ? 0 : (q.tok * 977) % 30000)); }
                sim_probe(q.k == GET ? "get" : "post");
                break;
            case OPTIONS: isCode(204); body(""); break;
            case BODY: case READER: case VIEW: {
                isCode(200);
                const size_t i = q.path.rfind('/'), n = (size_t) atol(q.path.c_str() + q.path.rfind('/', i - 1) + 1);
                SIM_CHECK(r.h["x-tok"] == std::to_string(q.tok), "wrong-response", "%s is answered with the response to %s", p, r.h["x-tok"].c_str());
                body(q.k == VIEW ? w.big.substr(0, n) : pattern(q.tok, n));
                sim_probe("handler");
                break;
            }
            case NOSVC: isCode(500); SIM_CHECK(!r.body.empty(), "wrong-response", "no error for %s", p); break;
            case BADPATH: isCode(404); break;
            case BADMETHOD: isCode(500); SIM_CHECK(r.body.find("Invalid") != std::string::npos, "wrong-response", "%s is answered with '%.80s'", p, r.body.c_str()); break;
            case INDEX: isCode(200); SIM_CHECK(r.body.find("/echo") != std::string::npos, "wrong-response", "%s is answered with '%.80s'", p, r.body.c_str()); break;
            default: break;
            }
        };
        while (sent < nr || !open.empty()) {
            if (!h.s || h.gone) {
                if (h.gone) {
                    SIM_CHECK(h.fault, "connection-dropped", "the server drops the connection of client %d with %zu requests open", c, open.size());
                    sim_probe("reset");
                    open.clear(); // their answers are lost with the connection
                }
                if (sent >= nr) break;
                if (!h.connect(8080)) { sim_sleep(20 * MS); continue; }
                h.rate = reading;
                last = sim_now();
            }
            if (sent < nr && (int) open.size() < depth) {
                Rq q{ (Kind) 0, 0, "", "", false };
                const auto a = sim_wl(st, 20);
                q.k = a < 5 ? GET : a < 10 ? POST : a < 11 ? OPTIONS : a < 12 ? BODY : a < 13 ? VIEW : a < 15 ? READER : a < 16 ? FAILING : a < 17 ? NOSVC : a < 18 ? BADPATH : a < 19 ? BADMETHOD : INDEX;
                q.cancel = sim_wl(st, 8) == 0;
                const size_t n = big ? someSize(st) : 1 + sim_wl(st, 300);
                if (q.k == POST && sim_wl(st, 6)) q.payload = pattern(sim_wl(st, 100), n);
                size_t id;
                Hdrs ex;
                {
                    SimGuard g;
                    id = w.reqs.size();
                    q.tok = id;
                    const std::string t = std::to_string(id), hp = std::to_string(n) + "/" + t;
                    std::string more;
                    if (sim_wl(st, 3) == 0) { static const char *enc[] = { "a%20b", "x%3D1%26y", "caf%C3%A9", "1%2F2", "plain" }, *dec[] = { "a b", "x=1&y", "caf\xc3\xa9", "1/2", "plain" }; const auto e = sim_wl(st, 5); more = std::string("&note=") + enc[e]; q.note = dec[e]; }
                    static const std::string json = "application/json", html = "text/html", bin = "application/octet-stream";
                    q.mime = json;
                    switch (sim_wl(st, 7)) {
                    case 0: ex.push_back({ "accept", "image/webp, text/html;q=x, application/octet-stream,text/html" }); q.mime = bin; break;
                    case 1: ex.push_back({ "accept", "text/html" }); q.mime = html; break;
                    case 2: ex.push_back({ "accept", "application/json" }); break;
                    case 3: ex.push_back({ "accept", "image/png" }); break;
                    default: break;
                    }
                    if (sim_wl(st, 6) == 0) { more += "&contentType=text%2Fhtml"; q.mime = html; }
                    if (q.k == POST && sim_wl(st, 2)) { const auto z = sim_wl(st, 3); ex.push_back({ "content-type", z == 0 ? bin : z == 1 ? json : "text/plain" }); if (z < 2) q.mime = z ? json : bin; }
                    q.path = q.k == BODY ? "/h/body/" + hp : q.k == VIEW ? "/h/view/" + hp : q.k == READER ? "/h/reader/" + hp : q.k == FAILING ? "/h/failing/" + hp : q.k == NOSVC ? "/nothing?tok=" + t : q.k == BADPATH ? "/~!not a path?" + t : q.k == INDEX ? "/" : q.k == GET && more.empty() && sim_wl(st, 5) == 0 ? "/some/page?SubscriptionContext=%2Fecho%3Ftok%3D" + t : "/echo?tok=" + t + more;
                    w.reqs.push_back(q);
                }
                std::unique_ptr<H2::Body> b;
                if (q.k == POST) { b = std::make_unique<H2::Body>(); b->d = q.payload; b->avail = sim_wl(st, 2) ? q.payload.size() : 0; }
                static const char *m[] = { "GET", "POST", "OPTIONS", "GET", "GET", "GET", "GET", "GET", "GET", "DELETE", "GET" };
                const int32_t sid = h.submit(q.k == POST && sim_wl(st, 4) == 0 ? "PUT" : m[q.k], q.path, ex, std::move(b));
                open[sid] = id;
                sent++;
                if (leaves && sent == nr) { h.pump(0); sim_sleep(sim_wl(st, 5) * MS); sim_probe("left"); return; } // closes with requests under way
                if (sim_wl(st, 2)) continue;
            }
            h.pump((int) sim_wl(st, 10));
            for (auto &[sid, id] : open) if (h.r[sid].up && sim_wl(st, 2)) h.feed(sid, 1 + sim_wl(st, big ? 20000 : 200));
            for (auto it = open.begin(); it != open.end();) {
                auto &r = h.r[it->first];
                if (w.reqs[it->second].cancel && !r.cancelled && !r.end && sim_now() > r.at + sim_wl(st, 20) * MS) { h.cancel(it->first); sim_probe("cancelled"); }
                if (r.end || r.reset) {
                    if (!r.cancelled) { Rq q; { SimGuard g; q = w.reqs[it->second]; } check(r, q); }
                    h.r.erase(it->first);
                    it = open.erase(it);
                    last = sim_now();
                } else ++it;
            }
            if (h.rate && sim_wl(st, 3) == 0) sim_sleep(sim_wl(st, 20) * MS);
            if (!open.empty() && sim_now() - last > 60000 * MS) sim_fail("no-response", "client %d waits for the response to %s", c, w.reqs[open.begin()->second].path.c_str());
        }
        h.pump(5);
    });
    for (auto &t : cs) t.join();
    sim_calm();
    for (const uint64_t t0 = sim_now(); tcpsim::open() != sockets; sim_sleep(20 * MS))
        if (sim_now() - t0 > 30000 * MS) sim_fail("connections-kept", "all clients are gone, but %ld connections are still open", tcpsim::open() - sockets);
    for (auto &x : ws) x->shutdown();
    for (auto &t : wts) t.join();
    broker.shutdown();
    bt.join();
    W = nullptr;
}

// ---- long polling: what an index stands for is the same for everybody, in order and without gaps ----
namespace {
struct Topic_ { std::string path; std::map<uint64_t, std::string> seen; uint64_t high = 0; };
} // namespace
SIM_SCENARIO(rest_poll) {
    sim_limits(12000000, 4000000);
    sim_time_limits(900000 * MS, 300000 * MS);
    World w; W = &w;
    const bool resets = sim_cfg_pct("resets", 35);
    faults(resets);
    const int nc = (int) sim_cfg("clients", 1, 4), nt = (int) sim_cfg("topics", 1, 3), many = sim_cfg_pct("many", 25), np = many ? (int) sim_cfg("updates_many", 90, 260) : (int) sim_cfg("updates", 3, 25), gap = (int) sim_cfg("gap", 0, 60), npub = (int) sim_cfg("publishers", 1, 2);
    Broker<ADMIN> broker("/testbroker", settings());
    if (auto r = broker.bindRest(restSettings()); !r) sim_fail("bind", "%s", r.error().c_str());
    std::thread bt([&] { broker.run(); });
    broker.addFilter<CtxFilter>("ctx");
    BasicWorker<"/feed"> worker(broker, [](RequestContext &ctx) { ctx.reply.data = buf("state"); });
    std::thread wt([&] { worker.addFilter<CtxFilter>("ctx"); worker.run(); });
    std::deque<Topic_> ts;
    for (int i = 0; i < nt; i++) ts.push_back({ "/feed?ctx=" + std::to_string(i + 1), {}, 0 });
    auto topicOf = [&](int i) { return mdp::Topic::fromMdpTopic(mdp::Message::URI(ts[(size_t) i].path)); };
    sim_sleep(200 * MS);
    std::vector<std::atomic<int>> ready((size_t) nt);
    std::atomic<int> done{ 0 };
    std::vector<std::vector<int>> sent((size_t) nt, std::vector<int>((size_t) npub, 0)); // complete publications per topic and publisher
    std::vector<std::vector<int>> begun = sent;
    auto published = [&](int t) { uint64_t n = 0; for (int k : sent[(size_t) t]) n += (uint64_t) k; return n; };
    auto started = [&](int t) { uint64_t n = 0; for (int k : begun[(size_t) t]) n += (uint64_t) k; return n; };
    std::vector<std::thread> cs;
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] {
        const unsigned st = (unsigned) (10 + c);
        const int t = c < nt ? c : (int) sim_wl(st, (uint64_t) nt);
        Topic_ &T = ts[(size_t) t];
        const bool slow = sim_wl(st, 4) == 0;
        H2 h;
        auto ask = [&](const std::string &idx, H2::Resp &out) -> bool { // false: the connection was lost
            if (!h.s || h.gone) {
                if (h.gone) { SIM_CHECK(h.fault, "connection-dropped", "the server drops the connection of poller %d", c); sim_probe("reset"); }
                while (!h.connect(8080)) sim_sleep(20 * MS);
            }
            const int32_t id = h.submit("GET", (sim_wl(st, 10) ? T.path : "/page?SubscriptionContext=%2Ffeed%3Fctx%3D" + std::to_string(t + 1)) + "&LongPollingIdx=" + idx);
            // another page of the same browser asks for the same index: both get it
            const int32_t twin = isdigit(idx[0]) && sim_wl(st, 12) == 0 ? h.submit("GET", T.path + "&LongPollingIdx=" + idx) : 0;
            uint64_t pubAt = 0;
            while (true) {
                if (!h.pump(20)) return false;
                auto &r = h.r[id];
                if (r.end) {
                    const std::string b = r.body, s = r.h[":status"];
                    out = std::move(r);
                    h.r.erase(id);
                    if (twin) {
                        const uint64_t t0 = sim_now();
                        while (!h.r[twin].end) {
                            if (!h.pump(20)) return false;
                            if (sim_now() - t0 > 30000 * MS) sim_fail("no-response", "one of two polls of index %s on a connection is not answered", idx.c_str());
                        }
                        auto &q = h.r[twin];
                        SIM_CHECK(s != "200" || q.h[":status"] != "200" || q.body == b, "index-differs", "two polls of index %s get different updates", idx.c_str());
                        if (s == "200" && q.h[":status"] != "200") SIM_CHECK(q.h[":status"] == "302", "wrong-status", "one of two polls is answered with %s", q.h[":status"].c_str());
                        h.r.erase(twin);
                        sim_probe("twin");
                    }
                    return true;
                }
                SIM_CHECK(!r.reset, "stream-reset", "a poll is reset by the server");
                if (!isdigit(idx[0])) { if (sim_now() - r.at > 30000 * MS) sim_fail("no-response", "poller %d waits for the answer to %s", c, idx.c_str()); continue; }
                bool have; { SimGuard g; have = T.high > (uint64_t) atoll(idx.c_str()) || (uint64_t) atoll(idx.c_str()) < published(t); } // every publication follows the subscription
                if (!pubAt && (have || done)) pubAt = sim_now();
                if (have && sim_now() - pubAt > 30000 * MS) sim_fail("no-response", "poller %d waits for index %s of %s which was published", c, idx.c_str(), T.path.c_str());
                if (done && !have && sim_now() - pubAt > 3000 * MS) { h.cancel(id); if (twin) h.cancel(twin); h.pump(5); sim_probe("cancelled"); return false; } // nothing more to come
            }
        };
        auto redirect = [&](H2::Resp &r, uint64_t low) -> uint64_t {
            SIM_CHECK(r.h[":status"] == "302", "wrong-status", "a poll for the start is answered with %s", r.h[":status"].c_str());
            const std::string l = r.h["location"], x = param(l, "LongPollingIdx");
            SIM_CHECK(!x.empty() && l.rfind("/feed", 0) == 0 && param(l, "ctx") == std::to_string(t + 1), "wrong-redirect", "a poll of %s is redirected to %s", T.path.c_str(), l.c_str());
            const uint64_t n = (uint64_t) atoll(x.c_str());
            SimGuard g;
            SIM_CHECK(n >= low, "redirected-back", "a poll of %s is redirected to index %lu, known before was %lu", T.path.c_str(), n, low);
            SIM_CHECK(n <= started(t), "redirected-ahead", "a poll of %s is redirected to index %lu, %lu were published", T.path.c_str(), n, started(t));
            return n;
        };
        auto take = [&](uint64_t idx, H2::Resp &r) {
            SIM_CHECK(r.h[":status"] == "200", "wrong-status", "the poll of index %lu of %s is answered with %s", idx, T.path.c_str(), r.h[":status"].c_str());
            SIM_CHECK(r.h["x-opencmw-long-polling-idx"] == std::to_string(idx), "wrong-index", "the poll of index %lu is answered with index %s", idx, r.h["x-opencmw-long-polling-idx"].c_str());
            SimGuard g;
            const std::string &b = r.body;
            SIM_CHECK(b.rfind("u" + std::to_string(t) + ".", 0) == 0, "wrong-update", "index %lu of %s is '%.40s'", idx, T.path.c_str(), b.c_str());
            auto [it, fresh] = T.seen.try_emplace(idx, b);
            SIM_CHECK(it->second == b, "index-differs", "index %lu of %s is '%.40s' for one client and '%.40s' for another", idx, T.path.c_str(), it->second.c_str(), b.c_str());
            T.high = std::max(T.high, idx);
            sim_probe("update");
        };
        std::optional<uint64_t> next;
        bool announced = false;
        uint64_t got = 0;
        while (true) {
            H2::Resp r;
            if (!next) {
                if (sim_wl(st, 8) == 0) { // a client that does not know better
                    if (!ask(sim_wl(st, 2) ? "last" : "x7", r)) continue;
                    SIM_CHECK(r.h[":status"] == "500", "wrong-status", "a poll with a malformed index is answered with %s", r.h[":status"].c_str());
                    sim_probe("malformed");
                    r = {};
                }
                const bool last = sim_wl(st, 3) == 0;
                uint64_t low; { SimGuard g; low = T.seen.empty() ? 0 : T.high + (last ? 0 : 1); }
                if (!ask(last ? "Last" : "Next", r)) { if (done && !h.gone) break; continue; }
                next = redirect(r, low);
                if (!announced) { // the subscription is in effect when the worker knows it
                    const uint64_t t0 = sim_now();
                    while (!worker.activeSubscriptions().contains(topicOf(t))) { if (sim_now() - t0 > 30000 * MS) sim_fail("subscription-lost", "polling %s does not reach the worker", T.path.c_str()); sim_sleep(5 * MS); }
                    announced = true;
                    if (c < nt) ready[(size_t) t]++;
                }
            }
            if (!ask(std::to_string(*next), r)) { if (done && !h.gone) break; sim_probe("again"); continue; }
            if (r.h[":status"] == "302") { // it fell out of the 100 that are kept
                const uint64_t n = redirect(r, 0);
                SIM_CHECK(n > *next + 99, "redirected-early", "index %lu is no longer available while the next one is %lu", *next, n);
                sim_probe("too-old");
                next = n;
                continue;
            }
            take(*next, r);
            ++*next;
            got++;
            if (slow && sim_wl(st, 4) == 0) sim_sleep(sim_wl(st, many ? 4000 : 200) * MS);
            if (sim_wl(st, 30) == 0 && *next > 2) { // somebody looks at an earlier one
                const uint64_t old = *next - 1 - sim_wl(st, std::min<uint64_t>(*next - 1, 3));
                H2::Resp q;
                if (ask(std::to_string(old), q) && q.h[":status"] == "200") { take(old, q); sim_probe("earlier"); }
            }
            if (!done && sim_wl(st, 30) == 0) { // a poll ahead of what exists
                H2::Resp q;
                const uint64_t ahead = *next + sim_wl(st, 3);
                if (ask(std::to_string(ahead), q) && q.h[":status"] == "200") { take(ahead, q); sim_probe("ahead"); }
            }
            if (c >= nt && sim_wl(st, 40) == 0) next.reset();
        }
        sim_class(got);
    });
    for (int t = 0; t < std::min(nc, nt); t++) while (!ready[(size_t) t]) sim_sleep(5 * MS);
    std::vector<std::thread> ps;
    for (int p = 0; p < npub; p++) ps.emplace_back([&, p] {
        const unsigned st = (unsigned) (50 + p);
        for (int k = 0; k < np; k++) {
            for (int t = 0; t < nt; t++) {
                mdp::Message m;
                m.topic = mdp::Message::URI(ts[(size_t) t].path);
                m.data = buf("u" + std::to_string(t) + "." + std::to_string(p) + "." + std::to_string(k) + ";" + pattern((uint64_t) k, k % 5 == 0 ? (size_t) sim_wl(st, 6000) : 3));
                { SimGuard g; begun[(size_t) t][(size_t) p]++; }
                SIM_CHECK(worker.notify(std::move(m)), "notify-failed", "notify() fails");
                { SimGuard g; sent[(size_t) t][(size_t) p]++; }
            }
            if (gap && sim_wl(st, 2)) sim_sleep(sim_wl(st, (uint64_t) gap) * MS);
        }
    });
    for (auto &t : ps) t.join();
    sim_sleep(500 * MS);
    done = 1;
    for (auto &t : cs) t.join();
    // history: indices stand for the publications in the order of each publisher, without gaps
    for (int t = 0; t < std::min(nc, nt); t++) {
        std::map<int, int> last;
        uint64_t prev = 0;
        for (auto &[idx, b] : ts[(size_t) t].seen) {
            int tt = -1, p = -1, k = -1;
            sscanf(b.c_str(), "u%d.%d.%d;", &tt, &p, &k);
            auto [it, fresh] = last.try_emplace(p, -1);
            SIM_CHECK(k > it->second, "update-order", "index %lu of %s is update %d of publisher %d after update %d", idx, ts[(size_t) t].path.c_str(), k, p, it->second);
            it->second = k;
            if (npub == 1) { SIM_CHECK((uint64_t) k == idx, "update-gap", "index %lu of %s is update %d", idx, ts[(size_t) t].path.c_str(), k); }
            prev = idx;
        }
        if (!many) SIM_CHECK(ts[(size_t) t].seen.size() == (size_t) (np * npub), "lost-update", "%d updates of %s were published, the highest index received is %lu", np * npub, ts[(size_t) t].path.c_str(), prev);
    }
    sim_calm();
    worker.shutdown();
    wt.join();
    broker.shutdown();
    bt.join();
    W = nullptr;
}

// ---- the REST client: every request is answered once, subscribers get consecutive updates until told otherwise ----
namespace {
struct Cq { std::string topic, payload; bool set, bad, excused = false, state = false; int calls = 0; uint64_t at = 0; };
struct Sub_ { int topic; bool active = true, ended = false; int64_t last = -1; int calls = 0, errors = 0; uint64_t unsubAt = 0; };
} // namespace
SIM_SCENARIO(rest_client) {
    sim_limits(12000000, 4000000);
    sim_time_limits(900000 * MS, 300000 * MS);
    World w; W = &w;
    const bool resets = sim_cfg_pct("resets", 50);
    faults(resets);
    if (sim_cfg_pct("gateway", 30)) tcpsim::cfg.gateway_ppm = 150000;
    const int nr = (int) sim_cfg("requests", 1, 14), nt = (int) sim_cfg("topics", 0, 2), nth = (int) sim_cfg("threads", 1, 2), np = (int) sim_cfg("updates", 3, 25), slow = (int) sim_cfg("slow", 0, 40), big = sim_cfg_pct("big", 40), cuts = resets ? (int) sim_cfg("cuts", 0, 3) : 0, late = sim_cfg_pct("late_server", 20);
    auto ulen = [big](int k) -> size_t { return k % 5 == 0 ? (big ? 40000 : 3000) : 3; };
    std::deque<Cq> qs;
    std::deque<Sub_> subs;
    Broker<ADMIN> broker("/testbroker", settings());
    broker.addFilter<CtxFilter>("ctx");
    if (!late) if (auto r = broker.bindRest(restSettings()); !r) sim_fail("bind", "%s", r.error().c_str());
    std::thread bt;
    BasicWorker<"/echo"> echo(broker, [&](RequestContext &ctx) {
        const std::string t(ctx.request.topic.str());
        const size_t tok = (size_t) atol(param(t, "tok").c_str());
        {
            SimGuard g;
            SIM_CHECK(tok < qs.size(), "invented-request", "the service gets a request with topic %s", t.c_str());
            SIM_CHECK((ctx.request.command == Command::Set) == qs[tok].set && str(ctx.request.data) == qs[tok].payload, "wrong-body", "the service gets %zu bytes for request %zu which carried %zu", ctx.request.data.size(), tok, qs[tok].payload.size());
        }
        if (slow) sim_sleep(sim_wl(40, (uint64_t) slow + 1) * MS);
        if (tok % 7 == 5) throw std::runtime_error("refused " + std::to_string(tok));
        ctx.reply.data = buf("tok=" + std::to_string(tok) + ";" + pattern(tok, (tok * 977) % (big ? 60000 : 300)));
    });
    BasicWorker<"/feed"> feed(broker, [&](RequestContext &ctx) { if (slow) sim_sleep(sim_wl(41, (uint64_t) slow * 4 + 1) * MS); ctx.reply.data = buf("state"); });
    feed.addFilter<CtxFilter>("ctx");
    std::thread et, ft;
    auto start = [&] { bt = std::thread([&] { broker.run(); }); et = std::thread([&] { echo.run(); }); ft = std::thread([&] { feed.run(); }); };
    if (!late) { start(); sim_sleep(200 * MS); }
    std::atomic<bool> lossy{ late != 0 }, done{ false };
    auto client = std::make_unique<opencmw::client::RestClient>(opencmw::client::DefaultContentTypeHeader(opencmw::MIME::BINARY));
    const std::string base = "http://localhost:8080";
    auto topicOf = [](int t) { return "/feed?ctx=" + std::to_string(t + 1); };
    auto subscribe = [&](int t) -> Sub_ & {
        Sub_ *x;
        { SimGuard g; subs.push_back({ t }); x = &subs.back(); }
        opencmw::client::Command c;
        c.command = Command::Subscribe;
        c.topic = URI<>(base + topicOf(t));
        c.callback = [&, x, t](const mdp::Message &m) {
            SimGuard g;
            x->calls++;
            SIM_CHECK(!x->unsubAt || sim_now() < x->unsubAt + 2000 * MS, "after-unsubscribe", "an update arrives long after unsubscribing from %s", topicOf(t).c_str());
            if (!m.error.empty()) { SIM_CHECK(resets || late || m.error.find("504") != std::string::npos, "wrong-response", "a subscriber of %s gets the error '%s'", topicOf(t).c_str(), m.error.c_str()); x->errors++; x->ended = true; sim_probe("sub-error"); return; }
            const std::string d = str(m.data);
            SIM_CHECK(m.command == Command::Notify && param(std::string(m.topic.str()), "ctx") == std::to_string(t + 1), "wrong-update", "a subscriber of %s gets command %d, topic %s", topicOf(t).c_str(), (int) m.command, m.topic.str().c_str());
            int tt = -1, k = -1;
            SIM_CHECK(sscanf(d.c_str(), "u%d.%d;", &tt, &k) == 2 && tt == t && d == "u" + std::to_string(t) + "." + std::to_string(k) + ";" + pattern((uint64_t) k, ulen(k)), "wrong-update", "a subscriber of %s gets '%.40s'", topicOf(t).c_str(), d.c_str());
            SIM_CHECK(x->last < 0 || k == x->last + 1, "update-gap", "a subscriber of %s gets update %d after update %ld", topicOf(t).c_str(), k, (long) x->last);
            x->last = k;
            sim_probe("update");
        };
        client->request(std::move(c));
        return *x;
    };
    auto unsubscribe = [&](int t) {
        opencmw::client::Command c;
        c.command = Command::Unsubscribe;
        c.topic = URI<>(base + topicOf(t));
        client->request(std::move(c));
        SimGuard g;
        for (auto &x : subs) if (x.topic == t && !x.unsubAt) x.unsubAt = sim_now() + 1;
    };
    auto known = [&](int t) { return feed.activeSubscriptions().contains(mdp::Topic::fromMdpTopic(mdp::Message::URI(topicOf(t)))); };
    auto request = [&](unsigned st, bool mayFail) {
        Cq q;
        q.set = sim_wl(st, 2);
        const auto a = sim_wl(st, 14);
        q.bad = mayFail && a == 0;
        if (q.set && sim_wl(st, 5)) q.payload = pattern(sim_wl(st, 100), big ? someSize(st) : 1 + sim_wl(st, 300));
        size_t id;
        Cq *p;
        {
            SimGuard g;
            id = qs.size();
            const auto b = sim_wl(st, 3);
            q.topic = q.bad && b == 2 && !q.set ? base + "/h/failing/" + std::to_string(1 + sim_wl(st, 30000)) + "/" + std::to_string(id) : (q.bad ? std::string(b ? "http://nowhere:8080" : "http://localhost:9999") : base) + "/echo?tok=" + std::to_string(id);
            if (nt && !q.set && !q.bad && sim_wl(st, 3) == 0) { q.state = true; q.topic = base + topicOf((int) sim_wl(st, (uint64_t) nt)); } // the topic which others subscribe
            q.at = sim_now();
            q.excused = mayFail && (lossy || resets);
            qs.push_back(q);
            p = &qs.back();
        }
        opencmw::client::Command c;
        c.command = q.set ? Command::Set : Command::Get;
        c.topic = URI<>(q.topic);
        c.data = buf(q.payload);
        c.clientRequestID = buf("r" + std::to_string(id));
        c.callback = [&, id, p](const mdp::Message &m) {
            SimGuard g;
            p->calls++;
            SIM_CHECK(p->calls == 1, "two-responses", "the callback of request %zu is called twice", id);
            SIM_CHECK(m.command == Command::Final && m.protocolName == "http", "wrong-response", "the response to request %zu has command %d and protocol %s", id, (int) m.command, m.protocolName.c_str());
            SIM_CHECK(str(m.clientRequestID) == "r" + std::to_string(id), "wrong-response", "the response to request %zu has the id '%s'", id, str(m.clientRequestID).c_str());
            const bool early = late && p->excused && !m.error.empty(); // the server was reached before its services were
            SIM_CHECK(p->state || early || m.error.find("504") != std::string::npos || m.topic.str().find("tok=" + std::to_string(id)) != std::string::npos || p->topic.find("/h/") != std::string::npos, "wrong-response", "the response to request %zu has the topic '%s'", id, m.topic.str().c_str());
            if (!m.error.empty()) {
                SIM_CHECK(p->bad || p->excused || m.error.find("504") != std::string::npos || (!p->state && id % 7 == 5 && m.error.find("refused " + std::to_string(id)) != std::string::npos), "wrong-response", "request %zu fails with '%s'", id, m.error.c_str());
                sim_probe("error");
                return;
            }
            const std::string d = str(m.data);
            if (p->state) { SIM_CHECK(d == "state", "wrong-response", "request %zu for %s is answered with %zu bytes '%.40s'", id, p->topic.c_str(), d.size(), d.c_str()); sim_probe("state"); }
            else SIM_CHECK(!p->bad && id % 7 != 5 && d == "tok=" + std::to_string(id) + ";" + pattern(id, (id * 977) % (big ? 60000 : 300)), "wrong-response", "request %zu is answered with %zu bytes '%.40s'", id, d.size(), d.c_str());
            SIM_CHECK(p->state || param(std::string(m.topic.str()), "tok") == std::to_string(id), "wrong-response", "the response to request %zu has the topic '%s'", id, m.topic.str().c_str());
            sim_probe("reply");
        };
        client->request(std::move(c));
    };
    std::vector<std::thread> rs;
    for (int th = 0; th < nth; th++) rs.emplace_back([&, th] {
        const unsigned st = (unsigned) (10 + th);
        for (int i = 0; i < nr; i++) {
            request(st, true);
            if (sim_wl(st, 2)) sim_sleep(sim_wl(st, 60) * MS);
        }
    });
    if (late) { sim_sleep(sim_wl(3, 400) * MS); if (auto r = broker.bindRest(restSettings()); !r) sim_fail("bind", "%s", r.error().c_str()); start(); sim_sleep(300 * MS); lossy = resets; }
    std::vector<std::thread> ss;
    std::atomic<int> ready{ 0 };
    for (int t = 0; t < nt; t++) ss.emplace_back([&, t] {
        const unsigned st = (unsigned) (30 + t);
        bool announced = false;
        Sub_ *x = &subscribe(t);
        uint64_t since = sim_now();
        int64_t low = 0; // what a new subscription at least has to see: everything published after it was confirmed
        (void) low;
        while (!done) {
            if (!announced && known(t)) { announced = true; ready++; }
            bool ended; { SimGuard g; ended = x->ended; }
            if (announced && sim_wl(st, 40) == 0) { (void) subscribe(t); sim_probe("second-subscriber"); }
            if (ended) { if (sim_wl(st, 3) == 0) { unsubscribe(t); sim_sleep(sim_wl(st, 300) * MS); } x = &subscribe(t); since = sim_now(); }
            if (!announced && sim_now() - since > 60000 * MS) sim_fail("subscription-lost", "the subscription to %s does not reach the service and no error is reported", topicOf(t).c_str());
            if (announced && sim_wl(st, 60) == 0) { unsubscribe(t); sim_sleep(sim_wl(st, 400) * MS); x = &subscribe(t); since = sim_now(); sim_probe("resubscribed"); }
            sim_sleep(sim_wl(st, 40) * MS);
        }
    });
    while (ready < nt) sim_sleep(5 * MS);
    std::thread cutter([&] { for (int i = 0; i < cuts; i++) { sim_sleep(sim_wl(5, 800) * MS); tcpsim::resetAll(); sim_probe("cut"); } });
    if (nt) for (int k = 0; k < np; k++) {
        for (int t = 0; t < nt; t++) {
            mdp::Message m;
            m.topic = mdp::Message::URI(topicOf(t));
            m.data = buf("u" + std::to_string(t) + "." + std::to_string(k) + ";" + pattern((uint64_t) k, ulen(k)));
            SIM_CHECK(feed.notify(std::move(m)), "notify-failed", "notify() fails");
        }
        sim_sleep(sim_wl(4, 100) * MS);
    }
    for (auto &t : rs) t.join();
    cutter.join();
    done = true;
    for (auto &t : ss) t.join();
    tcpsim::cfg.reset_ppm = tcpsim::cfg.refuse_ppm = tcpsim::cfg.gateway_ppm = 0; // faults stop
    sim_sleep(3000 * MS);
    // who has not been told of an error gets the next update
    if (nt) {
        for (int t = 0; t < nt; t++) {
            mdp::Message m;
            m.topic = mdp::Message::URI(topicOf(t));
            m.data = buf("u" + std::to_string(t) + "." + std::to_string(np) + ";" + pattern((uint64_t) np, ulen(np)));
            SIM_CHECK(feed.notify(std::move(m)), "notify-failed", "notify() fails");
        }
        const uint64_t t0 = sim_now();
        for (;;) {
            const Sub_ *open = nullptr;
            { SimGuard g; for (auto &x : subs) if (!x.ended && !x.unsubAt && x.last != np) open = &x; }
            if (!open) break;
            if (sim_now() - t0 > 30000 * MS) sim_fail("lost-update", "a subscriber of %s has been told of no error but does not get update %d (its last was %ld)", topicOf(open->topic).c_str(), np, (long) open->last);
            sim_sleep(20 * MS);
        }
    }
    // a last subscription per topic sees the last updates
    std::vector<Sub_ *> fin;
    for (int t = 0; t < nt; t++) { unsubscribe(t); sim_sleep(300 * MS); fin.push_back(&subscribe(t)); }
    lossy = false;
    for (int i = 0; i < 2; i++) request(3, false);
    if (nt) {
        sim_sleep(5000 * MS);
        const int from = np + 1;
        for (int k = from; k < from + 3; k++) for (int t = 0; t < nt; t++) {
            mdp::Message m;
            m.topic = mdp::Message::URI(topicOf(t));
            m.data = buf("u" + std::to_string(t) + "." + std::to_string(k) + ";" + pattern((uint64_t) k, ulen(k)));
            SIM_CHECK(feed.notify(std::move(m)), "notify-failed", "notify() fails");
        }
        const uint64_t t0 = sim_now();
        for (;;) {
            bool ok = true;
            { SimGuard g; for (auto *x : fin) { SIM_CHECK(!x->ended, "wrong-response", "a subscription ends with an error long after the last fault"); ok &= x->last == from + 2; } }
            if (ok) break;
            if (sim_now() - t0 > 30000 * MS) sim_fail("lost-update", "a subscriber does not get the last update and no error");
            sim_sleep(20 * MS);
        }
        SimGuard g;
        for (auto &x : subs) x.unsubAt = 0;
    }
    const uint64_t t0 = sim_now();
    for (;;) {
        int64_t open = -1;
        { SimGuard g; for (size_t i = 0; i < qs.size(); i++) if (!qs[i].calls) open = (int64_t) i; }
        if (open < 0) break;
        if (sim_now() - t0 > 60000 * MS) sim_fail("no-response", "the callback of request %ld (%s) is not called", (long) open, qs[(size_t) open].topic.c_str());
        sim_sleep(20 * MS);
    }
    sim_calm();
    client->stop();
    client.reset();
    for (const uint64_t t1 = sim_now(); tcpsim::open() > 1; sim_sleep(20 * MS)) // the listening socket stays
        if (sim_now() - t1 > 30000 * MS) sim_fail("connections-kept", "the client is gone, but %ld connections are still open", tcpsim::open() - 1);
    feed.shutdown();
    echo.shutdown();
    et.join();
    ft.join();
    broker.shutdown();
    bt.join();
    W = nullptr;
}
