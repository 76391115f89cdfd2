// Typed services: contexts, inputs and outputs arrive as they were sent, whatever the encoding, for every request and notification.
#include "net_common.hpp"
#include <Filters.hpp>
#include <deque>
namespace tp {
using opencmw::TimingCtx;
struct Ctx { TimingCtx ctx; std::string name; int32_t number = 7; bool flag = false; opencmw::MIME::MimeType contentType = opencmw::MIME::UNKNOWN; };
struct In { std::string key; std::vector<double> values; int64_t big = 0; int32_t small = 5; };
struct Out { std::string key; std::vector<double> values; int64_t big = 0; std::string note; };
}
ENABLE_REFLECTION_FOR(tp::Ctx, ctx, name, number, flag, contentType)
ENABLE_REFLECTION_FOR(tp::In, key, values, big, small)
ENABLE_REFLECTION_FOR(tp::Out, key, values, big, note)
namespace {
using namespace net;
using namespace tp;
namespace M = opencmw::MIME;
enum Act { PLAIN, THROW, OTHERCTX, OTHERTYPE, SUBCTX };
struct Rq { Ctx ctx; In in; bool body; bool set; Act act; std::string rid; int client; int handled = 0, replies = 0; };
struct Nt { Ctx ctx; Out out; int pub, seq; uint64_t start = 0, end = 0; };
struct Sb { TimingCtx ctx; bool hasCtx; M::MimeType type; int client; uint64_t confirmed = 0; std::map<int, int> got; std::map<int, int> last; };
struct World { std::deque<Rq> reqs; std::deque<Nt> notes; std::deque<Sb> subs; } *W;
std::string show(const Ctx &c) { return c.ctx.toString() + "/" + c.name + "/" + std::to_string(c.number) + "/" + std::to_string(c.flag) + "/" + std::string(c.contentType.typeName()); }
bool same(const Ctx &a, const Ctx &b) { return a.ctx.toString() == b.ctx.toString() && a.name == b.name && a.number == b.number && a.flag == b.flag && a.contentType.typeName() == b.contentType.typeName(); }
std::string pickName(unsigned st) {
    static const char *n[] = { "", "plain", "with space", "a&b=c", "50%25", "x?y#z", "/path/", "+plus+", "ümlaut", "\"quoted\"" };
    return n[sim_wl(st, 10)];
}
M::MimeType pickType(unsigned st) { const auto k = sim_wl(st, 4); return k == 0 ? M::UNKNOWN : k == 1 ? M::JSON : k == 2 ? M::BINARY : M::CMWLIGHT; }
TimingCtx pickCtx(unsigned st) {
    const auto k = sim_wl(st, 5);
    if (k == 0) return TimingCtx();
    const int c = 1 + (int) sim_wl(st, 2), s = sim_wl(st, 2) ? -1 : 1 + (int) sim_wl(st, 2), p = sim_wl(st, 3) ? -1 : 0;
    return TimingCtx(c, s, p);
}
Ctx pick(unsigned st) {
    Ctx c;
    c.ctx = pickCtx(st);
    c.name = pickName(st);
    if (sim_wl(st, 2)) c.number = (int) sim_wl(st, 2000) - 1000;
    c.flag = sim_wl(st, 2);
    c.contentType = pickType(st);
    return c;
}
std::vector<double> pickValues(unsigned st) {
    std::vector<double> v;
    for (int k = (int) sim_wl(st, 6); k > 0; k--) v.push_back(((double) sim_wl(st, 2000) - 1000.) * 0.25);
    return v;
}
template<typename T>
IoBuffer encode(const T &v, M::MimeType t) {
    IoBuffer b;
    if (t == M::JSON) opencmw::serialise<opencmw::Json>(b, v);
    else if (t == M::CMWLIGHT) opencmw::serialise<opencmw::CmwLight>(b, v);
    else opencmw::serialise<opencmw::YaS>(b, v);
    return b;
}
template<typename T>
T decode(const IoBuffer &d, M::MimeType t) {
    IoBuffer b(d);
    T v;
    if (t == M::JSON) opencmw::deserialise<opencmw::Json, opencmw::ProtocolCheck::ALWAYS>(b, v);
    else if (t == M::CMWLIGHT) opencmw::deserialise<opencmw::CmwLight, opencmw::ProtocolCheck::ALWAYS>(b, v);
    else opencmw::deserialise<opencmw::YaS, opencmw::ProtocolCheck::ALWAYS>(b, v);
    return v;
}
bool looksLike(const IoBuffer &d, M::MimeType t) { // JSON is told apart from the binary encodings
    const auto s = str(d);
    return (t == M::JSON) == (!s.empty() && s[0] == '{');
}
Out result(const Rq &r) {
    Out o;
    o.key = r.body ? r.in.key : "no body";
    for (double v : r.in.values) o.values.push_back(v * 2);
    o.big = r.in.big + r.in.small;
    o.note = r.ctx.name + "!";
    return o;
}
bool same(const Out &a, const Out &b) { return a.key == b.key && a.values == b.values && a.big == b.big && a.note == b.note; }
Ctx replyCtx(const Rq &r) {
    Ctx c = r.ctx;
    if (r.act == OTHERCTX) { c.number += 1; c.name = "replied"; c.flag = !c.flag; }
    if (r.act == OTHERTYPE) c.contentType = c.contentType == M::JSON ? M::BINARY : M::JSON;
    if (r.act == SUBCTX) c.ctx = TimingCtx(9, 8, 7);
    return c;
}
using WkT = Worker<"/typed", Ctx, In, Out, rbac<ADMIN>>;
void handle(RequestContext &raw, const Ctx &rc, const In &in, Ctx &oc, Out &out) {
    const std::string rid = str(raw.request.clientRequestID);
    Rq *r;
    {
        SimGuard g;
        const size_t n = (size_t) atoi(rid.c_str() + 1);
        SIM_CHECK(n < W->reqs.size(), "invented-request", "request '%s' was not made", rid.c_str());
        r = &W->reqs[n];
        SIM_CHECK(++r->handled == 1, "handled-twice", "request '%s' is handled again", rid.c_str());
        SIM_CHECK(same(rc, r->ctx), "wrong-context", "the handler gets context %s for request '%s' with %s", show(rc).c_str(), rid.c_str(), show(r->ctx).c_str());
        const In want = r->body ? r->in : In{};
        SIM_CHECK(in.key == want.key && in.values == want.values && in.big == want.big && in.small == want.small, "wrong-input", "the handler gets input '%s' (%zu values, %ld, %d) for request '%s' with '%s' (%zu values, %ld, %d)", in.key.c_str(), in.values.size(), (long) in.big, in.small, rid.c_str(), want.key.c_str(), want.values.size(), (long) want.big, want.small);
        SIM_CHECK(out.key.empty() && out.values.empty() && same(oc, r->ctx), "stale-output", "the handler of request '%s' finds output or reply context of another one", rid.c_str());
    }
    if (sim_wl(3, 4) == 0) sim_sleep(sim_wl(3, 30) * MS);
    if (r->act == THROW) { out.key = "half done"; throw std::runtime_error("boom-" + rid); }
    out = result(*r);
    oc = replyCtx(*r);
}
Ctx ctxOf(const mdp::Message::URI &topic) { return opencmw::query::deserialise<Ctx>(topic.queryParamMap()); }
void onReply(int client, const mdp::Message &m) {
    const std::string rid = str(m.clientRequestID);
    SimGuard g;
    const size_t n = (size_t) atoi(rid.c_str() + 1);
    SIM_CHECK(n < W->reqs.size() && W->reqs[n].client == client, "misrouted-reply", "client %d gets the reply to '%s'", client, rid.c_str());
    Rq &r = W->reqs[n];
    SIM_CHECK(++r.replies == 1, "reply-twice", "request '%s' is answered twice", rid.c_str());
    if (r.act == THROW) {
        SIM_CHECK(m.error.find("boom-" + rid) != std::string::npos && m.data.empty(), "wrong-reply", "the reply to '%s', whose handler threw, has error '%s' and %zu bytes", rid.c_str(), m.error.c_str(), m.data.size());
        return;
    }
    SIM_CHECK(m.error.empty(), "error-reply", "the reply to '%s' (%s) is an error: %s", rid.c_str(), show(r.ctx).c_str(), m.error.c_str());
    const Ctx want = replyCtx(r);
    const Ctx got = ctxOf(m.topic);
    SIM_CHECK(same(got, want) && m.topic.path().value_or("") == "/typed", "wrong-reply-context", "the reply to '%s' has topic %s instead of %s", rid.c_str(), std::string(m.topic.str()).c_str(), show(want).c_str());
    const M::MimeType t = want.contentType == M::UNKNOWN ? M::BINARY : want.contentType;
    SIM_CHECK(looksLike(m.data, t), "wrong-encoding", "the reply to '%s' is not encoded as %s", rid.c_str(), std::string(t.typeName()).c_str());
    Out o;
    try { o = decode<Out>(m.data, t); } catch (...) { sim_fail("wrong-encoding", "the reply to '%s' cannot be decoded as %s", rid.c_str(), std::string(t.typeName()).c_str()); }
    SIM_CHECK(same(o, result(r)), "wrong-reply", "the reply to '%s' is '%s' '%s' (%zu values)", rid.c_str(), o.key.c_str(), o.note.c_str(), o.values.size());
    sim_class((uint64_t) r.act * 8 + (uint64_t) r.body);
}
bool match(const Nt &n, const Sb &s) { return (!s.hasCtx || n.ctx.ctx.matches(s.ctx)) && (s.type == M::UNKNOWN || s.type.typeName() == n.ctx.contentType.typeName()); }
mdp::Message::URI topicOf(const Ctx &c) { return mdp::Message::URI::factory(mdp::Message::URI("/typed")).setQuery(opencmw::query::serialise(c)).build(); }
std::string subTopic(const Sb &s) {
    opencmw::query::QueryMap q;
    if (s.hasCtx) q["ctx"] = s.ctx.toString();
    if (s.type != M::UNKNOWN) q["contentType"] = std::string(s.type.typeName());
    if (q.empty()) return "/typed";
    return std::string(mdp::Message::URI::factory(mdp::Message::URI("/typed")).setQuery(q).build().str());
}
} // namespace
SIM_SCENARIO(brk_typed) {
    sim_limits(6000000, 3000000);
    sim_time_limits(300000 * MS, 150000 * MS);
    World w;
    W = &w;
    const int nc = (int) sim_cfg("clients", 1, 3), nr = (int) sim_cfg("requests", 2, 8), nw = (int) sim_cfg("workers", 1, 2), np = (int) sim_cfg("publishers", 0, 3);
    if (sim_cfg_pct("delays", 30)) netsim::cfg.delay_ppm = 60000;
    netsim::node(1);
    Settings s;
    s.heartbeatInterval = std::chrono::milliseconds(300);
    s.heartbeatLiveness = 100;
    s.clientTimeout = std::chrono::milliseconds(200000);
    Broker<ADMIN> broker("/testbroker", s);
    opencmw::query::registerTypes(Ctx(), broker);
    if (!broker.bind(URI<STRICT>("mdp://127.0.0.1:5000"))) sim_fail("bind", "bind failed");
    std::thread bt([&] { broker.run(); });
    std::vector<std::unique_ptr<WkT>> ws;
    std::vector<std::thread> wts;
    for (int k = 0; k < nw; k++) { ws.push_back(std::make_unique<WkT>(broker, handle)); wts.emplace_back([p = ws.back().get()] { p->run(); }); }
    sim_sleep(100 * MS);
    std::vector<std::thread> cs;
    std::atomic<int> subscribed{ 0 };
    std::atomic<bool> pubDone{ np == 0 };
    for (int c = 0; c < nc; c++) cs.emplace_back([&, c] {
        netsim::node(2 + c);
        const unsigned st = (unsigned) (20 + c);
        Peer p;
        p.connect("tcp://127.0.0.1:5000");
        std::vector<Sb *> mine;
        int open = 0, seq = 0;
        auto onMsg = [&](const mdp::Message &m) {
            if (str(m.clientRequestID).rfind("q", 0) == 0) { onReply(c, m); open--; return; }
            SimGuard g;
            const Ctx got = ctxOf(m.topic);
            const M::MimeType t = got.contentType == M::UNKNOWN ? M::BINARY : got.contentType;
            SIM_CHECK(looksLike(m.data, t), "wrong-encoding", "a notification with topic %s is not encoded as %s", std::string(m.topic.str()).c_str(), std::string(t.typeName()).c_str());
            Out o;
            try { o = decode<Out>(m.data, t); } catch (...) { sim_fail("wrong-encoding", "a notification cannot be decoded as %s", std::string(t.typeName()).c_str()); }
            const size_t id = (size_t) atoi(o.key.c_str() + 1);
            SIM_CHECK(o.key.rfind("n", 0) == 0 && id < w.notes.size() && same(o, w.notes[id].out), "wrong-notification", "client %d gets a notification '%s' '%s' nobody published", c, o.key.c_str(), o.note.c_str());
            const Nt &n = w.notes[id];
            SIM_CHECK(same(got, n.ctx), "wrong-notification", "notification %zu with context %s arrives with topic %s", id, show(n.ctx).c_str(), std::string(m.topic.str()).c_str());
            bool any = false; // one of the matching subscriptions which have not seen it is meant
            for (auto *x : mine) if (!any && match(n, *x) && !x->got.count((int) id)) {
                any = true;
                x->got[(int) id]++;
                auto [it, f] = x->last.try_emplace(n.pub, -1);
                SIM_CHECK(n.seq > it->second, "notification-order", "client %d gets number %d of a publisher after number %d", c, n.seq, it->second);
                it->second = n.seq;
                sim_probe("notified");
            }
            SIM_CHECK(any, "wrong-notification", "client %d gets notification %zu (%s) without or beyond its subscriptions", c, id, show(n.ctx).c_str());
        };
        auto pump = [&](uint64_t ms) { const uint64_t until = sim_now() + ms * MS; do { if (auto m = p.recv(std::min<uint64_t>(ms, 10))) onMsg(*m); } while (sim_now() < until); };
        if (np) for (int k = (int) sim_wl(st, 3); k >= 0; k--) {
            Sb x{ pickCtx(st), sim_wl(st, 4) != 0, sim_wl(st, 3) ? M::UNKNOWN : pickType(st), c };
            const std::string t = subTopic(x);
            if (std::ranges::any_of(mine, [&](Sb *y) { return subTopic(*y) == t; })) continue;
            { SimGuard g; w.subs.push_back(x); mine.push_back(&w.subs.back()); }
            p.send(clientMsg(Command::Subscribe, "/typed", "s", t, "", "ADMIN"));
            const std::string mark = "/typed?name=marker" + std::to_string(c) + "-" + std::to_string(k); // nobody else subscribes to this
            p.send(clientMsg(Command::Subscribe, "/typed", "s", mark, "", "ADMIN"));
            const auto z = mdp::Topic::fromMdpTopic(mdp::Message::URI(mark));
            const uint64_t t0 = sim_now();
            while (!std::ranges::all_of(ws, [&](auto &y) { return y->activeSubscriptions().contains(z); })) {
                if (sim_now() - t0 > 30000 * MS) sim_fail("subscription-lost", "the subscription to %s does not reach the worker", t.c_str());
                pump(10);
            }
            SimGuard g;
            mine.back()->confirmed = sim_now() + 1;
        }
        subscribed++;
        uint64_t last = sim_now();
        while (seq < nr || open) {
            if (seq < nr && open < 4) {
                Rq r;
                r.client = c;
                r.ctx = pick(st);
                r.body = sim_wl(st, 4);
                r.set = sim_wl(st, 2);
                if (r.body) { r.in.key = "key" + std::to_string(sim_wl(st, 1000)); r.in.values = pickValues(st); r.in.big = (int64_t) sim_wl(st, 1ull << 40) - (1ll << 39); r.in.small = (int32_t) sim_wl(st, 100); }
                const auto a = sim_wl(st, 10);
                r.act = a < 5 ? PLAIN : a < 6 ? THROW : a < 8 ? OTHERCTX : a < 9 ? OTHERTYPE : SUBCTX;
                { SimGuard g; r.rid = "q" + std::to_string(w.reqs.size()); w.reqs.push_back(r); }
                mdp::Message m = clientMsg(r.set ? Command::Set : Command::Get, "/typed", r.rid, "/typed", "", "ADMIN");
                m.topic = topicOf(r.ctx);
                if (r.body) m.data = encode(r.in, r.ctx.contentType == M::UNKNOWN ? M::BINARY : r.ctx.contentType);
                p.send(std::move(m));
                seq++;
                open++;
                last = sim_now();
                if (sim_wl(st, 2)) pump(sim_wl(st, 20));
                continue;
            }
            const int before = open;
            pump(10);
            if (open != before) last = sim_now();
            if (sim_now() - last > 60000 * MS) sim_fail("no-reply", "client %d waits for %d replies", c, open);
        }
        const uint64_t t0 = sim_now();
        for (;;) {
            std::string miss;
            {
                SimGuard g;
                for (auto *x : mine) for (size_t id = 0; id < w.notes.size(); id++) if (w.notes[id].end && w.notes[id].start > x->confirmed && match(w.notes[id], *x) && !x->got.count((int) id)) miss = "subscription to " + subTopic(*x) + " of client " + std::to_string(c) + " misses notification " + std::to_string(id) + " " + show(w.notes[id].ctx);
            }
            if (miss.empty() && pubDone) break;
            if (sim_now() - t0 > 60000 * MS) sim_fail("lost-notification", "%s", miss.c_str());
            pump(20);
        }
        pump(100);
    });
    if (np) {
        while (subscribed < nc) sim_sleep(5 * MS);
        std::vector<std::thread> ps;
        for (int k = 0; k < np; k++) ps.emplace_back([&, k] {
            const unsigned st = (unsigned) (50 + k);
            for (int q = 0; q < 6; q++) {
                Ctx ctx = pick(st);
                Out out;
                size_t id;
                {
                    SimGuard g;
                    id = w.notes.size();
                    out.key = "n" + std::to_string(id);
                    out.note = "from " + std::to_string(k);
                    out.values = pickValues(st);
                    w.notes.push_back({ ctx, out, k, q, sim_now() + 1, 0 });
                }
                SIM_CHECK(ws[(size_t) (k % nw)]->notify(ctx, out), "notify-failed", "notify() fails");
                { SimGuard g; w.notes[id].end = sim_now() + 1; }
                if (sim_wl(st, 2)) sim_sleep(sim_wl(st, 30) * MS);
            }
        });
        for (auto &t : ps) t.join();
        pubDone = true;
    }
    for (auto &t : cs) t.join();
    for (auto &r : w.reqs) SIM_CHECK(r.handled == 1 && r.replies == 1, "no-reply", "request '%s' was handled %d times and answered %d times", r.rid.c_str(), r.handled, r.replies);
    sim_calm();
    for (auto &x : ws) x->shutdown();
    for (auto &t : wts) t.join();
    broker.shutdown();
    bt.join();
    W = nullptr;
}
