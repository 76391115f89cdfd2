// Simulated ZeroMQ 4.3: sockets, pipes, connections with latency, breaks, refused connections and partitions.
// All state changes happen inside API calls, which are atomic for the scheduler (SimGuard) and preceded by a
// scheduling point; waiting is in simulated time.
#include "../sim/simxx.hpp"
#include "../sim/netsim.hpp"
#include <zmq.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <poll.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace netsim {
Cfg cfg;
bool (*fdReady)(int, short) = nullptr;
short (*fdEvents)(int) = nullptr;
uint64_t (*fdNext)() = nullptr;
}
namespace {
struct Buf { // reference counted, zero copy like the real thing
    void *data; size_t size; zmq_free_fn *ffn; void *hint; int refs; char own;
};
void bufRelease(Buf *b) {
    if (!b || --b->refs) return;
    if (b->ffn) b->ffn(b->data, b->hint);
    else if (b->own) free(b->data);
    delete b;
}
struct Frame { // shared reference
    Buf *b;
    explicit Frame(Buf *x) : b(x) {}
    Frame(const Frame &o) : b(o.b) { b->refs++; }
    Frame(Frame &&o) noexcept : b(o.b) { o.b = nullptr; }
    Frame &operator=(Frame o) noexcept { std::swap(b, o.b); return *this; }
    ~Frame() { bufRelease(b); }
    std::string str() const { return { (const char *) b->data, b->size }; }
};
Frame mkFrame(const std::string &s) {
    char *d = (char *) malloc(s.size() + 1);
    memcpy(d, s.data(), s.size());
    return Frame(new Buf{ d, s.size(), nullptr, nullptr, 1, 1 });
}
using Msg = std::vector<Frame>;
struct Tm { Msg m; uint64_t at; };
struct Sock;
struct Ctx { int node; std::set<Sock *> socks; bool term = false; };
struct Link;
struct Sock {
    Ctx *ctx; int type; long id;
    int sndhwm = 1000, rcvhwm = 1000; bool verbose = false;
    std::vector<std::string> bound;
    std::vector<Link *> links;
    size_t rrIn = 0, rrOut = 0;
    Msg cur;              // being sent
    Link *curLink = nullptr; bool curDrop = false;
    std::deque<Frame> in; // being received
    std::map<std::string, int> subs;                      // SUB side
    std::map<std::string, std::set<Link *>> peerSubs;     // XPUB side
    std::deque<std::string> pend;                         // XPUB: notifications for the user
    uint32_t nextRid; bool closed = false;
    int polling = 0, pollThread = -1, sendThread = -1;
};
struct Link {
    Sock *a, *b = nullptr;   // connecting, binding end (null: gone or not yet connected)
    std::string ep; bool inproc; bool everUp = false, dead = false;
    uint64_t retryAt = 0;
    std::deque<Tm> q[2];     // 0: a -> b, 1: b -> a
    uint64_t last[2] = { 0, 0 };
    std::deque<Msg> out;     // a's messages while not connected
    std::string rid;         // of a at b
    Sock *peer(Sock *s) const { return s == a ? b : a; }
};
std::set<Ctx *> g_ctx;
std::vector<Link *> g_links;
struct Part { int a, b; uint64_t until; };
std::vector<Part> g_parts;
long g_ids = 0;
int g_wakeAddr;

bool isPubT(int t) { return t == ZMQ_PUB || t == ZMQ_XPUB; }
bool isSubT(int t) { return t == ZMQ_SUB || t == ZMQ_XSUB; }
bool parted(int x, int y) {
    for (auto &p : g_parts)
        if (sim_now() < p.until && ((p.a == x && p.b == y) || (p.a == y && p.b == x) || (p.b < 0 && (p.a == x || p.a == y)))) return true;
    return false;
}
void wake() { sim_wake(&g_wakeAddr, 1000); }

uint64_t latency() {
    using netsim::cfg;
    uint64_t l = cfg.lat_min + (cfg.lat_max > cfg.lat_min ? sim_choice("net-latency", 8) * (cfg.lat_max - cfg.lat_min) / 7 : 0);
    if (cfg.delay_ppm && sim_fault("net-delay", cfg.delay_ppm)) l += sim_choice("net-delay-len", 16) * cfg.delay_max / 15;
    return l;
}
void push(Link *l, int dir, Msg m) {
    uint64_t at = l->inproc ? sim_now() : std::max(l->last[dir], sim_now() + latency());
    l->last[dir] = at;
    l->q[dir].push_back({ std::move(m), at });
    wake();
}
void subMsg(Link *l, Sock *from, char c, const std::string &t) {
    if (!l->a || !l->b) return;
    push(l, from == l->a ? 0 : 1, Msg{ mkFrame(std::string(1, c) + t) });
}
void establish(Link *l, Sock *b) {
    l->b = b;
    b->links.push_back(l);
    uint32_t r = b->nextRid++;
    l->rid = std::string("\0", 1) + std::string({ (char) (r >> 24), (char) (r >> 16), (char) (r >> 8), (char) r });
    l->everUp = true;
    l->last[0] = l->last[1] = sim_now();
    if (isSubT(l->a->type)) for (auto &[t, n] : l->a->subs) subMsg(l, l->a, 1, t);
    if (isSubT(b->type)) for (auto &[t, n] : b->subs) subMsg(l, b, 1, t);
    while (!l->out.empty()) { auto m = std::move(l->out.front()); l->out.pop_front(); push(l, 0, std::move(m)); }
    wake();
}
void notifyUser(Sock *s, char c, const std::string &t) { if (s->type == ZMQ_XPUB) s->pend.push_back(std::string(1, c) + t); }
void pipeGone(Sock *s, Link *l) { // the pipe of l at s is gone
    std::erase(s->links, l);
    if (s->curLink == l) { s->curLink = nullptr; s->curDrop = true; }
    if (isPubT(s->type))
        for (auto it = s->peerSubs.begin(); it != s->peerSubs.end();) {
            if (it->second.erase(l) && it->second.empty()) { notifyUser(s, 0, it->first); it = s->peerSubs.erase(it); }
            else ++it;
        }
}
void bindEndGone(Link *l, bool lossy);
// the connecting end re-creates a tcp connection; messages under way are partly lost
void breakLink(Link *l) {
    if (!l->b || l->inproc) return;
    bindEndGone(l, true);
}
std::vector<Link *> g_zombies; // closed pipes whose receiver may still read what has arrived
void bindEndGone(Link *l, bool lossy) {
    // split: what had arrived at either end stays readable, the rest is lost (or, at the connecting end, unsent and kept)
    Sock *b = l->b;
    const uint64_t now = sim_now();
    std::deque<Msg> keep;
    for (int d = 0; d < 2; d++) {
        auto &q = l->q[d];
        size_t arrived = 0;
        while (arrived < q.size() && q[arrived].at <= now) arrived++;
        if (d == 0 && lossy && q.size() > arrived) {
            size_t sent = arrived + (size_t) sim_choice("break-cut", q.size() - arrived + 1); // default 0: nothing more is lost
            sent = q.size() - (sent - arrived);                                                // default: all under way are lost
            for (size_t i = sent; i < q.size(); i++) keep.push_back(std::move(q[i].m));
        }
        if (lossy) q.resize(arrived);
    }
    // subscription messages are re-created on reconnection, never kept
    if (isSubT(l->a ? l->a->type : ZMQ_PAIR)) keep.clear();
    if (b && !b->closed && !l->q[0].empty()) { // still readable by the binding end, under the old identity
        Link *z = new Link(*l);
        z->a = nullptr; z->dead = true; z->q[1].clear(); z->out.clear();
        if (isPubT(b->type)) z->q[0].clear();
        auto it = std::find(b->links.begin(), b->links.end(), l);
        pipeGone(b, l);
        (void) it;
        b->links.push_back(z);
        g_zombies.push_back(z);
    } else if (b && !b->closed) pipeGone(b, l);
    l->q[0].clear();
    l->b = nullptr;
    l->rid.clear();
    if (l->a && isPubT(l->a->type)) { // connecting publisher: subscriptions of the pipe are gone
        auto ls = l->a->links;
        pipeGone(l->a, l);
        l->a->links = ls;
    }
    if (l->inproc) { // never comes back
        l->dead = true;
        if (l->a && l->q[1].empty()) { pipeGone(l->a, l); }
    } else {
        for (auto &m : keep) l->out.push_back(std::move(m));
        l->retryAt = now + 100000000 + 1000000 * sim_choice("reconnect", 10);
    }
    wake();
}
Sock *listener(Link *l) {
    for (auto *c : g_ctx) {
        if (l->inproc && c != l->a->ctx) continue;
        for (auto *s : c->socks)
            for (auto &e : s->bound) if (e == l->ep) return s;
    }
    return nullptr;
}
void settle() {
    const uint64_t now = sim_now();
    for (size_t i = 0; i < g_links.size(); i++) {
        Link *l = g_links[i];
        if (!l->a || l->b || l->dead || l->retryAt > now) continue;
        Sock *b = listener(l);
        if (!b) { if (!l->inproc) l->retryAt = now + 100000000; continue; }
        if (!l->inproc && (parted(l->a->ctx->node, b->ctx->node) || (netsim::cfg.refuse_ppm && sim_fault("conn-refused", netsim::cfg.refuse_ppm)))) { l->retryAt = now + 100000000; continue; }
        establish(l, b);
    }
}
int dirTo(Link *l, Sock *s) { return s == l->a ? 1 : 0; } // queue read by s
void processSubs(Sock *s) {
    if (!isPubT(s->type)) return;
    const uint64_t now = sim_now();
    for (size_t i = 0; i < s->links.size(); i++) {
        Link *l = s->links[i];
        auto &q = l->q[dirTo(l, s)];
        while (!q.empty() && q.front().at <= now) {
            std::string x = q.front().m.empty() ? "" : q.front().m[0].str();
            q.pop_front();
            if (x.empty() || (x[0] != 0 && x[0] != 1)) continue;
            std::string t = x.substr(1);
            if (x[0] == 1) {
                auto &set = s->peerSubs[t];
                const bool uniq = set.empty();
                set.insert(l);
                if (uniq || s->verbose) notifyUser(s, 1, t);
            } else {
                auto it = s->peerSubs.find(t);
                bool remain = false;
                if (it != s->peerSubs.end()) { it->second.erase(l); remain = !it->second.empty(); if (!remain) s->peerSubs.erase(it); }
                if (!remain) notifyUser(s, 0, t);
            }
        }
    }
}
bool subMatch(Sock *s, const std::string &topic) {
    for (auto &[t, n] : s->subs) if (topic.starts_with(t)) return true;
    return false;
}
Tm *headFor(Sock *s, Link *l) { // first readable message
    auto &q = l->q[dirTo(l, s)];
    while (!q.empty() && q.front().at <= sim_now()) {
        if (isSubT(s->type) && !subMatch(s, q.front().m[0].str())) { q.pop_front(); continue; }
        return &q.front();
    }
    return nullptr;
}
void dropEmptyDead(Sock *s) {
    for (size_t i = 0; i < s->links.size();) {
        Link *l = s->links[i];
        if ((l->dead || (!l->a && s == l->b)) && l->q[dirTo(l, s)].empty() && (s == l->a ? !l->b : !l->a)) pipeGone(s, l);
        else i++;
    }
}
bool readable(Sock *s) {
    if (!s->in.empty()) return true;
    if (isPubT(s->type)) { processSubs(s); return !s->pend.empty(); }
    dropEmptyDead(s);
    for (auto *l : s->links) if (headFor(s, l)) return true;
    return false;
}
bool full(Sock *s, Link *l) {
    Sock *p = l->peer(s);
    int h = !l->inproc ? s->sndhwm : (!s->sndhwm || (p && !p->rcvhwm)) ? 0 : s->sndhwm + (p ? p->rcvhwm : 1000);
    if (!h) return false;
    return (int) (l->q[s == l->a ? 0 : 1].size() + l->out.size()) >= h;
}
bool usable(Sock *s, Link *l) { return s == l->a ? !(l->dead || (l->inproc && l->everUp && !l->b)) : l->a != nullptr; }
Link *pickOut(Sock *s) {
    for (size_t i = 0; i < s->links.size(); i++) {
        Link *l = s->links[(s->rrOut + i) % s->links.size()];
        if (usable(s, l) && !full(s, l)) { s->rrOut = (s->rrOut + i + 1) % s->links.size(); return l; }
    }
    return nullptr;
}
std::string show(const Msg &m) {
    std::string r;
    for (auto &f : m) { r += '|'; for (char c : f.str()) r += (c >= 32 && c < 127) ? std::string(1, c) : "\\" + std::to_string((unsigned char) c); }
    return r;
}
void transmit(Sock *s, Link *l, Msg m) {
    if (sim_verbose()) sim_log("zmq socket %ld -> %ld%s: %s", s->id, l->peer(s) ? l->peer(s)->id : -1, l->b ? "" : " (not connected)", show(m).c_str());
    if (!l->b) { l->out.push_back(std::move(m)); return; }
    push(l, s == l->a ? 0 : 1, std::move(m));
    if (!l->inproc && netsim::cfg.drop_ppm && sim_fault("conn-break", netsim::cfg.drop_ppm)) breakLink(l);
}
uint64_t nextEvent() {
    uint64_t t = 0;
    auto add = [&](uint64_t x) { if (x > sim_now() && (!t || x < t)) t = x; };
    for (auto *l : g_links) {
        if (l->a && !l->b && !l->dead && !l->inproc) add(l->retryAt);
        for (auto &q : l->q) if (!q.empty()) add(q.front().at);
    }
    return t;
}
std::string norm(const char *ep, bool &inproc) {
    std::string e = ep;
    inproc = e.starts_with("inproc://");
    if (inproc) return e;
    if (e.starts_with("tcp://")) e = e.substr(6);
    auto c = e.rfind(':');
    if (c == std::string::npos) return e;
    size_t i = c + 1;
    while (i < e.size() && isdigit(e[i])) i++;
    return e.substr(c, i - c); // one machine: the port decides
}
bool validEp(const char *ep) {
    std::string e = ep;
    if (e.find("://") == std::string::npos) { errno = EINVAL; return false; }
    if (!e.starts_with("inproc://") && !e.starts_with("tcp://")) { errno = EPROTONOSUPPORT; return false; }
    return true;
}
Sock *S_(void *p) {
    auto *s = (Sock *) p;
    if (!s || s->closed) sim_fail("zmq:closed-socket", "a zmq socket is used after it was closed");
    return s;
}
Buf *&B(zmq_msg_t *m) { return *(Buf **) &m->p[0]; }
constexpr uintptr_t MAGIC = 0x5a6d715f6d736721ull;
void msgCheck(const zmq_msg_t *m) { if ((uintptr_t) m->p[1] != MAGIC) sim_fail("zmq:bad-message", "an uninitialised or closed zmq message is used"); }
void useCheck(Sock *s) {
    if (s->polling && s->pollThread != sim_tid()) sim_fail("zmq:shared-socket", "a zmq socket is used by one thread while another thread waits on it");
}
} // namespace

namespace netsim {
void node(int g) { sim_set_group(g); }
void wakeAll() { wake(); }
void waitWake(uint64_t dl) { sim_block(&g_wakeAddr, dl); }
void breakAll(int a, int b) {
    SimGuard g;
    for (size_t i = 0; i < g_links.size(); i++) {
        Link *l = g_links[i];
        if (!l->a || !l->b || l->inproc) continue;
        int x = l->a->ctx->node, y = l->b->ctx->node;
        if ((a < 0 || x == a || y == a) && (b < 0 || x == b || y == b)) breakLink(l);
    }
}
void partition(int a, int b, uint64_t ns) {
    SimGuard g;
    sim_log("partition between node %d and %d for %lu ms", a, b, ns / 1000000);
    g_parts.push_back({ a, b, sim_now() + ns });
    breakAll(a, b);
}
void crash(int grp) {
    SimGuard g;
    sim_log("node %d crashes", grp);
    sim_kill_group(grp);
    std::vector<Sock *> gone;
    for (auto *c : g_ctx) if (c->node == grp) for (auto *s : c->socks) gone.push_back(s);
    for (auto *s : gone) {
        s->closed = true;
        for (auto *l : std::vector<Link *>(s->links)) {
            if (l->b == s) { if (!l->inproc) bindEndGone(l, true); else { l->b = nullptr; l->dead = true; } }
            else if (l->a == s) {
                const uint64_t now = sim_now();
                auto &q = l->q[0];
                size_t arrived = 0;
                while (arrived < q.size() && q[arrived].at <= now) arrived++;
                size_t extra = q.size() > arrived ? (size_t) sim_choice("crash-cut", q.size() - arrived + 1) : 0;
                q.resize(arrived + extra);
                l->a = nullptr; l->dead = true; l->out.clear();
                if (l->b && !l->b->closed && l->q[0].empty()) pipeGone(l->b, l);
            }
        }
        s->links.clear();
        s->bound.clear();
        s->ctx->socks.erase(s);
    }
    std::erase_if(g_ctx, [&](Ctx *c) { return c->node == grp; });
    wake();
}
long openSockets() { long n = 0; for (auto *c : g_ctx) n += (long) c->socks.size(); return n; }
} // namespace netsim

extern "C" {
int zmq_errno(void) { return errno; }
const char *zmq_strerror(int e) { return e == ETERM ? "Context was terminated" : strerror(e); }
void *zmq_ctx_new(void) {
    sim_point();
    SimGuard g;
    auto *c = new Ctx{ sim_get_group(), {}, false };
    g_ctx.insert(c);
    return c;
}
int zmq_ctx_term(void *p) {
    sim_point();
    auto *c = (Ctx *) p;
    if (!c) { errno = EFAULT; return -1; }
    { SimGuard g; c->term = true; wake(); }
    while (true) {
        { SimGuard g; if (c->socks.empty()) { g_ctx.erase(c); delete c; return 0; } }
        sim_block(&g_wakeAddr, 0);
    }
}
void *zmq_socket(void *p, int type) {
    sim_point();
    SimGuard g;
    auto *c = (Ctx *) p;
    if (c->term) { errno = ETERM; return nullptr; }
    auto *s = new Sock{ .ctx = c, .type = type, .id = ++g_ids };
    s->nextRid = 0x6b8b4567u + (uint32_t) (s->id * 0x10001);
    c->socks.insert(s);
    return s;
}
int zmq_close(void *p) {
    if (!p) { errno = ENOTSOCK; return -1; }
    sim_point();
    SimGuard g;
    Sock *s = S_(p);
    useCheck(s);
    s->closed = true;
    s->cur.clear();
    s->in.clear();
    for (auto *l : std::vector<Link *>(s->links)) {
        if (l->a == s) { // what was sent still arrives; unsent messages are dropped with the connection attempt
            l->a = nullptr;
            l->dead = true;
            l->q[1].clear();
            l->out.clear();
            if (l->b) { // the end of the stream arrives after the data
                if (isPubT(l->b->type) || l->q[0].empty()) { if (isPubT(l->b->type)) processSubs(l->b); if (l->q[0].empty() || isPubT(l->b->type)) pipeGone(l->b, l); }
            }
        } else if (l->b == s) {
            bindEndGone(l, false);
        }
    }
    s->links.clear();
    s->bound.clear();
    s->ctx->socks.erase(s);
    wake();
    return 0;
}
int zmq_bind(void *p, const char *ep) {
    sim_point();
    SimGuard g;
    Sock *s = S_(p);
    if (s->ctx->term) { errno = ETERM; return -1; }
    bool inproc;
    const std::string e = norm(ep, inproc);
    for (auto *c : g_ctx) {
        if (inproc && c != s->ctx) continue;
        for (auto *o : c->socks) for (auto &x : o->bound) if (x == e) { errno = EADDRINUSE; return -1; }
    }
    if (!validEp(ep)) return -1;
    s->bound.push_back(e);
    settle();
    wake();
    return 0;
}
int zmq_connect(void *p, const char *ep) {
    sim_point();
    SimGuard g;
    Sock *s = S_(p);
    if (s->ctx->term) { errno = ETERM; return -1; }
    bool inproc;
    const std::string e = norm(ep, inproc);
    if (!validEp(ep)) return -1;
    auto *l = new Link{ .a = s, .ep = e, .inproc = inproc };
    l->retryAt = inproc ? 0 : sim_now() + 50000 + 1000 * sim_choice("connect-time", 100);
    g_links.push_back(l);
    s->links.push_back(l);
    settle();
    wake();
    return 0;
}
int zmq_disconnect(void *p, const char *ep) {
    sim_point();
    SimGuard g;
    Sock *s = S_(p);
    bool inproc;
    const std::string e = norm(ep, inproc);
    for (auto *l : std::vector<Link *>(s->links))
        if (l->a == s && l->ep == e) {
            pipeGone(s, l);
            l->a = nullptr; l->dead = true;
            if (l->b && l->q[0].empty()) pipeGone(l->b, l);
            return 0;
        }
    errno = ENOENT;
    return -1;
}
int zmq_setsockopt(void *p, int opt, const void *v, size_t n) {
    sim_point();
    SimGuard g;
    Sock *s = S_(p);
    useCheck(s);
    if (s->ctx->term) { errno = ETERM; return -1; }
    int i = n >= sizeof(int) ? *(const int *) v : 0;
    switch (opt) {
    case ZMQ_SNDHWM: s->sndhwm = i; break;
    case ZMQ_RCVHWM: s->rcvhwm = i; break;
    case ZMQ_XPUB_VERBOSE: s->verbose = i; break;
    case ZMQ_SUBSCRIBE: {
        settle();
        std::string t((const char *) v, n);
        s->subs[t]++;
        for (auto *l : s->links) subMsg(l, s, 1, t);
    } break;
    case ZMQ_UNSUBSCRIBE: {
        settle();
        std::string t((const char *) v, n);
        auto it = s->subs.find(t);
        if (it == s->subs.end()) break;
        if (--it->second == 0) {
            s->subs.erase(it);
            for (auto *l : s->links) subMsg(l, s, 0, t);
        }
    } break;
    default: break;
    }
    return 0;
}
int zmq_getsockopt(void *p, int opt, void *v, size_t *n) {
    SimGuard g;
    Sock *s = S_(p);
    if (s->ctx->term) { errno = ETERM; return -1; }
    if (opt == ZMQ_RCVMORE) {
        if (*n == sizeof(int64_t)) *(int64_t *) v = !s->in.empty();
        else { *(int *) v = !s->in.empty(); *n = sizeof(int); }
        return 0;
    }
    errno = EINVAL;
    return -1;
}
int zmq_msg_init(zmq_msg_t *m) { B(m) = nullptr; m->p[1] = (void *) MAGIC; return 0; }
int zmq_msg_init_data(zmq_msg_t *m, void *data, size_t size, zmq_free_fn *ffn, void *hint) {
    SimGuard g;
    B(m) = new Buf{ data, size, ffn, hint, 1, 0 };
    m->p[1] = (void *) MAGIC;
    return 0;
}
int zmq_msg_close(zmq_msg_t *m) {
    if ((uintptr_t) m->p[1] != MAGIC) { errno = EFAULT; return -1; }
    SimGuard g;
    bufRelease(B(m));
    B(m) = nullptr;
    m->p[1] = nullptr;
    return 0;
}
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) {
    msgCheck(s);
    if (d == s) return 0;
    msgCheck(d);
    SimGuard g;
    bufRelease(B(d));
    B(d) = B(s);
    B(s) = nullptr;
    return 0;
}
size_t zmq_msg_size(const zmq_msg_t *m) { msgCheck(m); Buf *b = B((zmq_msg_t *) m); return b ? b->size : 0; }
void *zmq_msg_data(zmq_msg_t *m) { msgCheck(m); static char none[1]; Buf *b = B(m); return b ? b->data : none; }
int zmq_msg_send(zmq_msg_t *m, void *p, int flags) {
    if (!p) { errno = ENOTSOCK; return -1; }
    sim_point();
    while (true) {
        uint64_t dl;
        {
            SimGuard g;
            Sock *s = S_(p);
            msgCheck(m);
            useCheck(s);
            if (s->ctx->term) { errno = ETERM; return -1; }
            settle();
            const int tid = sim_tid();
            if (!s->cur.empty() && s->sendThread != tid) sim_fail("zmq:mixed-send", "two threads send on one zmq socket at the same time, their message parts are mixed");
            s->sendThread = tid;
            Buf *b = B(m);
            if (!b) { b = new Buf{ nullptr, 0, nullptr, nullptr, 1, 0 }; }
            bool again = false;
            if (s->cur.empty() && !s->curDrop) {
                switch (s->type) {
                case ZMQ_DEALER: case ZMQ_PUSH: case ZMQ_PAIR:
                    if (netsim::cfg.again_ppm && sim_fault("zmq-again", netsim::cfg.again_ppm)) { again = true; break; }
                    s->curLink = pickOut(s);
                    if (!s->curLink) again = true;
                    break;
                case ZMQ_ROUTER: {
                    std::string id((const char *) b->data, b->size);
                    s->curLink = nullptr;
                    for (auto *l : s->links) if (l->b == s && l->a && l->rid == id) s->curLink = l;
                    if (!s->curLink || full(s, s->curLink)) s->curDrop = true;
                } break;
                default: break;
                }
            }
            if (!again) {
                size_t sz = b->size;
                s->cur.emplace_back(b);
                B(m) = nullptr; // message is empty now
                if (!(flags & ZMQ_SNDMORE)) {
                    Msg msg = std::move(s->cur);
                    s->cur.clear();
                    Link *l = s->curLink;
                    bool drop = s->curDrop;
                    s->curLink = nullptr;
                    s->curDrop = false;
                    switch (s->type) {
                    case ZMQ_DEALER: case ZMQ_PUSH: case ZMQ_PAIR: if (!drop && l) transmit(s, l, std::move(msg)); break;
                    case ZMQ_ROUTER:
                        if (!drop && l) { msg.erase(msg.begin()); transmit(s, l, std::move(msg)); }
                        else sim_probe("router-unknown-peer");
                        break;
                    case ZMQ_PUB: case ZMQ_XPUB: {
                        processSubs(s);
                        const std::string topic = msg[0].str();
                        std::set<Link *> to;
                        for (auto &[t, ls] : s->peerSubs) if (topic.starts_with(t)) to.insert(ls.begin(), ls.end());
                        for (auto *x : std::vector<Link *>(s->links)) if (to.count(x) && !full(s, x)) transmit(s, x, msg); // in connection order: independent of addresses
                    } break;
                    case ZMQ_XSUB: {
                        const std::string x = msg[0].str();
                        if (x.empty()) break;
                        const std::string t = x.substr(1);
                        if (x[0] == 1) s->subs[t]++;
                        else if (x[0] == 0) { auto it = s->subs.find(t); if (it != s->subs.end() && --it->second == 0) s->subs.erase(it); }
                        for (auto *y : s->links) subMsg(y, s, x[0], t);
                    } break;
                    default: sim_fail("zmq:bad-send", "send on a socket of type %d", s->type);
                    }
                }
                return (int) sz;
            }
            if (!B(m)) delete b;
            if (flags & ZMQ_DONTWAIT) { errno = EAGAIN; dl = ~0ull; }
            else dl = nextEvent();
        }
        if (dl == ~0ull) { sim_yield(); errno = EAGAIN; return -1; }
        sim_block(&g_wakeAddr, dl ? dl : sim_now() + 100000000);
    }
}
int zmq_msg_recv(zmq_msg_t *m, void *p, int flags) {
    if (!p) { errno = ENOTSOCK; return -1; }
    sim_point();
    while (true) {
        uint64_t dl;
        {
            SimGuard g;
            Sock *s = S_(p);
            msgCheck(m);
            useCheck(s);
            if (s->ctx->term) { errno = ETERM; return -1; }
            settle();
            if (s->in.empty()) {
                if (isPubT(s->type)) {
                    processSubs(s);
                    if (!s->pend.empty()) { s->in.push_back(mkFrame(s->pend.front())); s->pend.pop_front(); }
                } else if (!s->links.empty()) {
                    dropEmptyDead(s);
                    for (size_t i = 0; i < s->links.size(); i++) {
                        Link *l = s->links[(s->rrIn + i) % s->links.size()];
                        if (Tm *t = headFor(s, l)) {
                            if (s->type == ZMQ_ROUTER) s->in.push_back(mkFrame(l->rid));
                            for (auto &f : t->m) s->in.push_back(std::move(f));
                            l->q[dirTo(l, s)].pop_front();
                            s->rrIn = (s->rrIn + i + 1) % s->links.size();
                            wake(); // space for blocked senders
                            break;
                        }
                    }
                }
            }
            if (!s->in.empty()) {
                bufRelease(B(m));
                Frame f = std::move(s->in.front());
                s->in.pop_front();
                B(m) = f.b;
                f.b = nullptr;
                return (int) zmq_msg_size(m);
            }
            if (flags & ZMQ_DONTWAIT) { errno = EAGAIN; return -1; }
            dl = nextEvent();
        }
        sim_block(&g_wakeAddr, dl);
    }
}
static int pollImpl(zmq_pollitem_t *it, int n, long timeout);
int zmq_poll(zmq_pollitem_t *it, int n, long timeout) {
    int r = pollImpl(it, n, timeout);
    if (netsim::cfg.stall_ppm && sim_fault("poll-stall", netsim::cfg.stall_ppm)) sim_sleep((1 + sim_choice("poll-stall-len", 16)) * netsim::cfg.stall_max / 16);
    return r;
}
static int pollImpl(zmq_pollitem_t *it, int n, long timeout) {
    sim_point();
    const uint64_t end = timeout < 0 ? 0 : sim_now() + (uint64_t) timeout * 1000000;
    while (true) {
        uint64_t dl;
        {
            SimGuard g;
            settle();
            int ready = 0;
            for (int i = 0; i < n; i++) {
                it[i].revents = 0;
                if (it[i].socket) {
                    Sock *s = S_(it[i].socket);
                    useCheck(s);
                    if (s->ctx->term) { errno = ETERM; return -1; }
                    if ((it[i].events & ZMQ_POLLIN) && readable(s)) it[i].revents |= ZMQ_POLLIN;
                    if ((it[i].events & ZMQ_POLLOUT)) it[i].revents |= ZMQ_POLLOUT;
                } else if (netsim::fdEvents && it[i].fd >= 1 << 20) {
                    const short ev = netsim::fdEvents(it[i].fd);
                    it[i].revents = (short) ((it[i].events & (ZMQ_POLLIN | ZMQ_POLLOUT) & ((ev & POLLIN ? ZMQ_POLLIN : 0) | (ev & POLLOUT ? ZMQ_POLLOUT : 0))) | (ev & ~(POLLIN | POLLOUT) ? ZMQ_POLLERR : 0));
                } else if (netsim::fdReady && netsim::fdReady(it[i].fd, it[i].events)) it[i].revents |= it[i].events & ZMQ_POLLIN;
                if (it[i].revents) ready++;
            }
            if (ready || (timeout >= 0 && sim_now() >= end)) return ready;
            dl = nextEvent();
            if (netsim::fdNext) { const uint64_t t = netsim::fdNext(); if (t && (!dl || t < dl)) dl = t; }
            if (timeout >= 0 && (!dl || end < dl)) dl = end;
            for (int i = 0; i < n; i++) if (it[i].socket) { ((Sock *) it[i].socket)->polling++; ((Sock *) it[i].socket)->pollThread = sim_tid(); }
        }
        sim_block(&g_wakeAddr, dl);
        SimGuard g;
        for (int i = 0; i < n; i++) if (it[i].socket) ((Sock *) it[i].socket)->polling--;
    }
}
}
