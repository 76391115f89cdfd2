// TCP sockets, poll and name resolution inside the simulation.  Descriptors start at 1 << 20; anything below goes to the kernel.
#include "../sim/simxx.hpp"
#include "../sim/netsim.hpp"
#include "../sim/tcpsim.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

tcpsim::Cfg tcpsim::cfg;
namespace {
constexpr int BASE = 1 << 20;
struct Seg { std::string d; size_t off; uint64_t at; };
struct Dir { std::deque<Seg> q; size_t bytes = 0; uint64_t last = 0, finAt = 0; bool fin = false; };
struct Conn { Dir d[2]; uint64_t rstAt[2] = { 0, 0 }; bool closed[2] = { false, false }, injected = false; }; // d[i]: written by side i; rstAt[i]: side i learns of a reset
struct Sk {
    int fd, node, side = 0, port = 0, err = 0;
    enum { Fresh, Listen, Connecting, Up } st = Fresh;
    bool nb = false, ok = false, shutWr = false;
    uint64_t at = 0;
    std::shared_ptr<Conn> c;
    struct Pend { std::shared_ptr<Conn> c; uint64_t at; };
    std::deque<Pend> backlog;
};
std::map<int, Sk> g_sk;
int  g_next = BASE;
Sk  *sk(int fd) { auto it = g_sk.find(fd); return it == g_sk.end() ? nullptr : &it->second; }
uint64_t lat() { using tcpsim::cfg; return cfg.lat_min + (cfg.lat_max > cfg.lat_min ? sim_choice("tcp-latency", 6) * (cfg.lat_max - cfg.lat_min) / 5 : 0); }
void rstNow(Conn &c) { for (int i = 0; i < 2; i++) { if (!c.rstAt[i]) c.rstAt[i] = sim_now() + 1; c.d[i].q.clear(); c.d[i].bytes = 0; } netsim::wakeAll(); }
short events(int fd) {
    Sk *s = sk(fd);
    if (!s) return POLLNVAL;
    const uint64_t now = sim_now();
    switch (s->st) {
    case Sk::Fresh: return POLLOUT | POLLHUP;
    case Sk::Listen: return !s->backlog.empty() && s->backlog.front().at <= now ? POLLIN : 0;
    case Sk::Connecting: return now < s->at ? 0 : s->ok ? POLLOUT : POLLIN | POLLOUT | POLLERR | POLLHUP;
    case Sk::Up: break;
    }
    Conn &c = *s->c;
    if (c.rstAt[s->side] && c.rstAt[s->side] <= now) return (short) (POLLIN | POLLOUT | POLLHUP | (s->err ? 0 : POLLERR));
    short e = 0;
    Dir &in = c.d[1 - s->side];
    if (!in.q.empty() ? in.q.front().at <= now : in.fin && in.finAt <= now) e |= POLLIN;
    if (c.d[s->side].bytes < tcpsim::cfg.buf) e |= POLLOUT;
    return e;
}
uint64_t nextEv() {
    const uint64_t now = sim_now();
    uint64_t r = 0;
    auto see = [&](uint64_t t) { if (t > now && (!r || t < r)) r = t; };
    for (auto &[fd, s] : g_sk) {
        if (s.st == Sk::Connecting) see(s.at);
        if (s.st == Sk::Listen && !s.backlog.empty()) see(s.backlog.front().at);
        if (s.st != Sk::Up) continue;
        Dir &in = s.c->d[1 - s.side];
        if (!in.q.empty()) see(in.q.front().at);
        else if (in.fin) see(in.finAt);
        see(s.c->rstAt[s.side]);
    }
    return r;
}
int fail(int e) { errno = e; return -1; }
void waitChange() { uint64_t t; { SimGuard g; t = nextEv(); } netsim::waitWake(t ? t : sim_now() + 100000000); }
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return ::syscall(n, a, b, c, d, e, f); }
struct Init { Init() { netsim::fdEvents = events; netsim::fdNext = nextEv; } } init;
void closeSk(Sk &s) {
    if (s.st == Sk::Listen) for (auto &p : s.backlog) { p.c->closed[1] = true; rstNow(*p.c); }
    if (s.st == Sk::Up) {
        Conn &c = *s.c;
        c.closed[s.side] = true;
        Dir &in = c.d[1 - s.side], &o = c.d[s.side];
        if (in.bytes) { in.q.clear(); in.bytes = 0; if (!c.rstAt[1 - s.side]) c.rstAt[1 - s.side] = std::max(o.last, sim_now() + lat()); }
        else if (!o.fin) { o.fin = true; o.finAt = std::max(o.last, sim_now() + lat()); }
    }
    netsim::wakeAll();
}
} // namespace
bool tcpsim::faulted(int fd) { SimGuard g; Sk *s = sk(fd); return s && s->c && s->c->injected; }
void tcpsim::resetAll() { SimGuard g; for (auto &[fd, s] : g_sk) if (s.st == Sk::Up && !s.c->closed[0] && !s.c->closed[1]) { s.c->injected = true; rstNow(*s.c); } }
void tcpsim::crash(int node) {
    SimGuard g;
    for (auto it = g_sk.begin(); it != g_sk.end();) {
        if (it->second.node != node) { ++it; continue; }
        if (it->second.c) it->second.c->injected = true;
        for (auto &p : it->second.backlog) p.c->injected = true;
        closeSk(it->second);
        it = g_sk.erase(it);
    }
}
long tcpsim::open() { return (long) g_sk.size(); }

extern "C" {
int sim_rand_bytes(unsigned char *p, int n) { static uint64_t x = 1; for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char) (x >> 33); } return 1; }
int socket(int dom, int type, int proto) noexcept {
    if (!sim_active()) return (int) raw(SYS_socket, dom, type, proto);
    SimGuard g;
    Sk s; s.fd = g_next++; s.node = sim_get_group(); s.nb = type & SOCK_NONBLOCK;
    const int fd = s.fd;
    g_sk.emplace(fd, std::move(s));
    return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) noexcept {
    if (fd < BASE) return (int) raw(SYS_bind, fd, (long) a, l);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s) return fail(EBADF);
    const int port = ntohs(((const sockaddr_in *) a)->sin_port);
    for (auto &[f, o] : g_sk) if (o.st == Sk::Listen && o.port == port) return fail(EADDRINUSE);
    s->port = port;
    return 0;
}
int listen(int fd, int n) noexcept {
    if (fd < BASE) return (int) raw(SYS_listen, fd, n);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s) return fail(EBADF);
    s->st = Sk::Listen;
    return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (fd < BASE) return (int) raw(SYS_accept, fd, (long) a, (long) l);
    sim_point();
    while (true) {
        {
            SimGuard g;
            Sk *s = sk(fd);
            if (!s) return fail(EBADF);
            if (s->st != Sk::Listen) return fail(EINVAL);
            if (!s->backlog.empty() && s->backlog.front().at <= sim_now()) {
                Sk n; n.fd = g_next++; n.node = sim_get_group(); n.st = Sk::Up; n.side = 1; n.c = s->backlog.front().c;
                s->backlog.pop_front();
                if (a && l) { sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); in.sin_port = htons(40000); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
                const int f = n.fd;
                g_sk.emplace(f, std::move(n));
                return f;
            }
            if (s->nb) return fail(EAGAIN);
        }
        waitChange();
    }
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    const int f = accept(fd, a, l);
    if (f >= BASE && (flags & SOCK_NONBLOCK)) sk(f)->nb = true;
    return f;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (fd < BASE) return (int) raw(SYS_connect, fd, (long) a, l);
    sim_point();
    while (true) {
        {
            SimGuard g;
            Sk *s = sk(fd);
            if (!s) return fail(EBADF);
            if (s->st == Sk::Up) return fail(EISCONN);
            if (s->st == Sk::Fresh) {
                const int port = ntohs(((const sockaddr_in *) a)->sin_port);
                Sk *srv = nullptr;
                for (auto &[f, o] : g_sk) if (o.st == Sk::Listen && o.port == port) srv = &o;
                s->st = Sk::Connecting; s->at = sim_now() + lat(); s->err = 0;
                s->ok = srv && !(tcpsim::cfg.refuse_ppm && sim_fault("tcp-refused", tcpsim::cfg.refuse_ppm));
                if (s->ok) { s->c = std::make_shared<Conn>(); s->side = 0; srv->backlog.push_back({ s->c, s->at }); }
                netsim::wakeAll();
                if (s->nb) return fail(EINPROGRESS);
            } else if (sim_now() < s->at) {
                if (s->nb) return fail(EALREADY);
            } else if (s->ok) { s->st = Sk::Up; return 0; }
            else { s->st = Sk::Fresh; return fail(ECONNREFUSED); }
        }
        waitChange();
    }
}
ssize_t send(int fd, const void *p, size_t n, int flags) {
    if (fd < BASE) return raw(SYS_sendto, fd, (long) p, (long) n, flags, 0, 0);
    sim_point();
    while (true) {
        {
            SimGuard g;
            Sk *s = sk(fd);
            if (!s) return fail(EBADF);
            if (s->st != Sk::Up) return fail(ENOTCONN);
            Conn &c = *s->c;
            if (s->shutWr) return fail(EPIPE);
            if (c.rstAt[s->side] && c.rstAt[s->side] <= sim_now()) { if (s->err) return fail(EPIPE); s->err = ECONNRESET; return fail(ECONNRESET); }
            if (tcpsim::cfg.reset_ppm && sim_fault("tcp-reset", tcpsim::cfg.reset_ppm)) { c.injected = true; rstNow(c); }
            if (c.closed[1 - s->side]) { if (!c.rstAt[s->side]) c.rstAt[s->side] = sim_now() + 2 * lat(); netsim::wakeAll(); return (ssize_t) n; }
            Dir &o = c.d[s->side];
            size_t room = tcpsim::cfg.buf > o.bytes ? tcpsim::cfg.buf - o.bytes : 0;
            if (room) {
                size_t k = std::min(n, room);
                if (k > 1 && tcpsim::cfg.short_ppm && sim_fault("tcp-short-write", tcpsim::cfg.short_ppm)) k = 1 + sim_choice("tcp-short-len", k);
                o.last = std::max(o.last, sim_now() + lat());
                o.q.push_back({ std::string((const char *) p, k), 0, o.last });
                o.bytes += k;
                netsim::wakeAll();
                return (ssize_t) k;
            }
            if (s->nb || (flags & MSG_DONTWAIT)) { sim_probe("tcp-full"); return fail(EAGAIN); }
        }
        waitChange();
    }
}
ssize_t recv(int fd, void *p, size_t n, int flags) {
    if (fd < BASE) return raw(SYS_recvfrom, fd, (long) p, (long) n, flags, 0, 0);
    sim_point();
    while (true) {
        {
            SimGuard g;
            Sk *s = sk(fd);
            if (!s) return fail(EBADF);
            if (s->st != Sk::Up) return fail(ENOTCONN);
            Conn &c = *s->c;
            const uint64_t now = sim_now();
            if (c.rstAt[s->side] && c.rstAt[s->side] <= now) { if (s->err) return 0; s->err = ECONNRESET; return fail(ECONNRESET); }
            Dir &in = c.d[1 - s->side];
            size_t k = 0;
            size_t lim = n;
            if (n > 1 && !in.q.empty() && in.q.front().at <= now && tcpsim::cfg.short_ppm && sim_fault("tcp-short-read", tcpsim::cfg.short_ppm)) lim = 1 + sim_choice("tcp-short-len", n);
            while (k < lim && !in.q.empty() && in.q.front().at <= now) {
                Seg &sg = in.q.front();
                const size_t m = std::min(lim - k, sg.d.size() - sg.off);
                memcpy((char *) p + k, sg.d.data() + sg.off, m);
                k += m; sg.off += m; in.bytes -= m;
                if (sg.off == sg.d.size()) in.q.pop_front();
            }
            if (k) { netsim::wakeAll(); return (ssize_t) k; }
            if (in.q.empty() && in.fin && in.finAt <= now) return 0;
            if (s->nb || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
        }
        waitChange();
    }
}
int shutdown(int fd, int how) noexcept {
    if (fd < BASE) return (int) raw(SYS_shutdown, fd, how);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s || s->st != Sk::Up) return fail(ENOTCONN);
    if (how != SHUT_RD && !s->shutWr) { s->shutWr = true; Dir &o = s->c->d[s->side]; o.fin = true; o.finAt = std::max(o.last, sim_now() + lat()); netsim::wakeAll(); }
    return 0;
}
int close(int fd) {
    if (fd < BASE) return (int) raw(SYS_close, fd);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s) sim_fail("tcp:closed-twice", "a socket is closed that is not open");
    closeSk(*s);
    g_sk.erase(fd);
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); const long arg = va_arg(ap, long); va_end(ap);
    if (fd < BASE) return (int) raw(SYS_fcntl, fd, cmd, arg);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s) return fail(EBADF);
    if (cmd == F_GETFL) return O_RDWR | (s->nb ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) s->nb = arg & O_NONBLOCK;
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); const long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) noexcept { return fd < BASE ? (int) raw(SYS_setsockopt, fd, lv, opt, (long) v, l) : 0; }
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) noexcept {
    if (fd < BASE) return (int) raw(SYS_getsockopt, fd, lv, opt, (long) v, (long) l);
    SimGuard g;
    Sk *s = sk(fd);
    if (!s) return fail(EBADF);
    int e = 0;
    if (lv == SOL_SOCKET && opt == SO_ERROR) {
        if (s->st == Sk::Connecting && !s->ok && sim_now() >= s->at) { e = ECONNREFUSED; s->st = Sk::Fresh; }
        if (s->st == Sk::Up && s->c->rstAt[s->side] && s->c->rstAt[s->side] <= sim_now() && !s->err) e = s->err = ECONNRESET;
    }
    if (v && l && *l >= sizeof e) memcpy(v, &e, sizeof e);
    return 0;
}
int poll(struct pollfd *f, nfds_t n, int timeout) {
    bool mine = false;
    for (nfds_t i = 0; i < n; i++) mine |= f[i].fd >= BASE;
    if (!mine) { if (!sim_active() || n) return (int) raw(SYS_poll, (long) f, (long) n, timeout); }
    sim_point();
    const uint64_t end = timeout < 0 ? 0 : sim_now() + (uint64_t) timeout * 1000000;
    while (true) {
        uint64_t dl;
        {
            SimGuard g;
            int ready = 0;
            for (nfds_t i = 0; i < n; i++) {
                f[i].revents = f[i].fd < 0 ? 0 : (short) (events(f[i].fd) & (f[i].events | POLLERR | POLLHUP | POLLNVAL));
                if (f[i].revents) ready++;
            }
            if (ready || (timeout >= 0 && sim_now() >= end)) return ready;
            dl = nextEv();
            if (timeout >= 0 && (!dl || end < dl)) dl = end;
        }
        netsim::waitWake(dl);
    }
}
int getaddrinfo(const char *host, const char *port, const struct addrinfo *, struct addrinfo **res) {
    SimGuard g;
    if (host && strstr(host, "nowhere")) return EAI_NONAME;
    auto *a = (addrinfo *) calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
    auto *in = (sockaddr_in *) (a + 1);
    in->sin_family = AF_INET; in->sin_addr.s_addr = htonl(INADDR_LOOPBACK); in->sin_port = htons((uint16_t) (port ? atoi(port) : 0));
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (sockaddr *) in; a->ai_addrlen = sizeof *in;
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) noexcept { free(a); }
}
