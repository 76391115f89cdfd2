// An HTTP/2 client of the harness (not the repository's).
#pragma once
#include "net_common.hpp"
#include "../sim/tcpsim.hpp"
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
namespace net {
using Hdrs = std::vector<std::pair<std::string, std::string>>;
struct H2 {
    struct Body { std::string d; size_t off = 0, avail = 0; bool wait = false; };
    struct Resp { std::map<std::string, std::string> h; std::string body; bool end = false, reset = false, cancelled = false; int headers = 0; std::unique_ptr<Body> up; uint64_t at = 0; };
    int fd = -1;
    nghttp2_session *s = nullptr;
    std::map<int32_t, Resp> r;
    std::string out;
    bool gone = false, fault = false;
    uint64_t rate = 0; // bytes read per pump (0: all)
    ~H2() { drop(); }
    void drop() { if (fd >= 0) ::close(fd); fd = -1; if (s) nghttp2_session_del(s); s = nullptr; out.clear(); gone = false; fault = false; }
    bool connect(int port) {
        drop();
        r.clear();
        fd = ::socket(AF_INET, SOCK_STREAM, 0);
        ::fcntl(fd, F_SETFL, O_NONBLOCK);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port);
        if (::connect(fd, (sockaddr *) &a, sizeof a) < 0) {
            pollfd p{ fd, POLLOUT, 0 };
            ::poll(&p, 1, -1);
            if (::connect(fd, (sockaddr *) &a, sizeof a) < 0) { ::close(fd); fd = -1; return false; }
        }
        nghttp2_session_callbacks *cb;
        nghttp2_session_callbacks_new(&cb);
        nghttp2_session_callbacks_set_on_header_callback(cb, [](nghttp2_session *, const nghttp2_frame *f, const uint8_t *n, size_t nl, const uint8_t *v, size_t vl, uint8_t, void *u) { auto &x = ((H2 *) u)->r[f->hd.stream_id]; x.h[std::string((const char *) n, nl)] = std::string((const char *) v, vl); return 0; });
        nghttp2_session_callbacks_set_on_data_chunk_recv_callback(cb, [](nghttp2_session *, uint8_t, int32_t id, const uint8_t *d, size_t n, void *u) { ((H2 *) u)->r[id].body.append((const char *) d, n); return 0; });
        nghttp2_session_callbacks_set_on_frame_recv_callback(cb, [](nghttp2_session *, const nghttp2_frame *f, void *u) {
            auto *c = (H2 *) u;
            if (f->hd.type == NGHTTP2_HEADERS) c->r[f->hd.stream_id].headers++;
            if ((f->hd.type == NGHTTP2_HEADERS || f->hd.type == NGHTTP2_DATA) && (f->hd.flags & NGHTTP2_FLAG_END_STREAM)) c->r[f->hd.stream_id].end = true;
            return 0;
        });
        nghttp2_session_callbacks_set_on_stream_close_callback(cb, [](nghttp2_session *, int32_t id, uint32_t, void *u) { auto &x = ((H2 *) u)->r[id]; if (!x.end) x.reset = true; return 0; });
        nghttp2_session_client_new(&s, cb, this);
        nghttp2_session_callbacks_del(cb);
        nghttp2_submit_settings(s, 0, nullptr, 0);
        return true;
    }
    int32_t submit(const std::string &method, const std::string &path, const Hdrs &extra = {}, std::unique_ptr<Body> b = nullptr) {
        std::vector<nghttp2_nv> nv;
        auto add = [&](const std::string &n, const std::string &v) { nv.push_back({ (uint8_t *) n.data(), (uint8_t *) v.data(), n.size(), v.size(), 0 }); };
        const std::string a = ":method", c = ":path", d = ":scheme", e = ":authority", f = "http", g = "localhost";
        add(a, method); add(c, path); add(d, f); add(e, g);
        for (auto &[n, v] : extra) add(n, v);
        nghttp2_data_provider2 prd{};
        if (b) {
            prd.source.ptr = b.get();
            prd.read_callback = [](nghttp2_session *, int32_t, uint8_t *p, size_t n, uint32_t *fl, nghttp2_data_source *src, void *) -> nghttp2_ssize {
                auto *x = (Body *) src->ptr;
                const size_t k = std::min(n, x->avail - x->off);
                if (!k && x->off < x->d.size()) { x->wait = true; return NGHTTP2_ERR_DEFERRED; }
                memcpy(p, x->d.data() + x->off, k);
                x->off += k;
                if (x->off == x->d.size()) *fl |= NGHTTP2_DATA_FLAG_EOF;
                return (nghttp2_ssize) k;
            };
        }
        const int32_t id = nghttp2_submit_request2(s, nullptr, nv.data(), nv.size(), b ? &prd : nullptr, nullptr);
        r[id].up = std::move(b);
        r[id].at = sim_now();
        return id;
    }
    void feed(int32_t id, size_t n) { auto *b = r[id].up.get(); if (!b) return; b->avail = std::min(b->d.size(), b->avail + n); if (b->wait) { b->wait = false; nghttp2_session_resume_data(s, id); } }
    void cancel(int32_t id) { r[id].cancelled = true; nghttp2_submit_rst_stream(s, 0, id, NGHTTP2_CANCEL); }
    void lost() { fault = tcpsim::faulted(fd); gone = true; }
    // one round of input and output; false: the connection is gone
    bool pump(int ms) {
        if (gone) return false;
        while (out.size() < 8192 && nghttp2_session_want_write(s)) { const uint8_t *p; const auto n = nghttp2_session_mem_send2(s, &p); if (n <= 0) break; out.append((const char *) p, (size_t) n); }
        pollfd p{ fd, (short) (POLLIN | (out.empty() ? 0 : POLLOUT)), 0 };
        ::poll(&p, 1, ms);
        if (p.revents & POLLOUT && !out.empty()) {
            const ssize_t n = ::send(fd, out.data(), out.size(), 0);
            if (n < 0 && errno != EAGAIN) { lost(); return false; }
            if (n > 0) out.erase(0, (size_t) n);
        }
        if (p.revents & POLLIN) {
            uint64_t got = 0;
            for (;;) {
                char b[3000];
                const ssize_t n = ::recv(fd, b, sizeof b, 0);
                if (n == 0) { lost(); return false; }
                if (n < 0) { if (errno == EAGAIN) break; lost(); return false; }
                SIM_CHECK(nghttp2_session_mem_recv2(s, (const uint8_t *) b, (size_t) n) == n, "malformed-http", "the server sends bytes which are not HTTP/2");
                got += (uint64_t) n;
                if (rate && got >= rate) break;
            }
        } else if (p.revents & (POLLERR | POLLHUP)) { lost(); return false; }
        return true;
    }
};
} // namespace net
