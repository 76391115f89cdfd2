// nghttp2's API over HTTP/2 frames: streams, flow control, resets, data providers; headers are encoded plainly instead of
// with HPACK.  The order of callbacks follows nghttp2 (1.6x): frame_send/stream_close from within mem_send, chunks as they
// arrive, a response to a stream that no longer exists ends in frame_not_send.
#include <nghttp2/nghttp2.h>
#include "../sim/sim.h"
#include "../sim/tcpsim.hpp"
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

struct nghttp2_rcbuf { std::string s; };
struct nghttp2_session_callbacks {
    nghttp2_on_frame_recv_callback          frame_recv = nullptr;
    nghttp2_on_frame_send_callback          frame_send = nullptr;
    nghttp2_on_frame_not_send_callback      frame_not_send = nullptr;
    nghttp2_on_invalid_frame_recv_callback  invalid = nullptr;
    nghttp2_on_data_chunk_recv_callback     chunk = nullptr;
    nghttp2_on_stream_close_callback        close = nullptr;
    nghttp2_on_begin_headers_callback       begin = nullptr;
    nghttp2_on_header_callback              header = nullptr;
    nghttp2_on_header_callback2             header2 = nullptr;
    nghttp2_error_callback2                 error = nullptr;
};
namespace {
constexpr char kMagic[] = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
constexpr size_t kMaxFrame = 16384;
struct Nv { // name and value as given: copied unless the caller promised to keep them
    std::string        n, v;
    const nghttp2_nv  *raw = nullptr;
    nghttp2_nv         keep{};
    bool               noName = false, noValue = false;
};
struct Stream {
    bool                   localClosed = false, remoteClosed = false, headersSent = false, responded = false;
    bool                   hasData = false, deferred = false, gateway = false;
    nghttp2_data_provider2 prd{};
    int64_t                sendWin = 65535;
    uint32_t               recvd = 0;
};
struct Item { uint8_t type = 0, flags = 0; int32_t id = 0; std::vector<Nv> nv; bool hasPrd = false; nghttp2_data_provider2 prd{}; uint32_t code = 0; bool cancelled = false; std::string payload; };
} // namespace
struct nghttp2_session {
    bool                       server = false, magicDone = false, dead = false;
    nghttp2_session_callbacks  cb;
    void                      *user = nullptr;
    std::map<int32_t, Stream>  streams;
    std::set<int32_t>          closedStreams;
    int32_t                    nextId = 1, lastPeer = 0, rr = 0;
    std::deque<Item>           urgent, reg, syn;
    int64_t                    sendWin = 65535;
    uint32_t                   recvd = 0;
    std::string                out;
    // input
    std::string                in;        // frame header or non-DATA payload collected so far
    bool                       inHeader = true;
    nghttp2_frame_hd           hd{};
    size_t                     left = 0;
};
namespace {
void put32(std::string &s, uint32_t v) { for (int i = 3; i >= 0; i--) s.push_back((char) (v >> (8 * i))); }
uint32_t get32(const char *p) { return (uint32_t) (uint8_t) p[0] << 24 | (uint32_t) (uint8_t) p[1] << 16 | (uint32_t) (uint8_t) p[2] << 8 | (uint8_t) p[3]; }
std::string frame(uint8_t type, uint8_t flags, int32_t id, const std::string &payload) {
    std::string s;
    s.push_back((char) (payload.size() >> 16)); s.push_back((char) (payload.size() >> 8)); s.push_back((char) payload.size());
    s.push_back((char) type); s.push_back((char) flags);
    put32(s, (uint32_t) id);
    return s + payload;
}
nghttp2_frame mk(uint8_t type, uint8_t flags, int32_t id, size_t len) { nghttp2_frame f{}; f.hd.length = len; f.hd.stream_id = id; f.hd.type = type; f.hd.flags = flags; return f; }
std::vector<Nv> take(const nghttp2_nv *nva, size_t n) {
    std::vector<Nv> r;
    for (size_t i = 0; i < n; i++) {
        Nv x; x.keep = nva[i];
        x.noName = nva[i].flags & NGHTTP2_NV_FLAG_NO_COPY_NAME; x.noValue = nva[i].flags & NGHTTP2_NV_FLAG_NO_COPY_VALUE;
        if (!x.noName) x.n.assign((const char *) nva[i].name, nva[i].namelen);
        if (!x.noValue) x.v.assign((const char *) nva[i].value, nva[i].valuelen);
        r.push_back(std::move(x));
    }
    return r;
}
std::string encode(const std::vector<Nv> &nv) {
    std::string s;
    for (auto &x : nv) {
        const std::string n = x.noName ? std::string((const char *) x.keep.name, x.keep.namelen) : x.n, v = x.noValue ? std::string((const char *) x.keep.value, x.keep.valuelen) : x.v;
        put32(s, (uint32_t) n.size()); s += n; put32(s, (uint32_t) v.size()); s += v;
    }
    return s;
}
void closeStream(nghttp2_session *s, int32_t id, uint32_t code) {
    if (!s->streams.count(id)) return;
    if (s->cb.close && !s->streams[id].gateway) s->cb.close(s, id, code, s->user);
    s->streams.erase(id);
    s->closedStreams.insert(id);
}
void maybeClosed(nghttp2_session *s, int32_t id) { auto it = s->streams.find(id); if (it != s->streams.end() && it->second.localClosed && it->second.remoteClosed) closeStream(s, id, NGHTTP2_NO_ERROR); }
bool dataReady(nghttp2_session *s, Stream &st) { return st.hasData && st.headersSent && !st.localClosed && st.sendWin > 0 && s->sendWin > 0; }
void pushRst(nghttp2_session *s, int32_t id, uint32_t code) { Item it; it.type = NGHTTP2_RST_STREAM; it.id = id; it.code = code; s->reg.push_back(std::move(it)); }
void windowUpdate(nghttp2_session *s, int32_t id, uint32_t inc) { Item it; it.type = NGHTTP2_WINDOW_UPDATE; it.id = id; put32(it.payload, inc); s->urgent.push_back(std::move(it)); }
// one frame at a time, as nghttp2_session_mem_send does
bool sendOne(nghttp2_session *s) {
    s->out.clear();
    if (!s->server && !s->magicDone) { s->magicDone = true; s->out.assign(kMagic, 24); return true; }
    while (true) {
        std::deque<Item> *q = !s->urgent.empty() ? &s->urgent : !s->reg.empty() ? &s->reg : !s->syn.empty() ? &s->syn : nullptr;
        if (!q) break;
        Item it = std::move(q->front()); q->pop_front();
        if (it.type == NGHTTP2_HEADERS) {
            auto st = s->streams.find(it.id);
            if (it.cancelled) { closeStream(s, it.id, it.code); continue; }
            nghttp2_frame f = mk(NGHTTP2_HEADERS, NGHTTP2_FLAG_END_HEADERS | (it.hasPrd ? 0 : NGHTTP2_FLAG_END_STREAM), it.id, 0);
            if (st == s->streams.end() || st->second.localClosed || (s->server && st->second.headersSent)) {
                if (s->cb.frame_not_send) s->cb.frame_not_send(s, &f, NGHTTP2_ERR_STREAM_CLOSED, s->user);
                continue;
            }
            const std::string p = encode(it.nv);
            f.hd.length = p.size();
            s->out = frame(NGHTTP2_HEADERS, f.hd.flags, it.id, p);
            st->second.headersSent = true;
            if (it.hasPrd) { st->second.hasData = true; st->second.prd = it.prd; } else st->second.localClosed = true;
            if (s->cb.frame_send && !st->second.gateway) s->cb.frame_send(s, &f, s->user);
            maybeClosed(s, it.id);
            return true;
        }
        if (it.type == NGHTTP2_RST_STREAM) {
            if (!s->streams.count(it.id)) continue;
            std::string p; put32(p, it.code);
            nghttp2_frame f = mk(NGHTTP2_RST_STREAM, 0, it.id, 4); f.rst_stream.error_code = it.code;
            s->out = frame(NGHTTP2_RST_STREAM, 0, it.id, p);
            if (s->cb.frame_send) s->cb.frame_send(s, &f, s->user);
            closeStream(s, it.id, it.code);
            return true;
        }
        if (it.type == NGHTTP2_WINDOW_UPDATE && it.id && !s->streams.count(it.id)) continue;
        nghttp2_frame f = mk(it.type, it.flags, it.id, it.payload.size());
        s->out = frame(it.type, it.flags, it.id, it.payload);
        if (s->cb.frame_send) s->cb.frame_send(s, &f, s->user);
        return true;
    }
    // DATA: streams take turns
    for (int round = 0; round < 2; round++)
        for (auto &[id, st] : s->streams) {
            if ((round == 0 && id <= s->rr) || !dataReady(s, st)) continue;
            s->rr = id;
            const size_t len = (size_t) std::min<int64_t>({ (int64_t) kMaxFrame, st.sendWin, s->sendWin });
            std::vector<uint8_t> buf(len);
            uint32_t flags = 0;
            const nghttp2_ssize n = st.prd.read_callback(s, id, buf.data(), len, &flags, &st.prd.source, s->user);
            if (n == NGHTTP2_ERR_DEFERRED) { st.hasData = false; st.deferred = true; return sendOne(s); }
            if (n == NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { st.hasData = false; pushRst(s, id, NGHTTP2_INTERNAL_ERROR); return sendOne(s); }
            if (n < 0 || (size_t) n > len) { s->dead = true; return false; }
            st.sendWin -= n; s->sendWin -= n;
            const bool eof = flags & NGHTTP2_DATA_FLAG_EOF;
            nghttp2_frame f = mk(NGHTTP2_DATA, eof ? NGHTTP2_FLAG_END_STREAM : 0, id, (size_t) n);
            s->out = frame(NGHTTP2_DATA, f.hd.flags, id, std::string((const char *) buf.data(), (size_t) n));
            if (eof) { st.localClosed = true; st.hasData = false; }
            const int32_t sid = id;
            if (s->cb.frame_send) s->cb.frame_send(s, &f, s->user);
            maybeClosed(s, sid);
            return true;
        }
    return false;
}
bool onHeaders(nghttp2_session *s, const nghttp2_frame &f, const std::string &p) {
    const int32_t id = f.hd.stream_id;
    if (s->server) {
        if (id <= s->lastPeer || id % 2 == 0) return s->closedStreams.count(id); // trailers are not used here
        s->lastPeer = id;
        s->streams[id];
        const size_t at = p.find("LongPollingIdx=");
        const bool poll = at != std::string::npos && isdigit((unsigned char) p[at + 15]);
        if (tcpsim::cfg.gateway_ppm && (poll || p.find("tok=") != std::string::npos) && (f.hd.flags & NGHTTP2_FLAG_END_STREAM) && sim_fault("gateway-timeout", tcpsim::cfg.gateway_ppm)) {
            auto &st = s->streams[id]; // the server does not get to see it
            st.gateway = st.remoteClosed = true;
            Item it;
            it.type = NGHTTP2_HEADERS;
            it.id = id;
            Nv nv;
            nv.n = ":status";
            nv.v = "504";
            it.nv.push_back(nv);
            if (poll && sim_choice("gateway-kind", 2)) { // the server itself gave up waiting
                nv.n = "x-opencmw-long-polling-idx";
                nv.v = std::to_string(atol(p.c_str() + at + 15));
                it.nv.push_back(nv);
            } else if (poll) sim_probe("poll-refused");
            s->reg.push_back(std::move(it));
            return true;
        }
    } else if (!s->streams.count(id)) return true;
    if (s->cb.begin) s->cb.begin(s, &f, s->user);
    size_t i = 0;
    auto str = [&](std::string &o) { if (i + 4 > p.size()) return false; const size_t n = get32(p.data() + i); i += 4; if (i + n > p.size()) return false; o.assign(p, i, n); i += n; return true; };
    bool ok = true;
    while (i < p.size()) {
        nghttp2_rcbuf n, v;
        if (!str(n.s) || !str(v.s)) return false;
        int r = 0;
        if (s->cb.header2) r = s->cb.header2(s, &f, &n, &v, 0, s->user);
        else if (s->cb.header) r = s->cb.header(s, &f, (const uint8_t *) n.s.data(), n.s.size(), (const uint8_t *) v.s.data(), v.s.size(), 0, s->user);
        if (r == NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { pushRst(s, id, NGHTTP2_INTERNAL_ERROR); ok = false; break; }
        if (r) return false;
    }
    if (!ok) return true;
    if (f.hd.flags & NGHTTP2_FLAG_END_STREAM) s->streams[id].remoteClosed = true;
    if (s->cb.frame_recv) { const int r = s->cb.frame_recv(s, &f, s->user); if (r && r != NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) return false; }
    maybeClosed(s, id);
    return true;
}
bool onFrame(nghttp2_session *s) { // complete non-DATA frame in s->in
    const nghttp2_frame f = mk(s->hd.type, s->hd.flags, s->hd.stream_id, s->hd.length);
    const std::string p = std::move(s->in); s->in.clear();
    switch (f.hd.type) {
    case NGHTTP2_HEADERS: return onHeaders(s, f, p);
    case NGHTTP2_RST_STREAM: {
        if (p.size() != 4) return false;
        if (!s->streams.count(f.hd.stream_id)) return true;
        nghttp2_frame g = f; g.rst_stream.error_code = get32(p.data());
        if (s->cb.frame_recv) s->cb.frame_recv(s, &g, s->user);
        closeStream(s, f.hd.stream_id, get32(p.data()));
        return true;
    }
    case NGHTTP2_WINDOW_UPDATE: {
        if (p.size() != 4) return false;
        if (!f.hd.stream_id) s->sendWin += get32(p.data());
        else if (auto it = s->streams.find(f.hd.stream_id); it != s->streams.end()) it->second.sendWin += get32(p.data());
        if (s->cb.frame_recv) s->cb.frame_recv(s, &f, s->user);
        return true;
    }
    case NGHTTP2_SETTINGS:
        if (!(f.hd.flags & NGHTTP2_FLAG_ACK)) { Item a; a.type = NGHTTP2_SETTINGS; a.flags = NGHTTP2_FLAG_ACK; s->urgent.push_back(std::move(a)); }
        [[fallthrough]];
    default:
        if (s->cb.frame_recv) s->cb.frame_recv(s, &f, s->user);
        return true;
    }
}
void consumed(nghttp2_session *s, int32_t id, uint32_t n) {
    if ((s->recvd += n) >= 32768) { windowUpdate(s, 0, s->recvd); s->recvd = 0; }
    auto it = s->streams.find(id);
    if (it != s->streams.end() && (it->second.recvd += n) >= 32768) { windowUpdate(s, id, it->second.recvd); it->second.recvd = 0; }
}
} // namespace
nghttp2_vec nghttp2_rcbuf_get_buf(nghttp2_rcbuf *b) { return { (uint8_t *) b->s.data(), b->s.size() }; }
int  nghttp2_session_callbacks_new(nghttp2_session_callbacks **p) { *p = new nghttp2_session_callbacks; return 0; }
void nghttp2_session_callbacks_del(nghttp2_session_callbacks *p) { delete p; }
#define SET(name, type, member) void nghttp2_session_callbacks_set_##name(nghttp2_session_callbacks *c, type f) { c->member = f; }
SET(on_frame_recv_callback, nghttp2_on_frame_recv_callback, frame_recv)
SET(on_frame_send_callback, nghttp2_on_frame_send_callback, frame_send)
SET(on_frame_not_send_callback, nghttp2_on_frame_not_send_callback, frame_not_send)
SET(on_invalid_frame_recv_callback, nghttp2_on_invalid_frame_recv_callback, invalid)
SET(on_data_chunk_recv_callback, nghttp2_on_data_chunk_recv_callback, chunk)
SET(on_stream_close_callback, nghttp2_on_stream_close_callback, close)
SET(on_begin_headers_callback, nghttp2_on_begin_headers_callback, begin)
SET(on_header_callback, nghttp2_on_header_callback, header)
SET(on_header_callback2, nghttp2_on_header_callback2, header2)
SET(error_callback2, nghttp2_error_callback2, error)
void nghttp2_session_callbacks_set_send_callback2(nghttp2_session_callbacks *, nghttp2_send_callback2) {}
static int mkSession(nghttp2_session **s, const nghttp2_session_callbacks *c, void *u, bool server) { *s = new nghttp2_session; (*s)->cb = *c; (*s)->user = u; (*s)->server = server; (*s)->magicDone = false; return 0; }
int  nghttp2_session_server_new(nghttp2_session **s, const nghttp2_session_callbacks *c, void *u) { return mkSession(s, c, u, true); }
int  nghttp2_session_client_new(nghttp2_session **s, const nghttp2_session_callbacks *c, void *u) { return mkSession(s, c, u, false); }
void nghttp2_session_del(nghttp2_session *s) {
    if (!s) return;
    delete s;
}
int  nghttp2_session_want_read(nghttp2_session *s) { return !s->dead; }
int  nghttp2_session_want_write(nghttp2_session *s) {
    if (s->dead) return 0;
    if ((!s->server && !s->magicDone) || !s->urgent.empty() || !s->reg.empty() || !s->syn.empty()) return 1;
    for (auto &[id, st] : s->streams) if (dataReady(s, st)) return 1;
    return 0;
}
nghttp2_ssize nghttp2_session_mem_send2(nghttp2_session *s, const uint8_t **p) {
    if (s->dead) return NGHTTP2_ERR_CALLBACK_FAILURE;
    if (!sendOne(s)) return s->dead ? (nghttp2_ssize) NGHTTP2_ERR_CALLBACK_FAILURE : 0;
    *p = (const uint8_t *) s->out.data();
    return (nghttp2_ssize) s->out.size();
}
nghttp2_ssize nghttp2_session_mem_recv2(nghttp2_session *s, const uint8_t *data, size_t n) {
    size_t i = 0;
    if (n > (size_t) 1 << 30) sim_fail("h2:bad-length", "nghttp2_session_mem_recv2 is given %zd bytes: it would read beyond the buffer", (ssize_t) n);
    if (s->dead) return NGHTTP2_ERR_CALLBACK_FAILURE;
    if (s->server && !s->magicDone) {
        while (i < n && s->in.size() < 24) {
            s->in.push_back((char) data[i++]);
            if (s->in.back() != kMagic[s->in.size() - 1]) { s->dead = true; return NGHTTP2_ERR_BAD_CLIENT_MAGIC; }
        }
        if (s->in.size() < 24) return (nghttp2_ssize) n;
        s->in.clear(); s->magicDone = true;
    }
    while (i < n || (!s->inHeader && s->left == 0)) {
        if (s->inHeader) {
            while (i < n && s->in.size() < 9) s->in.push_back((char) data[i++]);
            if (s->in.size() < 9) break;
            const auto *h = (const uint8_t *) s->in.data();
            s->hd = {};
            s->hd.length = (size_t) h[0] << 16 | (size_t) h[1] << 8 | h[2];
            s->hd.type = h[3]; s->hd.flags = h[4]; s->hd.stream_id = (int32_t) (get32(s->in.data() + 5) & 0x7fffffff);
            s->in.clear(); s->inHeader = false; s->left = s->hd.length;
            if (s->left > kMaxFrame * 4) { s->dead = true; return NGHTTP2_ERR_PROTO; }
        }
        const size_t m = std::min(n - i, s->left);
        if (s->hd.type == NGHTTP2_DATA) {
            auto it = s->streams.find(s->hd.stream_id);
            const bool live = it != s->streams.end() && !it->second.remoteClosed;
            if (m && live && s->cb.chunk) {
                const int r = s->cb.chunk(s, s->hd.flags, s->hd.stream_id, data + i, m, s->user);
                if (r && r != NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { s->dead = true; return NGHTTP2_ERR_CALLBACK_FAILURE; }
            }
            consumed(s, s->hd.stream_id, (uint32_t) m);
            i += m; s->left -= m;
            if (s->left == 0) {
                s->inHeader = true;
                const int32_t id = s->hd.stream_id;
                if (live && s->streams.count(id)) {
                    const nghttp2_frame f = mk(NGHTTP2_DATA, s->hd.flags, id, s->hd.length);
                    if (f.hd.flags & NGHTTP2_FLAG_END_STREAM) s->streams[id].remoteClosed = true;
                    if (s->cb.frame_recv) { const int r = s->cb.frame_recv(s, &f, s->user); if (r && r != NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { s->dead = true; return NGHTTP2_ERR_CALLBACK_FAILURE; } }
                    maybeClosed(s, id);
                }
            }
            continue;
        }
        s->in.append((const char *) data + i, m);
        i += m; s->left -= m;
        if (s->left == 0) {
            s->inHeader = true;
            if (!onFrame(s)) { s->dead = true; return NGHTTP2_ERR_PROTO; }
        }
    }
    return (nghttp2_ssize) n;
}
int nghttp2_submit_settings(nghttp2_session *s, uint8_t, const nghttp2_settings_entry *e, size_t n) {
    Item it; it.type = NGHTTP2_SETTINGS;
    for (size_t i = 0; i < n; i++) { it.payload.push_back((char) (e[i].settings_id >> 8)); it.payload.push_back((char) e[i].settings_id); put32(it.payload, e[i].value); }
    s->urgent.push_back(std::move(it));
    return 0;
}
int nghttp2_submit_rst_stream(nghttp2_session *s, uint8_t, int32_t id, uint32_t code) {
    if (!s->streams.count(id)) return 0;
    for (auto &it : s->syn) // not sent yet: the request is dropped when its turn comes
        if (it.id == id) { it.code = code; it.cancelled = true; return 0; }
    pushRst(s, id, code);
    return 0;
}
int nghttp2_submit_response2(nghttp2_session *s, int32_t id, const nghttp2_nv *nva, size_t n, const nghttp2_data_provider2 *prd) {
    if (id <= 0) return NGHTTP2_ERR_INVALID_ARGUMENT;
    Item it; it.type = NGHTTP2_HEADERS; it.id = id; it.nv = take(nva, n);
    if (prd && prd->read_callback) { it.hasPrd = true; it.prd = *prd; }
    s->reg.push_back(std::move(it));
    return 0;
}
int32_t nghttp2_submit_request2(nghttp2_session *s, const nghttp2_priority_spec *, const nghttp2_nv *nva, size_t n, const nghttp2_data_provider2 *prd, void *) {
    const int32_t id = s->nextId; s->nextId += 2;
    s->streams[id];
    Item it; it.type = NGHTTP2_HEADERS; it.id = id; it.nv = take(nva, n);
    if (prd && prd->read_callback) { it.hasPrd = true; it.prd = *prd; }
    s->syn.push_back(std::move(it));
    return id;
}
const char *nghttp2_strerror(int) { return "nghttp2 error"; }
int nghttp2_session_resume_data(nghttp2_session *s, int32_t id) { auto it = s->streams.find(id); if (it == s->streams.end() || !it->second.deferred) return NGHTTP2_ERR_INVALID_ARGUMENT; it->second.deferred = false; it->second.hasData = true; return 0; }
