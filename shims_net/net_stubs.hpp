// Stand-ins for the parts of opencmw-cpp that need libraries absent here (nghttp2/3, OpenSSL, ngtcp2, mustache).
// Included before any majordomo header: the include guards below keep the originals out.
#pragma once
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP
#define OPENCMW_MUSTACHESERIALISER_H
#include <IoBuffer.hpp>
#include <MdpMessage.hpp>
#include <MIME.hpp>
#include <TimingCtx.hpp>
#include <Topic.hpp>
#include <opencmw.hpp>
#include <IoSerialiserJson.hpp>
#include <majordomo/Rest.hpp>
#include <cmrc/cmrc.hpp>
#include <algorithm>
#include <deque>
#include <expected>
#include <functional>
#include <map>
#include <mutex>
#include <print>
#include <ranges>
#include <string>
#include <vector>
#include <zmq.h>
#include "../sim/sim.h"
CMRC_DECLARE(assets);
namespace opencmw::rest::detail { inline void setupIgnoreSigpipe() {} }
namespace opencmw::mustache {
template<typename... A>
inline void serialise(const cmrc::embedded_filesystem &, const std::string &name, std::ostream &os, A &&...) { os << "<html>" << name << "</html>"; }
} // namespace opencmw::mustache
namespace opencmw::majordomo::detail::rest {
using Msg9 = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
// HTTP front end without HTTP: a scenario queues requests and sees the responses and notifications the broker hands over.
struct RestPeer {
    std::deque<Msg9>                                      incoming;
    std::function<void(Msg9 &&)>                          onResponse;
    std::function<void(const mdp::Topic &, Msg9 &&)>      onNotification;
    int                                                   fd = 0;
};
inline RestPeer *&restPeer() { static RestPeer *p = nullptr; return p; }
struct RestServer {
    static std::expected<RestServer, std::string> sslWithPaths(auto &&, auto &&) { return RestServer{}; }
    static std::expected<RestServer, std::string> sslWithBuffers(auto &&, auto &&) { return RestServer{}; }
    static std::expected<RestServer, std::string> unencrypted() { return RestServer{}; }
    void setHandlers(auto &&) {}
    std::expected<void, std::string> bind(const majordomo::rest::Settings &) { return {}; }
    void populatePollerItems(std::vector<zmq_pollitem_t> &items) { if (restPeer()) items.push_back({ .socket = nullptr, .fd = restPeer()->fd, .events = ZMQ_POLLIN, .revents = 0 }); }
    std::vector<Msg9> processReadWrite(int, bool, bool) {
        std::vector<Msg9> r;
        SimGuard g;
        while (!restPeer()->incoming.empty()) { r.push_back(std::move(restPeer()->incoming.front())); restPeer()->incoming.pop_front(); }
        return r;
    }
    void handleResponse(Msg9 &&m) { SimGuard g; if (restPeer() && restPeer()->onResponse) restPeer()->onResponse(std::move(m)); }
    void handleNotification(const mdp::Topic &t, Msg9 &&m) { SimGuard g; if (restPeer() && restPeer()->onNotification) restPeer()->onNotification(t, std::move(m)); }
};
} // namespace opencmw::majordomo::detail::rest
