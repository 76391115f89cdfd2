// Helpers for the network scenarios: protocol-level clients and workers over the simulated ZeroMQ.
#pragma once
#include "../sim/simxx.hpp"
#include "../sim/netsim.hpp"
#ifdef NET_REAL_REST
#include "../shims_rest/rest_stubs.hpp"
#else
#include "net_stubs.hpp"
#endif
#include <majordomo/Broker.hpp>
#include <majordomo/Worker.hpp>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>
namespace net {
using namespace opencmw;
using namespace opencmw::majordomo;
using mdp::Command;
using Role1 = Role<"BOSS", Permission::RW>;
using Role2 = Role<"VIEW", Permission::RO>;
using Role3 = Role<"PUSH", Permission::WO>;
constexpr uint64_t MS = 1000000ull;
inline IoBuffer buf(const std::string &s) { return IoBuffer(s.data(), s.size()); }
inline std::string str(const IoBuffer &b) { return std::string(b.asString()); }

// a peer with one socket in its own context (its own process as far as the network is concerned)
struct Peer {
    zmq::Context ctx;
    std::optional<zmq::Socket> s;
    int type;
    explicit Peer(int t = ZMQ_DEALER) : type(t) {}
    void open() { s.emplace(ctx, type); zmq::initializeSocket(*s, mdp::Settings{}).assertSuccess(); }
    bool connect(const std::string &ep) { if (!s) open(); return zmq::invoke(zmq_connect, *s, ep.data()).isValid(); }
    bool wait(uint64_t ms) {
        zmq_pollitem_t it{ .socket = s->zmq_ptr, .fd = 0, .events = ZMQ_POLLIN, .revents = 0 };
        return zmq_poll(&it, 1, (long) ms) > 0;
    }
    template<mdp::MessageFormat F = mdp::MessageFormat::WithoutSourceId>
    std::optional<mdp::BasicMessage<F>> recv(uint64_t ms) {
        if (auto m = zmq::receive<F>(*s)) return m;
        if (ms && wait(ms)) return zmq::receive<F>(*s);
        return {};
    }
    void send(mdp::Message &&m) { zmq::send(std::move(m), *s).assertSuccess(); }
    void raw(const std::vector<std::string> &frames) {
        for (size_t i = 0; i < frames.size(); i++) {
            zmq::MessageFrame f{ std::string(frames[i]) };
            (void) f.send(*s, ZMQ_DONTWAIT | (i + 1 < frames.size() ? ZMQ_SNDMORE : 0)).isValid();
        }
    }
    void sub(const std::string &t) { zmq::invoke(zmq_setsockopt, *s, ZMQ_SUBSCRIBE, t.data(), t.size()).assertSuccess(); }
    void unsub(const std::string &t) { zmq::invoke(zmq_setsockopt, *s, ZMQ_UNSUBSCRIBE, t.data(), t.size()).assertSuccess(); }
};
inline mdp::Message clientMsg(Command c, const std::string &service, const std::string &rid, const std::string &topic, const std::string &data, const std::string &role) {
    mdp::Message m;
    m.protocolName = mdp::clientProtocol;
    m.command = c;
    m.serviceName = service;
    m.clientRequestID = buf(rid);
    m.topic = mdp::Message::URI(topic);
    m.data = buf(data);
    if (!role.empty()) m.rbac = buf("RBAC=" + role + ",123456abcdef");
    return m;
}
inline mdp::Message workerMsg(Command c, const std::string &service) {
    mdp::Message m;
    m.protocolName = mdp::workerProtocol;
    m.command = c;
    m.serviceName = service;
    return m;
}
} // namespace net
