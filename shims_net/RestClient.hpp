// HTTP client: not available here (nghttp2, OpenSSL); only what services/dns.hpp needs to compile
#pragma once
#include <ClientCommon.hpp>
#include <MIME.hpp>
namespace opencmw::client {
struct RestClient {
    template<typename... A> RestClient(A &&...) {}
    mdp::Message blockingRequest(Command) { return {}; }
};
} // namespace opencmw::client
