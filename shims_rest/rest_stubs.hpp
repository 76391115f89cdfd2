// Before any majordomo header: keeps the TLS session of HTTP/3 and the HTML templates out; everything else of the REST server is real.
#pragma once
#define OPENCMW_MUSTACHESERIALISER_H
#define TLS_SERVER_SESSION_OSSL_H
#include <IoBuffer.hpp>
#include <IoSerialiserJson.hpp>
#include <MdpMessage.hpp>
#include <MIME.hpp>
#include <TimingCtx.hpp>
#include <Topic.hpp>
#include <cmrc/cmrc.hpp>
#include <functional>
#include <map>
#include <opencmw.hpp>
#include <print>
#include <string>
#include <vector>
#include "../sim/sim.h"
CMRC_DECLARE(assets);
namespace opencmw::mustache {
template<typename... A>
inline void serialise(const cmrc::embedded_filesystem &, const std::string &name, std::ostream &os, A &&...) { os << "<html>" << name << "</html>"; }
} // namespace opencmw::mustache
#include <majordomo/NgTcp2Util.hpp>
namespace opencmw::majordomo::detail::rest {
struct TLSServerContext { template<typename... A> int init(A &&...) { return -1; } };
struct TLSServerSession { template<typename... A> int init(A &&...) { return -1; } void enable_keylog() {} void *get_native_handle() { return nullptr; } int send_session_ticket() { return -1; } };
} // namespace opencmw::majordomo::detail::rest
