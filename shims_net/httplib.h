// stand-in for cpp-httplib: a server's handlers run on the threads of whoever calls serve() (the real one has a pool of
// threads), requests of clients are answered by a function of the scenario
#pragma once
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <vector>
namespace httplib {
using Params = std::multimap<std::string, std::string>;
using Headers = std::multimap<std::string, std::string>;
struct Request { std::string method, path; Params params; Headers headers; bool has_param(const std::string &k) const { return params.count(k) > 0; } std::string get_param_value(const std::string &k) const { auto it = params.find(k); return it == params.end() ? "" : it->second; } };
struct Response {
    int status = 200;
    std::string body, type;
    Headers headers;
    void set_content(const std::string &b, const std::string &t) { body = b; type = t; }
};
class Result {
    bool _ok = false;
    Response _r;
public:
    Result() = default;
    explicit Result(Response r) : _ok(true), _r(std::move(r)) {}
    explicit operator bool() const { return _ok; }
    bool operator==(std::nullptr_t) const { return !_ok; }
    Response *operator->() { return &_r; }
    const Response *operator->() const { return &_r; }
    Response &operator*() { return _r; }
    const Response &operator*() const { return _r; }
    Response &value() { return _r; }
};
struct Hub { // what is reachable
    std::mutex m;
    std::map<int, class Server *> servers;
    std::function<Result(const std::string &base, const Request &)> outside;
    static Hub &get() { static Hub h; return h; }
};
class Server {
public:
    using Handler = std::function<void(const Request &, Response &)>;
    Server &Get(const std::string &p, Handler h) { _get[p] = std::move(h); return *this; }
    Server &Post(const std::string &p, Handler h) { _post[p] = std::move(h); return *this; }
    bool listen(const std::string &, int port) {
        auto &hub = Hub::get();
        { std::lock_guard l(hub.m); if (hub.servers.count(port)) return false; hub.servers[port] = this; }
        std::unique_lock l(_m);
        _running = true;
        _cv.notify_all();
        _cv.wait(l, [&] { return _stop; });
        { std::lock_guard k(hub.m); hub.servers.erase(port); }
        _cv.wait(l, [&] { return _busy == 0; });
        _running = false;
        return true;
    }
    void stop() {
        std::lock_guard l(_m);
        if (!_running) return;
        _stop = true;
        _cv.notify_all();
    }
    bool is_running() const { return _running; }
    // a request from outside
    static Result serve(int port, Request q) {
        Server *s;
        auto &hub = Hub::get();
        {
            std::lock_guard l(hub.m);
            auto it = hub.servers.find(port);
            if (it == hub.servers.end()) return {};
            s = it->second;
            std::lock_guard k(s->_m);
            s->_busy++;
        }
        Response r;
        auto &t = q.method == "POST" ? s->_post : s->_get;
        auto it = t.find(q.path);
        if (it == t.end()) r.status = 404;
        else {
            try { it->second(q, r); }
            catch (...) { r = Response{}; r.status = 500; } // as the real server does
        }
        std::lock_guard k(s->_m);
        s->_busy--;
        s->_cv.notify_all();
        return Result(r);
    }
private:
    std::map<std::string, Handler> _get, _post;
    std::mutex _m;
    std::condition_variable _cv;
    bool _running = false, _stop = false;
    int _busy = 0;
};
class Client {
    std::string _base;
public:
    explicit Client(std::string base) : _base(std::move(base)) {}
    Client(Client &&) = default;
    Result go(Request q) { return Hub::get().outside ? Hub::get().outside(_base, q) : Result{}; }
    Result Get(const std::string &p) { return go({ "GET", p, {}, {} }); }
    Result Get(const std::string &p, const Headers &h) { return go({ "GET", p, {}, h }); }
    Result Post(const std::string &p, const Params &a) { return go({ "POST", p, a, {} }); }
    Result Post(const std::string &p, const Headers &h, const Params &a) { return go({ "POST", p, a, h }); }
};
} // namespace httplib
