# Which harness binaries exist and which scenarios decide which property.
BINS = {
    "ring": dict(src=["ring_main.cpp"] + [("ring.cpp", "PART=%d" % i) for i in range(6)]),
    "dag": dict(src=["dag_main.cpp"] + [("dag.cpp", "PART=%d" % i) for i in range(6)]),
    "core": dict(src=["core_main.cpp", "core.cpp", "tpool.cpp"]),
    "sett": dict(src=["settings_main.cpp", "bset.cpp", "txn.cpp", "ctxset.cpp"]),
    "net": dict(net=1, src=["net_main.cpp", "simzmq.cpp", "brk.cpp", "typed.cpp", "brksub.cpp", "brkdns.cpp", "brkmmi.cpp", "cli.cpp"]),
    "svc": dict(net=1, src=["net_main.cpp", "simzmq.cpp", "simfs.cpp", "svc.cpp"]),
    "rest": dict(net=1, flags=["-IVERIF/shims_rest", "-DNET_REAL_REST"], src=["net_main.cpp", "simzmq.cpp", "simtcp.cpp", "simh2.cpp", "rest.cpp"]),
    "oauth": dict(net=1, src=["net_main.cpp", "simzmq.cpp", "oauth.cpp"]),
    # development only (not used by a check): upstream's tests over the simulated ZeroMQ
    "fidelity": dict(net=1, src=["net_main.cpp", "simzmq.cpp", ("fidelity.cpp", 'FIDELITY_TEST="REPO/src/majordomo/test/majordomo_tests.cpp"')],
                     flags=["-I/opt/vp/cmake/catch2_compat", "-IREPO"], link=["-lCatch2"]),
}
ASSUME = ["interleavings are explored at scheduling points (every atomic operation, every synchronisation call, and in about a third of the runs every plain memory access) under sequential consistency"]

THREADS = "threads, mutexes, condition variables, futexes, clocks, sleeps and malloc: simulator (sim/rt.cpp); the C++ standard library above them is real"
DISRUPTOR = ["src/disruptor/include/disruptor/*.hpp", "src/core/include/SpinWait.hpp"]
PROPS = {
    "D01": dict(scenarios=[("ring", "ring_once", 1)], real=DISRUPTOR, stub=[THREADS], must_probe=["slot-reused", "batch-claim"]),
    "D02": dict(scenarios=[("ring", "ring_once", 3), ("dag", "ring_dyn", 1)], real=DISRUPTOR, stub=[THREADS], must_probe=["slot-reused", "try-no-capacity", "capacity-query"]),
    "D03": dict(scenarios=[("dag", "dag", 1)], real=DISRUPTOR, stub=[THREADS]),
    "D04": dict(scenarios=[("ring", "ring_once", 2), ("dag", "dag", 1)], real=DISRUPTOR, stub=[THREADS], must_probe=["wait-timeout-callback"]),
    "D05": dict(scenarios=[("dag", "wpool", 1)], real=DISRUPTOR, stub=[THREADS]),
    "D06": dict(scenarios=[("ring", "ring_halt", 2), ("dag", "dag", 1)], real=DISRUPTOR, stub=[THREADS], must_probe=["halt-restart"]),
    "D07": dict(scenarios=[("ring", "ring_throw", 1), ("dag", "dag_throw", 1)], real=DISRUPTOR, stub=[THREADS], must_probe=["handler-threw"]),
    "D08": dict(scenarios=[("dag", "ring_dyn", 1)], real=DISRUPTOR, stub=[THREADS]),
    "D09": dict(scenarios=[("core", "bqueue", 1), ("core", "rrsched", 1)], real=["src/disruptor/include/disruptor/BlockingQueue.hpp", "src/disruptor/include/disruptor/RoundRobinThreadAffinedTaskScheduler.hpp"], stub=[THREADS]),
    "C01": dict(scenarios=[("core", "tpool", 3), ("core", "tpool_nested", 1), ("core", "tpool_stop", 1)], real=["src/core/include/ThreadPool.hpp", "src/core/include/ThreadAffinity.hpp"], stub=[THREADS]),
    "C02": dict(scenarios=[("core", "tpool_prio", 1), ("core", "tpool", 1)], real=["src/core/include/ThreadPool.hpp", "src/core/include/ThreadAffinity.hpp"], stub=[THREADS]),
    "C03": dict(scenarios=[("core", "tpool_stop", 2), ("core", "tpool", 1)], real=["src/core/include/ThreadPool.hpp", "src/core/include/ThreadAffinity.hpp"], stub=[THREADS]),
    "C04": dict(scenarios=[("core", "rwlock", 1)], real=["src/core/include/ReaderWriterLock.hpp"], stub=[THREADS]),
    "C05": dict(scenarios=[("core", "amutex", 1), ("core", "spin_until", 1)], real=["src/core/include/SpinWait.hpp"], stub=[THREADS]),
    "S01": dict(scenarios=[("sett", "bset_nrt", 1), ("sett", "bset_rmw", 1), ("sett", "bset_rt", 1), ("sett", "bset_waitfree", 1)], real=["src/disruptor/include/BasicSetting.hpp"], stub=[THREADS]),
    "S02": dict(scenarios=[("sett", "txn", 1)], real=["src/disruptor/include/Transactions.hpp", "src/disruptor/include/disruptor/*.hpp"], stub=[THREADS, "refl-cpp and mp-units: small header shims (shims/)"]),
    "S03": dict(scenarios=[("sett", "txn_hist", 1), ("sett", "txn", 1)], real=["src/disruptor/include/Transactions.hpp"], stub=[THREADS, "refl-cpp and mp-units: small header shims (shims/)"]),
    "S04": dict(scenarios=[("sett", "ctxset", 1)], real=["src/disruptor/include/Transactions.hpp", "src/core/include/TimingCtx.hpp"], stub=[THREADS, "refl-cpp and mp-units: small header shims (shims/)"]),
}
ZMQ = ["libzmq: simulated (sim/netsim.hpp, scen/simzmq.cpp): in-process and TCP sockets, queues, reconnects, subscriptions, polling", "HTTP server of the broker (RestServer.hpp and nghttp2/3, OpenSSL, mustache, cmrc): stubs (shims_net/)", "refl-cpp and mp-units: small header shims (shims/)"]
MDP = ["src/majordomo/include/majordomo/{Broker,Worker,Rbac,SubscriptionMatcher,Settings}.hpp", "src/core/include/{MdpMessage,Topic,URI,MIME,IoBuffer}.hpp", "src/zmq/include/zmq/ZmqUtils.hpp"]
CLI = MDP + ["src/client/include/{ClientContext,ClientCommon,Client}.hpp", "src/disruptor/include/disruptor/*.hpp"]
for i, sc, real in [("B01", "brk_req", MDP), ("B02", "brk_prio", MDP), ("B03", "brk_sub", MDP), ("B04", "brk_churn", MDP), ("B05", "brk_recover", MDP), ("B06", "brk_hostile", MDP), ("B07", "brk_dns", MDP), ("L01", "cli_req", CLI), ("L02", "cli_sub", CLI)]:
    PROPS[i] = dict(scenarios=[("net", sc, 1)], real=real, stub=[THREADS] + ZMQ)
DNS = CLI + ["src/services/include/services/{dns,dns_client,dns_storage,dns_types}.hpp", "src/serialiser/include/{IoSerialiser,IoSerialiserYaS,QuerySerialiser}.hpp"]
DISK = "disk: simulated (sim/simfs.hpp, scen/simfs.cpp): files in memory; crashes between and within steps, full disk, short writes, failing opens; the C++ file streams above it are real"
PROPS["V01"] = dict(scenarios=[("svc", "svc_dir", 2), ("svc", "svc_store", 1)], real=DNS, stub=[THREADS, DISK] + ZMQ, must_probe=["reloaded", "restarted", "several-found", "malformed"])
PROPS["V02"] = dict(scenarios=[("svc", "svc_store", 1)], real=["src/services/include/services/{dns_storage,dns_types}.hpp", "src/serialiser/include/{IoSerialiser,IoSerialiserYaS}.hpp"], stub=[THREADS, DISK], must_probe=["disk-crash", "disk-full", "open-fails", "reloaded"])
PROPS["B01"]["scenarios"] = [("net", "brk_req", 3), ("net", "brk_prio", 1)]
PROPS["B04"]["scenarios"] = [("net", "brk_churn", 3), ("net", "brk_resub", 1)]
PROPS["B08"] = dict(scenarios=[("net", "brk_typed", 1)], real=MDP + ["src/serialiser/include/{IoSerialiser,IoSerialiserYaS,IoSerialiserJson,IoSerialiserCmwLight,QuerySerialiser}.hpp", "src/core/include/{Filters,TimingCtx}.hpp"], stub=[THREADS] + ZMQ, must_probe=["notified"])
PROPS["B09"] = dict(scenarios=[("net", "brk_mmi", 1)], real=MDP, stub=[THREADS] + ZMQ, must_probe=["described", "not-yet", "worker-left", "listened"])
PROPS["V03"] = dict(scenarios=[("oauth", "svc_oauth", 1)], real=MDP + ["src/services/include/services/{OAuthClient,KeyStore}.hpp", "src/serialiser/include/{IoSerialiser,IoSerialiserYaS,IoSerialiserJson,QuerySerialiser}.hpp"], stub=[THREADS] + ZMQ + ["cpp-httplib: server handlers run on simulated browser threads, the authorisation server is simulated (shims_net/httplib.h)", "libsodium: deterministic hash (shims_net/sodium.h)", "std::random_device: simulator"], must_probe=["key-found", "token", "bad-key", "cancelled"])
REST = [THREADS, ZMQ[0], "TCP sockets, poll and name resolution: simulated (sim/tcpsim.hpp, scen/simtcp.cpp): latency, bounded buffers, short reads and writes, resets, refused connections", "nghttp2: HTTP/2 framing, streams and flow control over plainly encoded headers behind nghttp2's API (scen/simh2.cpp)", "TLS, HTTP/3 (nghttp3, ngtcp2, OpenSSL), mustache, cmrc: declarations only, not exercised (shims_rest/)", ZMQ[2]]
RSRV = ["src/majordomo/include/majordomo/{RestServer,Rest}.hpp (HTTP/2 part)", "src/rest/include/rest/RestUtils.hpp"] + MDP
PROPS["R01"] = dict(scenarios=[("rest", "rest_req", 1)], real=RSRV, stub=REST, must_probe=["get", "post", "handler", "failing", "cancelled", "reset", "tcp-full"])
PROPS["R02"] = dict(scenarios=[("rest", "rest_poll", 1)], real=RSRV, stub=REST, must_probe=["update", "too-old", "earlier", "reset", "malformed", "ahead", "twin"])
PROPS["R03"] = dict(scenarios=[("rest", "rest_client", 1)], real=["src/client/include/RestClientNative.hpp"] + RSRV, stub=REST, must_probe=["reply", "update", "error", "sub-error", "resubscribed", "state"])
