M = "src/majordomo/include/majordomo/"
ZNOTE = ("Seeded search: the real broker, worker, client and serialiser code runs over a simulated ZeroMQ (sockets, reconnects, queues, losses), scheduler and clock; "
         "every run is repeatable from its seed and checked against a reference model. The HTTP server of the broker is a stub.")
P("B01", "Broker: every request gets exactly one reply, its own",
  "Every request a client sends to a running broker and that is served within the client time-out is answered exactly once, with the reply to that very request and carrying its request id: what the worker of the addressed service returned (or the error text when its handler threw or the role may not access it), or an error when no such service exists. The request reaches at most one worker, exactly as it was sent, and requests never fail because of how many clients, workers or services there are or how long a client has been connected.",
  ["schedules", "histories", "configurations"], "all interleavings of clients (several transports), workers and broker, slow handlers, long idle times, requests sent before or after workers register",
  "tests issue one request after another and wait for each reply; crossed replies, a request forgotten in a queue or a worker that is never used again need several parties in a particular order",
  [M + "Broker.hpp", M + "Worker.hpp", "src/core/include/MdpMessage.hpp", "src/zmq/include/zmq/ZmqUtils.hpp"],
  [("service and client queues", M + "Broker.hpp processClients/Service"), ("request handling", M + "Worker.hpp handleRequest/processMessage"), ("message frames", "src/zmq/include/zmq/ZmqUtils.hpp")], note=ZNOTE)
P("B02", "Broker dispatches by role priority, then in order, one request per worker",
  "When a worker becomes free, it is given the waiting request of its service whose role has the highest priority, and among those of equal priority the one that has waited longest. A worker is never given another request before it answered the previous one, and no request waits while a worker of its service is free.",
  ["schedules", "histories"], "all arrival orders of requests with different roles while workers are busy",
  "tests never have several requests of different roles waiting at the same time",
  [M + "Broker.hpp", M + "Rbac.hpp"], [("queue per role", M + "Broker.hpp Service::putMessage/takeNextMessage"), ("waiting workers", M + "Broker.hpp dispatch")], note=ZNOTE)
P("B03", "Subscribers get every matching notification once, complete and in order",
  "A subscriber of a service and topic filter receives, from the moment its subscription is in force until it ends, every notification a worker of that service publishes for a matching topic: exactly once, unchanged, and in publication order per publishing thread, whichever of the broker's subscription interfaces it uses. It receives nothing that does not match, and publishing threads may come and go while the worker is running.",
  ["schedules", "histories", "configurations"], "all interleavings of publishers, worker loop, broker and subscribers",
  "tests publish a handful of notifications from one thread after the subscription has settled",
  [M + "Broker.hpp", M + "Worker.hpp", M + "SubscriptionMatcher.hpp", "src/core/include/Topic.hpp"],
  [("notification channel per publishing thread", M + "Worker.hpp notify/NotificationHandler"), ("distribution to subscribers", M + "Broker.hpp dispatchMessageToMatchingSubscribers")], note=ZNOTE)
P("B04", "Subscriptions of different clients do not disturb each other",
  "Subscribing, subscribing again, unsubscribing, unsubscribing what was never subscribed or disappearing affects only the client that does it: all others keep receiving exactly what they subscribed to. The worker is told that a topic is wanted as long as at least one subscriber wants it and no longer, so that the active subscriptions it reports are, once things settle, exactly the topics currently subscribed.",
  ["schedules", "histories", "fault_sequences"], "all histories of (un)subscriptions, repeated and unmatched ones included, and disconnects over all subscription interfaces",
  "tests use one or two subscribers that subscribe once and unsubscribe once",
  [M + "Broker.hpp", M + "Worker.hpp"], [("subscription bookkeeping", M + "Broker.hpp subscribe/unsubscribe"), ("active subscriptions", M + "Worker.hpp activeSubscriptions")], note=ZNOTE)
P("B05", "Service comes back after stalls, lost connections, crashes and departures",
  "After connections break, are refused or partitioned, processes stall, workers crash or leave and others take over, every request made once the faults have ended and a worker is running is answered again within a bounded time, without anybody having to restart broker, workers or clients. Meanwhile no request is handed to two workers, no client gets an answer to another request or two answers, and a worker that signs off properly loses no request it had accepted and is given no further ones.",
  ["fault_sequences", "crash_points", "schedules"], "random sequences of stalls, broken and refused connections, partitions, worker crashes and departures at arbitrary moments",
  "tests run on loopback where nothing fails",
  [M + "Broker.hpp", M + "Worker.hpp"], [("heartbeats and liveness", M + "Worker.hpp run"), ("purging of workers", M + "Broker.hpp purgeWorkers/deleteWorker"), ("reconnect", M + "Worker.hpp connectToBroker")], note=ZNOTE)
P("B06", "Malformed or unexpected messages harm neither broker, workers nor clients",
  "Whatever messages a peer sends to the sockets of the broker (wrong number of frames, wrong protocol or command, broken topics, forged replies, commands that do not fit its role, damaged copies of valid messages), the broker keeps running and well-behaved clients and workers are served as if those messages had not been sent. A peer that never registered as a worker is not given requests, and no message makes broker or worker access memory it should not; what the payload of a request means is up to the service it is addressed to.",
  ["inputs", "histories", "schedules"], "random malformed messages, interleaved with regular traffic",
  "tests send well-formed messages only",
  [M + "Broker.hpp", M + "Worker.hpp", "src/zmq/include/zmq/ZmqUtils.hpp", "src/core/include/Topic.hpp"], [("receiving and validating frames", "src/zmq/include/zmq/ZmqUtils.hpp receive"), ("command dispatch", M + "Broker.hpp processWorker/processClient")], note=ZNOTE)
P("B07", "Name service: running services are found, vanished ones disappear",
  "Once settled, a query to the broker's name service for a registered service (or for all) returns the addresses of every broker currently running and reachable, the one asked included, and nothing else. A broker that stops, crashes or becomes unreachable disappears from the answers within a bounded time, not before its registration time-out, one that comes back reappears without intervention, and a query is always answered.",
  ["fault_sequences", "schedules", "histories"], "random histories of brokers starting, stopping, crashing and being partitioned from the name-service broker",
  "tests start two brokers and query once",
  [M + "Broker.hpp"], [("registration heartbeats", M + "Broker.hpp sendDnsHeartbeats/registerDnsAddress"), ("purging", M + "Broker.hpp purgeDnsServices"), ("query", M + "Broker.hpp mmi.dns")], note=ZNOTE)
P("L01", "Client library calls each request's callback once, with its own reply",
  "The callback of every get and set command the client context accepts (its queue has room for 32), from any number of threads, is called exactly once, with the reply or error belonging to that request, as long as the context is running and the service answers; the command reaches the service exactly once. After the context was stopped no callback is called any more, and stopping always terminates.",
  ["schedules", "histories"], "all interleavings of issuing threads, command queue, polling thread, replies and stop",
  "tests issue one command at a time and sleep",
  ["src/client/include/ClientContext.hpp", "src/client/include/Client.hpp"], [("command queue and dispatcher", "src/client/include/ClientContext.hpp"), ("request bookkeeping and polling", "src/client/include/Client.hpp MDClientCtx")], note=ZNOTE)
P("L02", "Client subscriptions deliver each matching notification once, in order",
  "The callback of a subscription made through the client context receives every notification matching it exactly once, in publication order per publisher, from the moment the subscription is in force until it is unsubscribed, whatever other commands are issued meanwhile; it can be subscribed again afterwards. After the unsubscription has settled its callback is not called any more and other subscriptions of the same context continue.",
  ["schedules", "histories"], "all interleavings of publishers, broker, polling thread and commands",
  "tests subscribe once and never unsubscribe under traffic",
  ["src/client/include/ClientContext.hpp", "src/client/include/Client.hpp"], [("subscription bookkeeping", "src/client/include/Client.hpp MDClientCtx"), ("subscription sockets", "src/client/include/Client.hpp SubscriptionClient")], note=ZNOTE)
SV = "src/services/include/services/"
P("V01", "Signal directory: registered signals are found until deleted or expired",
  "A query to the signal directory returns every registered signal that matches the given fields exactly once and unchanged, from the moment its registration was answered until it is deleted or its last registration is an hour old, and nothing else; registering again renews it. This holds for any number of clients registering, deleting and querying at the same time, every call of the directory client returns with the answer to that call, and a malformed registration is refused without effect.",
  ["schedules", "histories", "inputs"], "all interleavings of directory clients, broker and directory worker; random histories of registrations, deletions, queries, passing time and restarts",
  "tests register a few signals from one client, never wait for expiry and never race",
  [SV + "dns.hpp", SV + "dns_client.hpp", SV + "dns_storage.hpp", SV + "dns_types.hpp"],
  [("entries and time to live", SV + "dns_storage.hpp"), ("matching", SV + "dns_types.hpp"), ("synchronous and asynchronous calls", SV + "dns_client.hpp")], note=ZNOTE)
P("V02", "Signal directory keeps its signals over restarts, crashes and full disks",
  "After an orderly stop and restart the signal directory contains exactly the signals that were registered and not expired when it stopped, each once. If it crashes at any point while storing them, or the disk is full, writes are short or the file cannot be written, it starts again with either the signals stored before or the new ones, complete and unaltered, and continues to work.",
  ["crash_points", "fault_sequences", "histories"], "crashes at every step of the disk activity including torn writes, disks filling up at any byte, files that cannot be opened, any number of restarts",
  "tests neither crash nor fail the disk",
  [SV + "dns_storage.hpp"], [("saving and loading", SV + "dns_storage.hpp saveDataToFile/loadDataFromFile")], note=ZNOTE)

P("V03", "Only authorised public keys are handed out, and for the role asked for",
  "A public key submitted to the authorisation service can be looked up in the key store after, and only after, its user came back from the authorisation server with the secret issued for it, and then with exactly the key, role and one-year expiry of that submission; keys of a wrong size are refused. Tokens and roles are given only for a secret that was authorised and are those of its authorisation code, however many users, browsers and look-ups are active at once and whatever the authorisation server answers or fails to answer.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the service's worker, the key store's worker, browser call-backs and look-ups; failing and slow authorisation servers",
  "the test needs a Keycloak server and follows one user through",
  [SV + "OAuthClient.hpp", SV + "KeyStore.hpp"], [("authorisation flow", SV + "OAuthClient.hpp OAuthWorker"), ("key store", SV + "KeyStore.hpp KeystoreWorker")], note=ZNOTE)
P("B08", "Typed services get and return exactly the values that were sent",
  "The handler of a typed service is called once for every request with exactly the context and input the client sent, and the client gets exactly the output and reply context the handler produced, in the content type asked for (or chosen by the handler); nothing of one request shows up in another one. Typed notifications reach exactly the subscriptions whose parameters match their context, once, in order, with context and content as published.",
  ["schedules", "histories"], "random mixtures of concurrent clients, workers and publishers with all content types, contexts that need escaping, empty bodies, throwing handlers and handlers that change the reply context",
  "tests send single requests with fixed values",
  ["src/majordomo/include/majordomo/Worker.hpp", "src/serialiser/include/QuerySerialiser.hpp"], [("typed handler", "src/majordomo/include/majordomo/Worker.hpp HandlerImpl, Worker"), ("contexts", "src/serialiser/include/QuerySerialiser.hpp")], note=ZNOTE)
P("B09", "Broker tells truthfully which services it has and how they are described",
  "The broker's management services answer every request once: a list of services contains, sorted and each once, every service a worker had registered when it was asked for and the built-in ones, and no others, also after workers have left; asked for one name it tells whether exactly that service is registered. A service's description is the one its first worker gave, an unknown service is an error, the echo service returns what it was sent, and who listens for new services is told of every registration.",
  ["schedules", "histories"], "services appearing, leaving and returning while several clients ask for lists, names, descriptions and use the services",
  "tests ask once before and once after registering one service",
  ["src/majordomo/include/majordomo/Broker.hpp"], [("management services", "src/majordomo/include/majordomo/Broker.hpp addInternalService, requireService")], note=ZNOTE)
RH = "src/majordomo/include/majordomo/RestServer.hpp"
RC = "src/client/include/RestClientNative.hpp"
P("R01", "Every HTTP/2 request to the broker gets its own response, once and complete",
  "Every request of an HTTP/2 client gets exactly one response within a bounded time: the reply or error the service gave to this very request (which it got unaltered, with the content type the client accepts), the response of the configured handler, or the specified error status; a body that cannot be produced ends in a stream error. This holds for any number of connections and concurrent streams, slow and large bodies in both directions, clients that read slowly, cancel requests or disappear; the server never drops a connection on its own and releases those that ended.",
  ["schedules", "fault_sequences", "inputs"], "connections with several concurrent streams, bodies up to 160 kB fed piecewise, socket buffers of 2 to 128 kB, short reads and writes at any byte, resets, cancelled streams, abandoned connections",
  "tests send one small request after the other over the loopback device",
  [RH, "src/rest/include/rest/RestUtils.hpp"], [("sessions and requests", RH + " SessionBase, Http2Session"), ("reading and writing", RH + " processReadWrite"), ("partial writes", "src/rest/include/rest/RestUtils.hpp WriteBuffer")], note=ZNOTE)
P("R02", "Long polling over HTTP delivers every update once per index, in order",
  "All clients polling a topic see the same update under the same index; the indices number the updates of each publisher in order and without gaps from the moment the subscription is in effect, and a poll for an index is answered as soon as that update exists. The last hundred updates stay available, older indices are redirected to the next one, and 'Next' and 'Last' redirect to the next and the latest index of this topic, whatever connections break and whichever other topics are polled.",
  ["schedules", "histories", "fault_sequences"], "up to four pollers on up to three topics with two publishers, several hundred updates, slow pollers, resets, cancelled polls",
  "tests poll from one client",
  [RH], [("update cache", RH + " SubscriptionCacheEntry"), ("polls", RH + " processLongPollRequest, handleNotification")], note=ZNOTE)
P("R03", "HTTP client: every callback runs once; subscribers miss nothing unnoticed",
  "For every get and set request handed to the REST client its callback is called exactly once within a bounded time, with the response to this request or with an error when the host cannot be reached, the stream is reset or the connection is lost. A subscriber receives consecutive updates until it unsubscribes or is told of an error, nothing after unsubscribing has taken effect, and can subscribe again; requests succeed again once the network works.",
  ["schedules", "fault_sequences", "histories"], "several threads issuing requests, bodies up to 160 kB, refused and reset connections at any point, servers that start late, unknown hosts, unsubscribing and subscribing again during updates",
  "tests use a healthy server",
  [RC, "src/rest/include/rest/RestUtils.hpp"], [("sessions", RC + " ClientSessionBase, Http2ClientSession"), ("event loop", RC + " RestClient")], note=ZNOTE)
