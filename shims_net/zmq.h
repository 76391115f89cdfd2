// Simulated ZeroMQ: the API subset opencmw-cpp uses (implementation: scen/simzmq.cpp).
#pragma once
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct zmq_msg_t { void *p[8]; } zmq_msg_t;
typedef struct zmq_pollitem_t { void *socket; int fd; short events; short revents; } zmq_pollitem_t;
typedef void(zmq_free_fn)(void *data, void *hint);
enum { ZMQ_PAIR = 0, ZMQ_PUB = 1, ZMQ_SUB = 2, ZMQ_REQ = 3, ZMQ_REP = 4, ZMQ_DEALER = 5, ZMQ_ROUTER = 6, ZMQ_PULL = 7, ZMQ_PUSH = 8, ZMQ_XPUB = 9, ZMQ_XSUB = 10 };
enum { ZMQ_SUBSCRIBE = 6, ZMQ_UNSUBSCRIBE = 7, ZMQ_RCVMORE = 13, ZMQ_LINGER = 17, ZMQ_SNDHWM = 23, ZMQ_RCVHWM = 24, ZMQ_XPUB_VERBOSE = 40, ZMQ_HEARTBEAT_IVL = 75, ZMQ_HEARTBEAT_TTL = 76, ZMQ_HEARTBEAT_TIMEOUT = 77 };
enum { ZMQ_DONTWAIT = 1, ZMQ_SNDMORE = 2 };
enum { ZMQ_POLLIN = 1, ZMQ_POLLOUT = 2, ZMQ_POLLERR = 4 };
#define ETERM 156384765
void       *zmq_ctx_new(void);
int         zmq_ctx_term(void *ctx);
void       *zmq_socket(void *ctx, int type);
int         zmq_close(void *s);
int         zmq_bind(void *s, const char *ep);
int         zmq_connect(void *s, const char *ep);
int         zmq_disconnect(void *s, const char *ep);
int         zmq_setsockopt(void *s, int opt, const void *v, size_t n);
int         zmq_getsockopt(void *s, int opt, void *v, size_t *n);
int         zmq_poll(zmq_pollitem_t *items, int n, long timeout);
int         zmq_msg_init(zmq_msg_t *m);
int         zmq_msg_init_data(zmq_msg_t *m, void *data, size_t size, zmq_free_fn *ffn, void *hint);
int         zmq_msg_close(zmq_msg_t *m);
int         zmq_msg_move(zmq_msg_t *dst, zmq_msg_t *src);
size_t      zmq_msg_size(const zmq_msg_t *m);
void       *zmq_msg_data(zmq_msg_t *m);
int         zmq_msg_send(zmq_msg_t *m, void *s, int flags);
int         zmq_msg_recv(zmq_msg_t *m, void *s, int flags);
int         zmq_errno(void);
const char *zmq_strerror(int e);
#ifdef __cplusplus
}
#endif
