// nghttp2 as far as opencmw-cpp uses it; implementation: scen/simh2.cpp (HTTP/2 framing and flow control, plain header encoding)
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
typedef ptrdiff_t nghttp2_ssize;
struct nghttp2_session;
struct nghttp2_session_callbacks;
struct nghttp2_rcbuf;
struct nghttp2_option;
typedef struct { uint8_t *base; size_t len; } nghttp2_vec;
typedef struct { uint8_t *name, *value; size_t namelen, valuelen; uint8_t flags; } nghttp2_nv;
typedef struct { int32_t settings_id; uint32_t value; } nghttp2_settings_entry;
typedef struct { size_t length; int32_t stream_id; uint8_t type, flags, reserved; } nghttp2_frame_hd;
typedef struct { nghttp2_frame_hd hd; uint32_t error_code; } nghttp2_rst_stream;
typedef union { nghttp2_frame_hd hd; nghttp2_rst_stream rst_stream; } nghttp2_frame;
typedef union { int fd; void *ptr; } nghttp2_data_source;
typedef nghttp2_ssize (*nghttp2_data_source_read_callback2)(nghttp2_session *, int32_t, uint8_t *, size_t, uint32_t *, nghttp2_data_source *, void *);
typedef struct { nghttp2_data_source source; nghttp2_data_source_read_callback2 read_callback; } nghttp2_data_provider2;
typedef struct { int32_t stream_id, weight; uint8_t exclusive; } nghttp2_priority_spec;
enum { NGHTTP2_DATA = 0, NGHTTP2_HEADERS = 1, NGHTTP2_PRIORITY = 2, NGHTTP2_RST_STREAM = 3, NGHTTP2_SETTINGS = 4, NGHTTP2_PUSH_PROMISE = 5, NGHTTP2_PING = 6, NGHTTP2_GOAWAY = 7, NGHTTP2_WINDOW_UPDATE = 8 };
enum { NGHTTP2_FLAG_NONE = 0, NGHTTP2_FLAG_END_STREAM = 1, NGHTTP2_FLAG_END_HEADERS = 4, NGHTTP2_FLAG_ACK = 1 };
enum { NGHTTP2_NV_FLAG_NONE = 0, NGHTTP2_NV_FLAG_NO_INDEX = 1, NGHTTP2_NV_FLAG_NO_COPY_NAME = 2, NGHTTP2_NV_FLAG_NO_COPY_VALUE = 4 };
enum { NGHTTP2_SETTINGS_HEADER_TABLE_SIZE = 1, NGHTTP2_SETTINGS_ENABLE_PUSH = 2, NGHTTP2_SETTINGS_MAX_CONCURRENT_STREAMS = 3, NGHTTP2_SETTINGS_INITIAL_WINDOW_SIZE = 4 };
enum { NGHTTP2_DATA_FLAG_NONE = 0, NGHTTP2_DATA_FLAG_EOF = 1, NGHTTP2_DATA_FLAG_NO_END_STREAM = 2 };
enum { NGHTTP2_NO_ERROR = 0, NGHTTP2_PROTOCOL_ERROR = 1, NGHTTP2_INTERNAL_ERROR = 2, NGHTTP2_STREAM_CLOSED = 5, NGHTTP2_REFUSED_STREAM = 7, NGHTTP2_CANCEL = 8 };
enum { NGHTTP2_ERR_INVALID_ARGUMENT = -501, NGHTTP2_ERR_WOULDBLOCK = -504, NGHTTP2_ERR_PROTO = -505, NGHTTP2_ERR_DEFERRED = -508, NGHTTP2_ERR_STREAM_CLOSED = -510, NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE = -521, NGHTTP2_ERR_NOMEM = -901, NGHTTP2_ERR_CALLBACK_FAILURE = -902, NGHTTP2_ERR_BAD_CLIENT_MAGIC = -903 };
typedef nghttp2_ssize (*nghttp2_send_callback2)(nghttp2_session *, const uint8_t *, size_t, int, void *);
typedef int (*nghttp2_on_frame_recv_callback)(nghttp2_session *, const nghttp2_frame *, void *);
typedef int (*nghttp2_on_frame_send_callback)(nghttp2_session *, const nghttp2_frame *, void *);
typedef int (*nghttp2_on_frame_not_send_callback)(nghttp2_session *, const nghttp2_frame *, int, void *);
typedef int (*nghttp2_on_invalid_frame_recv_callback)(nghttp2_session *, const nghttp2_frame *, int, void *);
typedef int (*nghttp2_on_data_chunk_recv_callback)(nghttp2_session *, uint8_t, int32_t, const uint8_t *, size_t, void *);
typedef int (*nghttp2_on_stream_close_callback)(nghttp2_session *, int32_t, uint32_t, void *);
typedef int (*nghttp2_on_begin_headers_callback)(nghttp2_session *, const nghttp2_frame *, void *);
typedef int (*nghttp2_on_header_callback)(nghttp2_session *, const nghttp2_frame *, const uint8_t *, size_t, const uint8_t *, size_t, uint8_t, void *);
typedef int (*nghttp2_on_header_callback2)(nghttp2_session *, const nghttp2_frame *, nghttp2_rcbuf *, nghttp2_rcbuf *, uint8_t, void *);
typedef int (*nghttp2_error_callback2)(nghttp2_session *, int, const char *, size_t, void *);
nghttp2_vec nghttp2_rcbuf_get_buf(nghttp2_rcbuf *);
int  nghttp2_session_callbacks_new(nghttp2_session_callbacks **);
void nghttp2_session_callbacks_del(nghttp2_session_callbacks *);
void nghttp2_session_callbacks_set_send_callback2(nghttp2_session_callbacks *, nghttp2_send_callback2);
void nghttp2_session_callbacks_set_on_frame_recv_callback(nghttp2_session_callbacks *, nghttp2_on_frame_recv_callback);
void nghttp2_session_callbacks_set_on_frame_send_callback(nghttp2_session_callbacks *, nghttp2_on_frame_send_callback);
void nghttp2_session_callbacks_set_on_frame_not_send_callback(nghttp2_session_callbacks *, nghttp2_on_frame_not_send_callback);
void nghttp2_session_callbacks_set_on_invalid_frame_recv_callback(nghttp2_session_callbacks *, nghttp2_on_invalid_frame_recv_callback);
void nghttp2_session_callbacks_set_on_data_chunk_recv_callback(nghttp2_session_callbacks *, nghttp2_on_data_chunk_recv_callback);
void nghttp2_session_callbacks_set_on_stream_close_callback(nghttp2_session_callbacks *, nghttp2_on_stream_close_callback);
void nghttp2_session_callbacks_set_on_begin_headers_callback(nghttp2_session_callbacks *, nghttp2_on_begin_headers_callback);
void nghttp2_session_callbacks_set_on_header_callback(nghttp2_session_callbacks *, nghttp2_on_header_callback);
void nghttp2_session_callbacks_set_on_header_callback2(nghttp2_session_callbacks *, nghttp2_on_header_callback2);
void nghttp2_session_callbacks_set_error_callback2(nghttp2_session_callbacks *, nghttp2_error_callback2);
int  nghttp2_session_server_new(nghttp2_session **, const nghttp2_session_callbacks *, void *);
int  nghttp2_session_client_new(nghttp2_session **, const nghttp2_session_callbacks *, void *);
void nghttp2_session_del(nghttp2_session *);
int  nghttp2_session_want_read(nghttp2_session *);
int  nghttp2_session_want_write(nghttp2_session *);
nghttp2_ssize nghttp2_session_mem_recv2(nghttp2_session *, const uint8_t *, size_t);
nghttp2_ssize nghttp2_session_mem_send2(nghttp2_session *, const uint8_t **);
int  nghttp2_submit_settings(nghttp2_session *, uint8_t, const nghttp2_settings_entry *, size_t);
int  nghttp2_submit_rst_stream(nghttp2_session *, uint8_t, int32_t, uint32_t);
int  nghttp2_submit_response2(nghttp2_session *, int32_t, const nghttp2_nv *, size_t, const nghttp2_data_provider2 *);
int32_t nghttp2_submit_request2(nghttp2_session *, const nghttp2_priority_spec *, const nghttp2_nv *, size_t, const nghttp2_data_provider2 *, void *);
int nghttp2_session_resume_data(nghttp2_session *, int32_t);
const char *nghttp2_strerror(int);
