// declarations only as far as needed to compile; HTTP/3 is never enabled in the simulation
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
struct nghttp3_conn; struct nghttp3_rcbuf; struct nghttp3_mem;
typedef ptrdiff_t nghttp3_ssize;
typedef struct { uint8_t *base; size_t len; } nghttp3_vec;
typedef struct { const uint8_t *name, *value; size_t namelen, valuelen; uint8_t flags; } nghttp3_nv;
typedef nghttp3_ssize (*nghttp3_read_data_callback)(nghttp3_conn *, int64_t, nghttp3_vec *, size_t, uint32_t *, void *, void *);
typedef struct { nghttp3_read_data_callback read_data; } nghttp3_data_reader;
typedef struct { uint64_t max_field_section_size; size_t qpack_max_dtable_capacity, qpack_encoder_max_dtable_capacity, qpack_blocked_streams; uint8_t enable_connect_protocol, h3_datagram; } nghttp3_settings;
typedef struct {
    int (*acked_stream_data)(nghttp3_conn *, int64_t, uint64_t, void *, void *);
    int (*stream_close)(nghttp3_conn *, int64_t, uint64_t, void *, void *);
    int (*recv_data)(nghttp3_conn *, int64_t, const uint8_t *, size_t, void *, void *);
    int (*deferred_consume)(nghttp3_conn *, int64_t, size_t, void *, void *);
    int (*begin_headers)(nghttp3_conn *, int64_t, void *, void *);
    int (*recv_header)(nghttp3_conn *, int64_t, int32_t, nghttp3_rcbuf *, nghttp3_rcbuf *, uint8_t, void *, void *);
    int (*end_headers)(nghttp3_conn *, int64_t, int, void *, void *);
    int (*begin_trailers)(nghttp3_conn *, int64_t, void *, void *);
    int (*recv_trailer)(nghttp3_conn *, int64_t, int32_t, nghttp3_rcbuf *, nghttp3_rcbuf *, uint8_t, void *, void *);
    int (*end_trailers)(nghttp3_conn *, int64_t, int, void *, void *);
    int (*stop_sending)(nghttp3_conn *, int64_t, uint64_t, void *, void *);
    int (*end_stream)(nghttp3_conn *, int64_t, void *, void *);
    int (*reset_stream)(nghttp3_conn *, int64_t, uint64_t, void *, void *);
    int (*shutdown)(nghttp3_conn *, int64_t, void *);
    int (*recv_settings)(nghttp3_conn *, const nghttp3_settings *, void *);
} nghttp3_callbacks;
enum { NGHTTP3_DATA_FLAG_EOF = 1, NGHTTP3_NV_FLAG_NONE = 0, NGHTTP3_NV_FLAG_NO_COPY_NAME = 2, NGHTTP3_NV_FLAG_NO_COPY_VALUE = 4, NGHTTP3_H3_NO_ERROR = 0x100, NGHTTP3_ERR_STREAM_NOT_FOUND = -110, NGHTTP3_ERR_CALLBACK_FAILURE = -902 };
inline nghttp3_vec nghttp3_rcbuf_get_buf(const nghttp3_rcbuf *) { return { nullptr, 0 }; }
inline const nghttp3_mem *nghttp3_mem_default() { return nullptr; }
inline const char *nghttp3_strerror(int) { return ""; }
#define NGX(name) template<typename... A> inline int name(A &&...) { return -1; }
NGX(nghttp3_conn_add_ack_offset) NGX(nghttp3_conn_add_write_offset) NGX(nghttp3_conn_bind_control_stream) NGX(nghttp3_conn_bind_qpack_streams) NGX(nghttp3_conn_block_stream) NGX(nghttp3_conn_close_stream)
NGX(nghttp3_conn_del) NGX(nghttp3_conn_read_stream) NGX(nghttp3_conn_set_max_client_streams_bidi) NGX(nghttp3_conn_set_stream_user_data) NGX(nghttp3_conn_shutdown_stream_read)
NGX(nghttp3_conn_shutdown_stream_write) NGX(nghttp3_conn_unblock_stream) NGX(nghttp3_conn_resume_stream) NGX(nghttp3_conn_writev_stream) NGX(nghttp3_settings_default) NGX(nghttp3_set_debug_vprintf_callback) NGX(nghttp3_err_infer_quic_app_error_code)
inline int nghttp3_conn_server_new(nghttp3_conn **, const nghttp3_callbacks *, const nghttp3_settings *, const nghttp3_mem *, void *) { return -1; }
inline int nghttp3_conn_submit_response(nghttp3_conn *, int64_t, const nghttp3_nv *, size_t, const nghttp3_data_reader *) { return -1; }
