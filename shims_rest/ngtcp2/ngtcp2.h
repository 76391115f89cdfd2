// declarations only as far as needed to compile; HTTP/3 is never enabled in the simulation
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/socket.h>
typedef ptrdiff_t ngtcp2_ssize;
typedef uint64_t  ngtcp2_tstamp;
typedef uint64_t  ngtcp2_duration;
struct ngtcp2_conn;
enum { NGTCP2_MAX_CIDLEN = 20, NGTCP2_MIN_INITIAL_DCIDLEN = 8, NGTCP2_STATELESS_RESET_TOKENLEN = 16, NGTCP2_MAX_UDP_PAYLOAD_SIZE = 1200, NGTCP2_CRYPTO_MAX_REGULAR_TOKENLEN = 64, NGTCP2_CRYPTO_MAX_RETRY_TOKENLEN2 = 128 };
enum { NGTCP2_CRYPTO_TOKEN_MAGIC_RETRY2 = 0xb7, NGTCP2_CRYPTO_TOKEN_MAGIC_REGULAR = 0x36, NGTCP2_PROTO_VER_V1 = 1, NGTCP2_PROTO_VER_V2 = 0x6b3343cf, NGTCP2_INVALID_TOKEN = 0xb };
enum { NGTCP2_STREAM_CLOSE_FLAG_APP_ERROR_CODE_SET = 1, NGTCP2_STREAM_DATA_FLAG_FIN = 1, NGTCP2_WRITE_STREAM_FLAG_MORE = 1, NGTCP2_WRITE_STREAM_FLAG_FIN = 2, NGTCP2_PATH_VALIDATION_FLAG_NEW_TOKEN = 2 };
#define NGTCP2_SECONDS ((uint64_t) 1000000000ULL)
#define NGTCP2_MILLISECONDS ((uint64_t) 1000000ULL)
#define NGTCP2_ERR_CALLBACK_FAILURE (-502)
#define NGTCP2_ERR_CRYPTO (-215)
#define NGTCP2_ERR_DRAINING (-231)
#define NGTCP2_ERR_DROP_CONN (-242)
#define NGTCP2_ERR_RETRY (-241)
#define NGTCP2_ERR_STREAM_DATA_BLOCKED (-210)
#define NGTCP2_ERR_STREAM_SHUT_WR (-221)
#define NGTCP2_ERR_VERSION_NEGOTIATION (-245)
#define NGTCP2_ERR_WRITE_MORE (-240)
#define NGTCP2_CRYPTO_ERR_VERIFY_TOKEN (-203)
enum ngtcp2_token_type { NGTCP2_TOKEN_TYPE_UNKNOWN, NGTCP2_TOKEN_TYPE_RETRY, NGTCP2_TOKEN_TYPE_NEW_TOKEN };
enum ngtcp2_encryption_level { NGTCP2_ENCRYPTION_LEVEL_INITIAL, NGTCP2_ENCRYPTION_LEVEL_HANDSHAKE, NGTCP2_ENCRYPTION_LEVEL_1RTT, NGTCP2_ENCRYPTION_LEVEL_0RTT };
enum ngtcp2_path_validation_result { NGTCP2_PATH_VALIDATION_RESULT_SUCCESS, NGTCP2_PATH_VALIDATION_RESULT_FAILURE, NGTCP2_PATH_VALIDATION_RESULT_ABORTED };
enum ngtcp2_ccerr_type { NGTCP2_CCERR_TYPE_TRANSPORT, NGTCP2_CCERR_TYPE_APPLICATION, NGTCP2_CCERR_TYPE_VERSION_NEGOTIATION, NGTCP2_CCERR_TYPE_IDLE_CLOSE, NGTCP2_CCERR_TYPE_DROP_CONN, NGTCP2_CCERR_TYPE_RETRY };
enum { NGTCP2_PKT_INITIAL = 0x10 };
struct ngtcp2_cid { size_t datalen; uint8_t data[NGTCP2_MAX_CIDLEN]; };
struct ngtcp2_vec { uint8_t *base; size_t len; };
struct ngtcp2_pkt_info { uint8_t ecn; };
struct ngtcp2_addr { sockaddr *addr; socklen_t addrlen; };
struct ngtcp2_path { ngtcp2_addr local, remote; void *user_data; };
struct ngtcp2_path_storage { ngtcp2_path path; };
struct ngtcp2_ccerr { ngtcp2_ccerr_type type; uint64_t error_code; };
struct ngtcp2_pkt_hd { ngtcp2_cid dcid, scid; int64_t pkt_num; const uint8_t *token; size_t tokenlen, len; uint32_t version; uint8_t type, flags; };
struct ngtcp2_version_cid { uint32_t version; const uint8_t *dcid; size_t dcidlen; const uint8_t *scid; size_t scidlen; };
struct ngtcp2_rand_ctx { void *native_handle; };
struct ngtcp2_crypto_aead_ctx { void *native_handle; };
struct ngtcp2_crypto_conn_ref { ngtcp2_conn *(*get_conn)(ngtcp2_crypto_conn_ref *); void *user_data; };
struct ngtcp2_settings { const uint8_t *token; size_t tokenlen; ngtcp2_token_type token_type; void *log_printf; ngtcp2_tstamp initial_ts; };
struct ngtcp2_transport_params {
    uint64_t initial_max_stream_data_bidi_local, initial_max_stream_data_bidi_remote, initial_max_stream_data_uni, initial_max_data, initial_max_streams_bidi, initial_max_streams_uni, max_idle_timeout, active_connection_id_limit;
    uint8_t stateless_reset_token_present, retry_scid_present, original_dcid_present; ngtcp2_cid original_dcid, retry_scid; uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
};
struct ngx_any { template<typename F> void operator=(F &&) {} };
struct ngtcp2_callbacks {
    ngx_any client_initial, recv_client_initial, recv_crypto_data, handshake_completed, recv_version_negotiation, encrypt, decrypt, hp_mask, recv_stream_data, acked_stream_data_offset, stream_open, stream_close, recv_stateless_reset, recv_retry,
            extend_max_local_streams_bidi, extend_max_local_streams_uni, rand, get_new_connection_id, remove_connection_id, update_key, path_validation, select_preferred_addr, stream_reset, extend_max_remote_streams_bidi, extend_max_remote_streams_uni,
            extend_max_stream_data, dcid_status, handshake_confirmed, recv_new_token, delete_crypto_aead_ctx, delete_crypto_cipher_ctx, recv_datagram, get_path_challenge_data, stream_stop_sending, version_negotiation, recv_rx_key, recv_tx_key;
};
inline constexpr int ngtcp2_crypto_client_initial_cb = 0, ngtcp2_crypto_recv_client_initial_cb = 0, ngtcp2_crypto_recv_crypto_data_cb = 0, ngtcp2_crypto_encrypt_cb = 0, ngtcp2_crypto_decrypt_cb = 0, ngtcp2_crypto_hp_mask_cb = 0,
                     ngtcp2_crypto_delete_crypto_aead_ctx_cb = 0, ngtcp2_crypto_delete_crypto_cipher_ctx_cb = 0, ngtcp2_crypto_get_path_challenge_data_cb = 0, ngtcp2_crypto_version_negotiation_cb = 0;
#define NTX(name) template<typename... A> inline int name(A &&...) { return -1; }
NTX(ngtcp2_accept) NTX(ngtcp2_ccerr_set_application_error) NTX(ngtcp2_ccerr_set_liberr) NTX(ngtcp2_ccerr_set_tls_alert) NTX(ngtcp2_cid_init) NTX(ngtcp2_conn_extend_max_offset) NTX(ngtcp2_conn_extend_max_stream_offset)
NTX(ngtcp2_conn_extend_max_streams_bidi) NTX(ngtcp2_conn_get_tls_alert) NTX(ngtcp2_conn_in_closing_period) NTX(ngtcp2_conn_in_draining_period) NTX(ngtcp2_conn_is_local_stream) NTX(ngtcp2_conn_read_pkt)
NTX(ngtcp2_conn_set_tls_native_handle) NTX(ngtcp2_conn_submit_new_token) NTX(ngtcp2_conn_update_pkt_tx_time) NTX(ngtcp2_conn_write_connection_close) NTX(ngtcp2_crypto_generate_regular_token) NTX(ngtcp2_crypto_generate_retry_token2)
NTX(ngtcp2_crypto_generate_stateless_reset_token) NTX(ngtcp2_crypto_ossl_init) NTX(ngtcp2_crypto_update_key) NTX(ngtcp2_crypto_verify_regular_token) NTX(ngtcp2_crypto_verify_retry_token2) NTX(ngtcp2_crypto_write_connection_close)
NTX(ngtcp2_crypto_write_retry) NTX(ngtcp2_is_bidi_stream) NTX(ngtcp2_path_copy) NTX(ngtcp2_path_eq) NTX(ngtcp2_path_storage_zero) NTX(ngtcp2_pkt_decode_version_cid) NTX(ngtcp2_pkt_write_stateless_reset) NTX(ngtcp2_pkt_write_version_negotiation)
NTX(ngtcp2_settings_default) NTX(ngtcp2_transport_params_default) NTX(ngtcp2_conn_server_new) NTX(ngtcp2_conn_open_uni_stream) NTX(ngtcp2_conn_shutdown_stream) NTX(ngtcp2_conn_shutdown_stream_read) NTX(ngtcp2_conn_shutdown_stream_write)
NTX(ngtcp2_conn_handle_expiry) NTX(ngtcp2_conn_get_expiry)
#define NTU(name) template<typename... A> inline size_t name(A &&...) { return 0; }
NTU(ngtcp2_conn_get_max_data_left) NTU(ngtcp2_conn_get_max_tx_udp_payload_size) NTU(ngtcp2_conn_get_path_max_tx_udp_payload_size) NTU(ngtcp2_conn_get_scid) NTU(ngtcp2_conn_get_send_quantum) NTU(ngtcp2_conn_get_streams_uni_left)
template<typename... A> inline ngtcp2_ssize ngtcp2_conn_writev_stream(A &&...) { return -1; }
template<typename... A> inline const ngtcp2_transport_params *ngtcp2_conn_get_local_transport_params(A &&...) { return nullptr; }
template<typename... A> inline const ngtcp2_cid *ngtcp2_conn_get_client_initial_dcid(A &&...) { return nullptr; }
template<typename... A> inline const ngtcp2_path *ngtcp2_conn_get_path(A &&...) { return nullptr; }
inline bool ngtcp2_cid_eq(const ngtcp2_cid *a, const ngtcp2_cid *b) { return a->datalen == b->datalen && __builtin_memcmp(a->data, b->data, a->datalen) == 0; }
inline const char *ngtcp2_strerror(int) { return ""; }
