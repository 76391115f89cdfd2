// declarations only as far as needed to compile; TLS is never enabled in the simulation
#pragma once
#include <cstddef>
#include <cstdint>
struct SSL; struct SSL_CTX; struct BIO; struct X509; struct X509_STORE; struct X509_CRL; struct EVP_PKEY; struct SSL_METHOD; struct BIO_METHOD; struct X509_STORE_CTX; struct ENGINE; struct stack_st_X509_INFO;
struct X509_INFO { X509 *x509; X509_CRL *crl; };
#define STACK_OF(x) stack_st_##x
#define OX0(type, name) template<typename... A> inline type name(A &&...) { return type(); }
#define OXP(type, name) template<typename... A> inline type *name(A &&...) { return nullptr; }
#define OXV(name) template<typename... A> inline void name(A &&...) {}
inline void SSL_CTX_free(SSL_CTX *) {}
inline void SSL_free(SSL *) {}
inline void X509_STORE_free(X509_STORE *) {}
inline void X509_free(X509 *) {}
inline void EVP_PKEY_free(EVP_PKEY *) {}
inline void X509_INFO_free(X509_INFO *) {}
OXP(BIO, BIO_new) OXP(BIO, BIO_new_mem_buf) OXP(BIO, BIO_new_file) OXP(BIO, BIO_new_socket) OXP(const BIO_METHOD, BIO_s_mem) OX0(int, BIO_free) OX0(int, BIO_write)
OXP(stack_st_X509_INFO, PEM_X509_INFO_read_bio) OX0(int, sk_X509_INFO_num) OXP(X509_INFO, sk_X509_INFO_value) OXV(sk_X509_INFO_pop_free) OXP(X509, PEM_read_bio_X509) OXP(EVP_PKEY, PEM_read_bio_PrivateKey)
OXP(X509_STORE, X509_STORE_new) OX0(int, X509_STORE_add_cert) OX0(int, X509_STORE_add_crl)
template<typename... A> inline const char *ERR_error_string(A &&...) { return ""; }
OX0(uint64_t, ERR_get_error)
OXP(SSL, SSL_new) OXP(SSL_CTX, SSL_CTX_new) OXV(SSL_set_bio) OXV(SSL_set_verify) OXV(SSL_CTX_set_verify) OXV(SSL_CTX_set_cert_store) OX0(int, SSL_connect) OX0(int, SSL_accept) OX0(int, SSL_get_error) OX0(long, SSL_ctrl) OX0(int, SSL_read) OX0(int, SSL_write)
OX0(int, SSL_shutdown) OX0(int, SSL_library_init) OXV(SSL_load_error_strings) OXV(OpenSSL_add_all_algorithms) OX0(int, SSL_select_next_proto) OX0(int, SSL_CTX_add_extra_chain_cert) OX0(int, SSL_CTX_check_private_key) OX0(int, SSL_CTX_set1_curves_list)
OX0(int, SSL_CTX_set_alpn_protos) OX0(uint64_t, SSL_CTX_set_options) OX0(int, SSL_CTX_use_PrivateKey) OX0(int, SSL_CTX_use_certificate) OXP(const SSL_METHOD, SSLv23_client_method) OXP(const SSL_METHOD, TLS_server_method) OXP(const SSL_METHOD, TLS_client_method)
inline void SSL_CTX_set_alpn_select_cb(SSL_CTX *, int (*)(SSL *, const unsigned char **, unsigned char *, const unsigned char *, unsigned int, void *), void *) {}
enum { BIO_NOCLOSE = 0, SSL_ERROR_WANT_READ = 2, SSL_ERROR_WANT_WRITE = 3, SSL_TLSEXT_ERR_OK = 0, SSL_TLSEXT_ERR_ALERT_WARNING = 1, SSL_TLSEXT_ERR_NOACK = 3, SSL_VERIFY_PEER = 1, SSL_CTRL_SET_TLSEXT_HOSTNAME = 55, TLSEXT_NAMETYPE_host_name = 0, OPENSSL_NPN_NEGOTIATED = 1 };
enum { SSL_OP_ALL = 1, SSL_OP_NO_SSLv2 = 2, SSL_OP_NO_SSLv3 = 4, SSL_OP_NO_COMPRESSION = 8, SSL_OP_NO_SESSION_RESUMPTION_ON_RENEGOTIATION = 16 };
extern "C" int sim_rand_bytes(unsigned char *, int);
inline int RAND_bytes(unsigned char *p, int n) { return sim_rand_bytes(p, n); }
struct EVP_MD_CTX; struct EVP_MD;
OXP(EVP_MD_CTX, EVP_MD_CTX_new) inline void EVP_MD_CTX_free(EVP_MD_CTX *) {} OXP(const EVP_MD, EVP_sha256) OX0(int, EVP_DigestInit_ex) OX0(int, EVP_DigestUpdate) OX0(int, EVP_DigestFinal_ex)
