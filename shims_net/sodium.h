// stand-in for libsodium: deterministic, not cryptographic
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#define crypto_sign_PUBLICKEYBYTES 32U
#define crypto_sign_SECRETKEYBYTES 64U
#define crypto_sign_BYTES 64U
#define crypto_generichash_KEYBYTES 32U
#define crypto_generichash_BYTES 32U
inline int sodium_init() { return 0; }
inline int crypto_generichash(unsigned char *out, size_t n, const unsigned char *in, unsigned long long len, const unsigned char *, size_t) {
    for (size_t i = 0; i < n; i++) {
        uint64_t h = 1469598103934665603ull + i * 0x9e3779b97f4a7c15ull;
        for (unsigned long long k = 0; k < len; k++) h = (h ^ in[k]) * 1099511628211ull;
        out[i] = (unsigned char) (h >> 29);
    }
    return 0;
}
inline int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) { memset(pk, 1, 32); memset(sk, 2, 64); return 0; }
inline int crypto_sign_detached(unsigned char *sig, unsigned long long *, const unsigned char *m, unsigned long long len, const unsigned char *) { return crypto_generichash(sig, 64, m, len, nullptr, 0); }
inline int crypto_sign_verify_detached(const unsigned char *sig, const unsigned char *m, unsigned long long len, const unsigned char *) { unsigned char s[64]; crypto_generichash(s, 64, m, len, nullptr, 0); return memcmp(s, sig, 64) ? -1 : 0; }
