// Stands in for the AES library of the repository (deps/AES, a submodule that is not present): same interface,
// AES with 128 bit keys after FIPS 197, CBC and counter mode.  Known answers are checked by the harness.
#pragma once
#include <stdint.h>
#include <string.h>
typedef int AES_RETURN;
typedef void cbuf_inc(unsigned char *);
struct aes_encrypt_ctx { uint8_t k[176]; };
struct aes_decrypt_ctx { uint8_t k[176]; };
namespace aes_detail {
inline uint8_t x2(uint8_t a) { return (uint8_t)((a << 1) ^ ((a >> 7) * 0x1b)); }
inline uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1, a = x2(a)) if (b & 1) r ^= a; return r; }
struct Tables { uint8_t s[256], i[256]; Tables() { uint8_t p = 1, q = 1; do { p = (uint8_t)(p ^ x2(p)); q ^= (uint8_t)(q << 1); q ^= (uint8_t)(q << 2); q ^= (uint8_t)(q << 4); if (q & 0x80) q ^= 9;
    auto rot = [](uint8_t v, int n) { return (uint8_t)((v << n) | (v >> (8 - n))); }; s[p] = (uint8_t)(q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63); } while (p != 1); s[0] = 0x63; for (int n = 0; n < 256; n++) i[s[n]] = (uint8_t)n; } };
inline const Tables & tab() { static Tables t; return t; }
inline void expand(const uint8_t * key, uint8_t * w) {
    memcpy(w, key, 16); uint8_t rc = 1;
    for (int n = 16; n < 176; n += 4) { uint8_t t[4]; memcpy(t, w + n - 4, 4);
        if (n % 16 == 0) { uint8_t f = t[0]; t[0] = (uint8_t)(tab().s[t[1]] ^ rc); t[1] = tab().s[t[2]]; t[2] = tab().s[t[3]]; t[3] = tab().s[f]; rc = x2(rc); }
        for (int k = 0; k < 4; k++) w[n + k] = (uint8_t)(w[n - 16 + k] ^ t[k]); } }
inline void enc(const uint8_t * in, uint8_t * out, const uint8_t * w) {
    uint8_t s[16], t[16]; for (int n = 0; n < 16; n++) s[n] = (uint8_t)(in[n] ^ w[n]);
    for (int r = 1; r <= 10; r++) {
        for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) t[4 * c + k] = tab().s[s[4 * ((c + k) & 3) + k]];
        if (r < 10) for (int c = 0; c < 4; c++) { uint8_t * a = t + 4 * c; uint8_t x = (uint8_t)(a[0] ^ a[1] ^ a[2] ^ a[3]), f = a[0];
            a[0] ^= (uint8_t)(x ^ x2((uint8_t)(a[0] ^ a[1]))); a[1] ^= (uint8_t)(x ^ x2((uint8_t)(a[1] ^ a[2]))); a[2] ^= (uint8_t)(x ^ x2((uint8_t)(a[2] ^ a[3]))); a[3] ^= (uint8_t)(x ^ x2((uint8_t)(a[3] ^ f))); }
        for (int n = 0; n < 16; n++) s[n] = (uint8_t)(t[n] ^ w[16 * r + n]); }
    memcpy(out, s, 16); }
inline void dec(const uint8_t * in, uint8_t * out, const uint8_t * w) {
    uint8_t s[16], t[16]; for (int n = 0; n < 16; n++) s[n] = (uint8_t)(in[n] ^ w[160 + n]);
    for (int r = 9; r >= 0; r--) {
        for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) t[4 * ((c + k) & 3) + k] = tab().i[s[4 * c + k]];
        for (int n = 0; n < 16; n++) t[n] ^= w[16 * r + n];
        if (r) for (int c = 0; c < 4; c++) { uint8_t * a = t + 4 * c, b[4]; memcpy(b, a, 4); for (int k = 0; k < 4; k++) a[k] = (uint8_t)(mul(b[k], 14) ^ mul(b[(k + 1) & 3], 11) ^ mul(b[(k + 2) & 3], 13) ^ mul(b[(k + 3) & 3], 9)); }
        memcpy(s, t, 16); }
    memcpy(out, s, 16); }
}
inline AES_RETURN aes_init() { return 0; }
inline AES_RETURN aes_encrypt_key(const unsigned char * key, int len, aes_encrypt_ctx * c) { if (len != 16 && len != 128) return 1; aes_detail::expand(key, c->k); return 0; }
inline AES_RETURN aes_decrypt_key(const unsigned char * key, int len, aes_decrypt_ctx * c) { if (len != 16 && len != 128) return 1; aes_detail::expand(key, c->k); return 0; }
inline AES_RETURN aes_cbc_encrypt(const unsigned char * in, unsigned char * out, int len, unsigned char * iv, const aes_encrypt_ctx * c) {
    if (len & 15) return 1; for (; len > 0; len -= 16, in += 16, out += 16) { for (int n = 0; n < 16; n++) iv[n] ^= in[n]; aes_detail::enc(iv, iv, c->k); memcpy(out, iv, 16); } return 0; }
inline AES_RETURN aes_cbc_decrypt(const unsigned char * in, unsigned char * out, int len, unsigned char * iv, const aes_decrypt_ctx * c) {
    if (len & 15) return 1; for (; len > 0; len -= 16, in += 16, out += 16) { uint8_t b[16], p[16]; memcpy(b, in, 16); aes_detail::dec(b, p, c->k); for (int n = 0; n < 16; n++) out[n] = (uint8_t)(p[n] ^ iv[n]); memcpy(iv, b, 16); } return 0; }
inline AES_RETURN aes_ctr_crypt(const unsigned char * in, unsigned char * out, int len, unsigned char * cb, cbuf_inc * inc, aes_encrypt_ctx * c) {
    for (int n = 0; n < len; n += 16) { uint8_t b[16]; aes_detail::enc(cb, b, c->k); for (int k = 0; k < 16 && n + k < len; k++) out[n + k] = (uint8_t)(in[n + k] ^ b[k]); inc(cb); } return 0; }
#define aes_ctr_encrypt aes_ctr_crypt
#define aes_ctr_decrypt aes_ctr_crypt
inline AES_RETURN aes_ecb_encrypt(const unsigned char * in, unsigned char * out, int len, const aes_encrypt_ctx * c) { if (len & 15) return 1; for (; len > 0; len -= 16, in += 16, out += 16) aes_detail::enc(in, out, c->k); return 0; }
