/* AES-256 counter mode and SHA-2 of the 90s variants against FIPS 197 / SP 800-38A / FIPS 180-4 */
#include <stddef.h>
#include "spec_saber.h"
#include "spec_hash.h"
typedef unsigned char *W; typedef const unsigned char *R; typedef unsigned long long N;
static uint8_t h_o[8192];
#ifdef H_SHA
#include "sha2.h"
#ifdef SPEC_SHA2_UF
/* the compression function as an uninterpreted function of chaining value and block, on both sides */
static void h_words(uint8_t *b, const uint8_t *st, const uint8_t *in, unsigned s, unsigned k) { unsigned i; for (i = 0; i < s; i++) b[i] = st[i]; for (i = 0; i < k; i++) b[s + i] = in[i]; }
int stub_crypto_hashblocks_sha256(uint8_t *st, const uint8_t *in, size_t n)
{ uint8_t b[96]; while (n >= 64) { h_words(b, st, in, 32, 64); sx_uf("sha256be", st, 32, b, 96); in += 64; n -= 64; } return (int)n; }
int stub_crypto_hashblocks_sha512(uint8_t *st, const uint8_t *in, size_t n)
{ uint8_t b[192]; while (n >= 128) { h_words(b, st, in, 64, 128); sx_uf("sha512be", st, 64, b, 192); in += 128; n -= 128; } return (int)n; }
void spec_sha256_c(uint32_t h[8], const uint8_t *p)
{ uint8_t s[32], b[96]; unsigned i; for (i = 0; i < 32; i++) s[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4))); h_words(b, s, p, 32, 64); sx_uf("sha256be", s, 32, b, 96);
  for (i = 0; i < 8; i++) h[i] = (uint32_t)s[4 * i] << 24 | (uint32_t)s[4 * i + 1] << 16 | (uint32_t)s[4 * i + 2] << 8 | s[4 * i + 3]; }
void spec_sha512_c(uint64_t h[8], const uint8_t *p)
{ uint8_t s[64], b[192]; unsigned i, j; for (i = 0; i < 64; i++) s[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8))); h_words(b, s, p, 64, 128); sx_uf("sha512be", s, 64, b, 192);
  for (i = 0; i < 8; i++) { h[i] = 0; for (j = 0; j < 8; j++) h[i] = h[i] << 8 | s[8 * i + j]; } }
#endif
#ifndef H_LO
#define H_LO 0
#define H_HI 200
#endif
void harness_sha256(void) { unsigned n; for (n = H_LO; n < H_HI; n++) {
  uint8_t *in = sx_alloc(n, 1, "in"), *out = sx_alloc(32, 1, "out");
  H_SECRET(in, n, "in"); sx_readonly(in, 1); sha256(out, in, n);
  sx_mark(); H_SPEC(spec_sha256(h_o, in, n);) H_CHECK(out, h_o, 32, "sha256"); sx_mark(); sx_free(in); sx_free(out); } }
void harness_sha512(void) { unsigned n; for (n = H_LO; n < H_HI; n++) {
  uint8_t *in = sx_alloc(n, 1, "in"), *out = sx_alloc(64, 1, "out");
  H_SECRET(in, n, "in"); sx_readonly(in, 1); sha512(out, in, n);
  sx_mark(); H_SPEC(spec_sha512(h_o, in, n);) H_CHECK(out, h_o, 64, "sha512"); sx_mark(); sx_free(in); sx_free(out); } }
#else
static const unsigned h_len[] = { H_LENS };
#ifndef H_AVX
/* contract of the bitsliced S-box, decided by harness_sbox: plane i holds bit i of 64 independent bytes */
static void h_sbox(uint64_t *q)
{
  int i, k; uint64_t r[8] = {0};
  for (k = 0; k < 64; k++) { unsigned x = 0; uint64_t y; for (i = 0; i < 8; i++) x |= (unsigned)(q[i] >> k & 1) << i; y = spec_sbox[x]; for (i = 0; i < 8; i++) r[i] |= (y >> i & 1) << k; }
  for (i = 0; i < 8; i++) q[i] = r[i];
}
#ifdef H_SBOX
#include "aes256ctr.c"
void harness_sbox(void)
{
  static uint64_t a[8], b[8]; int i; H_SECRET(a, sizeof a, "planes"); for (i = 0; i < 8; i++) b[i] = a[i];
  br_aes_ct64_bitslice_Sbox(a); sx_mark(); H_SPEC(h_sbox(b);) H_CHECK(a, b, sizeof a, "S-box");
}
#elif !defined(H_NOSPEC)
void stub_br_aes_ct64_bitslice_Sbox(uint64_t *q) { h_sbox(q); }
#endif
#endif
/* the generator the KEM uses: key from the caller, nonce zero */
void saber_aes256ctr_prf(W o, N ol, R key);
void harness_prf(void)
{
  uint8_t *key = sx_alloc(32, 1, "key"); unsigned k; static const uint8_t z[12];
  H_SECRET(key, 32, "key"); sx_readonly(key, 1);
  for (k = 0; k < sizeof h_len / sizeof h_len[0]; k++) {
    unsigned n = h_len[k]; uint8_t *out = sx_alloc(n, 1, "out");
    saber_aes256ctr_prf(out, n, key);
    sx_mark(); H_SPEC(spec_aes256ctr(h_o, n, key, z);) H_CHECK(out, h_o, n, "key stream"); sx_mark(); sx_free(out);
  }
}
/* 128-bit big-endian counter blocks: nonce n, plus k */
static void h_ctr(uint8_t *o, unsigned len, const uint8_t *key, uint64_t hi, uint64_t lo, int wraps)
{
  uint8_t rk[240], b[16]; unsigned i, j; uint8_t ks[16];
  spec_aes256_expand(rk, key);
  for (i = 0; i * 16 < len; i++) {
    uint64_t l = lo + i, h = hi; if (wraps) h = hi + (l < lo);
    for (j = 0; j < 8; j++) { b[j] = (uint8_t)(h >> (56 - 8 * j)); b[8 + j] = (uint8_t)(l >> (56 - 8 * j)); }
    spec_aes256_block(ks, b, rk); for (j = 0; j < 16 && i * 16 + j < len; j++) o[i * 16 + j] = ks[j];
  }
}
#ifdef H_AVX
int crypto_stream_aes256ctr(W o, N ol, R n, R k);
static void stream(unsigned len, int conc, uint64_t clo)
{
  uint8_t *key = sx_alloc(32, 1, "key"), *n = sx_alloc(16, 1, "nonce"), *out = sx_alloc(len, 1, "out"); unsigned i; uint64_t hi = 0, lo = 0; int r;
  H_SECRET(key, 32, "key"); sx_symbolic(n, 16, "nonce");
  if (conc) for (i = 0; i < 8; i++) n[8 + i] = (uint8_t)(clo >> (56 - 8 * i)); else n[8] &= 0x7f;
  sx_readonly(key, 1); sx_readonly(n, 1);
  r = crypto_stream_aes256ctr(out, len, n, key);
  sx_mark();
#ifndef H_NOSPEC
  for (i = 0; i < 8; i++) { hi = hi << 8 | n[i]; lo = lo << 8 | n[8 + i]; }
  h_ctr(h_o, len, key, hi, lo, conc);
#endif
  sx_assert(r == 0, "returns 0"); H_CHECK(out, h_o, len, conc ? "key stream with carry" : "key stream"); sx_mark(); sx_free(key); sx_free(n); sx_free(out);
}
void harness_stream(void) { unsigned k; for (k = 0; k < sizeof h_len / sizeof h_len[0]; k++) stream(h_len[k], 0, 0); }
#ifdef H_LO
void harness_carry(void) { uint64_t k; for (k = H_LO; k < H_HI; k++) stream(400, 1, 0 - k); for (k = 32; k < 64; k += 8) stream(400, 1, ((uint64_t)1 << k) - 3 - k / 16); }
#endif
#else
#include "aes256ctr.h"
void harness_stream(void)
{
  uint8_t *key = sx_alloc(32, 1, "key"), *n = sx_alloc(12, 1, "nonce"); unsigned k;
  H_SECRET(key, 32, "key"); sx_symbolic(n, 12, "nonce"); sx_readonly(key, 1); sx_readonly(n, 1);
  for (k = 0; k < sizeof h_len / sizeof h_len[0]; k++) {
    unsigned len = h_len[k]; uint8_t *out = sx_alloc(len, 1, "out");
    aes256ctr_prf(out, len, key, n);
    sx_mark(); H_SPEC(spec_aes256ctr(h_o, len, key, n);) H_CHECK(out, h_o, len, "key stream"); sx_mark(); sx_free(out);
  }
}
/* incremental interface, at an arbitrary point of the stream: the counter is symbolic (below 2^32 - 4 * blocks) */
void harness_blocks(void)
{
  static aes256ctr_ctx c; uint8_t key[32], n[12]; static uint8_t out[128];
  H_SECRET(key, 32, "key"); sx_symbolic(n, 12, "nonce"); 
  aes256ctr_init(&c, key, n); aes256ctr_squeezeblocks(out, 2, &c); aes256ctr_squeezeblocks(out, 0, &c);
  sx_mark(); H_SPEC(spec_aes256ctr(h_o, 128, key, n);) H_CHECK(out, h_o, 128, "two batches");
}
#endif
#endif
