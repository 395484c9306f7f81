/* Reference hash and cipher code, written from FIPS 202, FIPS 197 and FIPS 180-4. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "spec_hash.h"

static uint64_t spec_rotl64(uint64_t x, unsigned k) { k &= 63; return k ? (x << k) | (x >> (64 - k)) : x; }
static uint32_t spec_rotr32(uint32_t x, unsigned k) { return (x >> k) | (x << (32 - k)); }
static uint64_t spec_rotr64(uint64_t x, unsigned k) { return (x >> k) | (x << (64 - k)); }

/* Keccak-f[1600]; the round constants come from the LFSR of the standard */
static int spec_rc_bit(unsigned t) { unsigned r = 1, i; for (i = 0; i < t % 255; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; } return r & 1; }
uint64_t spec_keccak_rc(unsigned ir) { uint64_t rc = 0; unsigned j; for (j = 0; j < 7; j++) if (spec_rc_bit(j + 7 * ir)) rc |= (uint64_t)1 << ((1u << j) - 1); return rc; }
void spec_keccak_round(uint64_t a[25], uint64_t rc)
{
  unsigned x, y; uint64_t c[5], b[25];
  for (x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
  for (x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ spec_rotl64(c[(x + 1) % 5], 1); for (y = 0; y < 5; y++) a[x + 5 * y] ^= d; }
  {
    unsigned px = 1, py = 0, t; b[0] = a[0];
    for (t = 0; t < 24; t++) { unsigned nx = py, ny = (2 * px + 3 * py) % 5; b[nx + 5 * ny] = spec_rotl64(a[px + 5 * py], ((t + 1) * (t + 2) / 2) % 64); px = nx; py = ny; }
  }
  for (y = 0; y < 5; y++) for (x = 0; x < 5; x++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
  a[0] ^= rc;
}
void spec_keccak_f(uint64_t a[25]) { unsigned ir; for (ir = 0; ir < 24; ir++) spec_keccak_round(a, spec_keccak_rc(ir)); }
void spec_sponge(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t dom)
{
  uint64_t s[25]; size_t i, k;
  for (i = 0; i < 25; i++) s[i] = 0;
  for (i = 0, k = 0; i < inlen; i++) { s[k / 8] ^= (uint64_t)in[i] << (8 * (k % 8)); if (++k == rate) { spec_keccak_p(s); k = 0; } }
  s[k / 8] ^= (uint64_t)dom << (8 * (k % 8)); s[(rate - 1) / 8] ^= (uint64_t)0x80 << (8 * ((rate - 1) % 8));
  spec_keccak_p(s);
  for (i = 0, k = 0; i < outlen; i++) { if (k == rate) { spec_keccak_p(s); k = 0; } out[i] = (uint8_t)(s[k / 8] >> (8 * (k % 8))); k++; }
}
#ifndef SPEC_KECCAK_UF
void spec_keccak_p(uint64_t s[25]) { spec_keccak_f(s); }
#endif

/* AES-256 */
static uint8_t spec_xt(uint8_t x) { return (uint8_t)((x << 1) ^ ((x >> 7) * 0x1b)); }
const uint8_t spec_sbox[256] = {
#include "sbox.inc"
};
void spec_aes256_expand(uint8_t rk[240], const uint8_t key[32])
{
  unsigned i, j; uint8_t rc = 1;
  for (i = 0; i < 32; i++) rk[i] = key[i];
  for (i = 8; i < 60; i++) {
    uint8_t t[4]; for (j = 0; j < 4; j++) t[j] = rk[4 * (i - 1) + j];
    if (i % 8 == 0) { uint8_t u = t[0]; t[0] = (uint8_t)(spec_sbox[t[1]] ^ rc); t[1] = spec_sbox[t[2]]; t[2] = spec_sbox[t[3]]; t[3] = spec_sbox[u]; rc = spec_xt(rc); }
    else if (i % 8 == 4) for (j = 0; j < 4; j++) t[j] = spec_sbox[t[j]];
    for (j = 0; j < 4; j++) rk[4 * i + j] = (uint8_t)(rk[4 * (i - 8) + j] ^ t[j]);
  }
}
void spec_aes256_block(uint8_t out[16], const uint8_t in[16], const uint8_t rk[240])
{
  uint8_t s[16], t[16]; unsigned r, c, i;
  for (i = 0; i < 16; i++) s[i] = (uint8_t)(in[i] ^ rk[i]);
  for (r = 1; r <= 14; r++) {
    for (c = 0; c < 4; c++) for (i = 0; i < 4; i++) t[4 * c + i] = spec_sbox[s[4 * ((c + i) % 4) + i]];
    for (c = 0; c < 4; c++) {
      uint8_t *a = t + 4 * c, all = (uint8_t)(a[0] ^ a[1] ^ a[2] ^ a[3]), a0 = a[0];
      if (r < 14) for (i = 0; i < 4; i++) { uint8_t nx = i == 3 ? a0 : a[i + 1]; s[4 * c + i] = (uint8_t)(a[i] ^ all ^ spec_xt((uint8_t)(a[i] ^ nx)) ^ rk[16 * r + 4 * c + i]); }
      else for (i = 0; i < 4; i++) s[4 * c + i] = (uint8_t)(a[i] ^ rk[16 * r + 4 * c + i]);
    }
  }
  for (i = 0; i < 16; i++) out[i] = s[i];
}
/* counter mode, 12-byte nonce, 32-bit big-endian counter from 0 */
void spec_aes256ctr(uint8_t *out, size_t outlen, const uint8_t key[32], const uint8_t nonce[12])
{
  uint8_t rk[240], blk[16], ks[16]; size_t i; uint32_t ctr = 0;
  spec_aes256_expand(rk, key);
  for (i = 0; i < outlen; i++) {
    if (i % 16 == 0) { unsigned j; for (j = 0; j < 12; j++) blk[j] = nonce[j]; for (j = 0; j < 4; j++) blk[12 + j] = (uint8_t)(ctr >> (24 - 8 * j)); ctr++; spec_aes256_block(ks, blk, rk); }
    out[i] = ks[i % 16];
  }
}
/* SHA-2 */
const uint32_t spec_k256[64] = {
#include "k256.inc"
};
const uint64_t spec_k512[80] = {
#include "k512.inc"
};
void spec_sha256_block(uint32_t h[8], const uint8_t *p)
{
  uint32_t w[64], v[8]; unsigned i;
  for (i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | (uint32_t)p[4 * i + 1] << 16 | (uint32_t)p[4 * i + 2] << 8 | p[4 * i + 3];
  for (; i < 64; i++) w[i] = (spec_rotr32(w[i - 2], 17) ^ spec_rotr32(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (spec_rotr32(w[i - 15], 7) ^ spec_rotr32(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
  for (i = 0; i < 8; i++) v[i] = h[i];
  for (i = 0; i < 64; i++) {
    uint32_t t1 = v[7] + (spec_rotr32(v[4], 6) ^ spec_rotr32(v[4], 11) ^ spec_rotr32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + spec_k256[i] + w[i];
    uint32_t t2 = (spec_rotr32(v[0], 2) ^ spec_rotr32(v[0], 13) ^ spec_rotr32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
  }
  for (i = 0; i < 8; i++) h[i] += v[i];
}
void spec_sha512_block(uint64_t h[8], const uint8_t *p)
{
  uint64_t w[80], v[8]; unsigned i, j;
  for (i = 0; i < 16; i++) { w[i] = 0; for (j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8 * i + j]; }
  for (; i < 80; i++) w[i] = (spec_rotr64(w[i - 2], 19) ^ spec_rotr64(w[i - 2], 61) ^ (w[i - 2] >> 6)) + w[i - 7] + (spec_rotr64(w[i - 15], 1) ^ spec_rotr64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 16];
  for (i = 0; i < 8; i++) v[i] = h[i];
  for (i = 0; i < 80; i++) {
    uint64_t t1 = v[7] + (spec_rotr64(v[4], 14) ^ spec_rotr64(v[4], 18) ^ spec_rotr64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + spec_k512[i] + w[i];
    uint64_t t2 = (spec_rotr64(v[0], 28) ^ spec_rotr64(v[0], 34) ^ spec_rotr64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
  }
  for (i = 0; i < 8; i++) h[i] += v[i];
}
const uint32_t spec_iv256[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
const uint64_t spec_iv512[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
void spec_sha256(uint8_t out[32], const uint8_t *in, size_t n)
{
  uint32_t h[8]; uint8_t b[128]; size_t i, k; unsigned j, nb;
  for (i = 0; i < 8; i++) h[i] = spec_iv256[i];
  for (k = 0; k + 64 <= n; k += 64) spec_sha256_c(h, in + k);
  for (i = 0; i < 128; i++) b[i] = 0;
  for (i = 0; k + i < n; i++) b[i] = in[k + i];
  b[i] = 0x80; nb = i >= 56 ? 128 : 64;
  for (j = 0; j < 8; j++) b[nb - 1 - j] = (uint8_t)(((uint64_t)n * 8) >> (8 * j));
  spec_sha256_c(h, b); if (nb == 128) spec_sha256_c(h, b + 64);
  for (i = 0; i < 32; i++) out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}
void spec_sha512(uint8_t out[64], const uint8_t *in, size_t n)
{
  uint64_t h[8]; uint8_t b[256]; size_t i, k; unsigned j, nb;
  for (i = 0; i < 8; i++) h[i] = spec_iv512[i];
  for (k = 0; k + 128 <= n; k += 128) spec_sha512_c(h, in + k);
  for (i = 0; i < 256; i++) b[i] = 0;
  for (i = 0; k + i < n; i++) b[i] = in[k + i];
  b[i] = 0x80; nb = i >= 112 ? 256 : 128;
  for (j = 0; j < 8; j++) b[nb - 1 - j] = (uint8_t)(((uint64_t)n * 8) >> (8 * j));
  spec_sha512_c(h, b); if (nb == 256) spec_sha512_c(h, b + 128);
  for (i = 0; i < 64; i++) out[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8)));
}
#ifndef SPEC_SHA2_UF
void spec_sha256_c(uint32_t h[8], const uint8_t *p) { spec_sha256_block(h, p); }
void spec_sha512_c(uint64_t h[8], const uint8_t *p) { spec_sha512_block(h, p); }
#endif

#ifndef SX_ENGINE
void spec_real_uf(const char *name, void *out, size_t ol, const void *in, size_t il)
{
  static const uint8_t z[12];
  if (!strcmp(name, "shake128")) spec_sponge(out, ol, in, il, 168, 0x1f);
  else if (!strcmp(name, "sha3_256")) spec_sponge(out, ol, in, il, 136, 0x06);
  else if (!strcmp(name, "sha3_512")) spec_sponge(out, ol, in, il, 72, 0x06);
  else if (!strcmp(name, "sha256")) spec_sha256(out, in, il);
  else if (!strcmp(name, "sha512")) spec_sha512(out, in, il);
  else if (!strcmp(name, "aes256ctr")) spec_aes256ctr(out, ol, in, z);
  else if (!strcmp(name, "aes256ecb")) { uint8_t rk[240]; spec_aes256_expand(rk, in); spec_aes256_block(out, (const uint8_t *)in + 32, rk); }
  else if (!strcmp(name, "keccakf")) { uint64_t s[25]; memcpy(s, in, 200); spec_keccak_f(s); memcpy(out, s, 200); }
  else if (!strcmp(name, "sha256c")) { uint32_t h[8]; memcpy(h, in, 32); spec_sha256_block(h, (const uint8_t *)in + 32); memcpy(out, h, 32); }
  else if (!strcmp(name, "sha512c")) { uint64_t h[8]; memcpy(h, in, 64); spec_sha512_block(h, (const uint8_t *)in + 64); memcpy(out, h, 64); }
  else spec_sponge(out, ol, in, il, 168, 0x1f);
}
#endif
