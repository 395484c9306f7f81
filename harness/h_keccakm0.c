/* The Keccak assembly of the Cortex-M0 code keeps each 64-bit lane as two 32-bit words, the even and the odd bits.
   harness_perm:   24 rounds of the assembly = 24 rounds of the specification carried out on the split lanes
   harness_round:  one specification round on split lanes = the split of one FIPS 202 round (hence so are 24)
   harness_xor / harness_extract: bytes go in and out of the split lanes as FIPS 202 orders them */
#include <stdint.h>
#include "spec_saber.h"
#include "spec_hash.h"
void KeccakF1600_StatePermute(void *state);
void KeccakF1600_StateInitialize(void *state);
void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
#ifndef H_ROUNDS
#define H_ROUNDS 24
#endif
static uint32_t h_even(uint64_t x) { uint32_t r = 0; unsigned i; for (i = 0; i < 32; i++) r |= (uint32_t)((x >> (2 * i)) & 1) << i; return r; }
static void h_split(uint32_t o[50], const uint64_t a[25]) { unsigned i; for (i = 0; i < 25; i++) { o[2 * i] = h_even(a[i]); o[2 * i + 1] = h_even(a[i] >> 1); } }
static uint32_t h_rot(uint32_t x, unsigned k) { k &= 31; return k ? (x << k) | (x >> (32 - k)) : x; }
static void h_rotl(uint32_t o[2], const uint32_t a[2], unsigned k)
{ if (k % 2) { o[0] = h_rot(a[1], (k + 1) / 2); o[1] = h_rot(a[0], k / 2); } else { o[0] = h_rot(a[0], k / 2); o[1] = h_rot(a[1], k / 2); } }
static void h_round(uint32_t a[25][2], uint64_t rc)
{
  unsigned x, y, z; uint32_t c[5][2], d[2], b[25][2];
  for (x = 0; x < 5; x++) for (z = 0; z < 2; z++) c[x][z] = a[x][z] ^ a[x + 5][z] ^ a[x + 10][z] ^ a[x + 15][z] ^ a[x + 20][z];
  for (x = 0; x < 5; x++) { h_rotl(d, c[(x + 1) % 5], 1); for (y = 0; y < 5; y++) for (z = 0; z < 2; z++) a[x + 5 * y][z] ^= d[z] ^ c[(x + 4) % 5][z]; }
  { unsigned px = 1, py = 0, t; b[0][0] = a[0][0]; b[0][1] = a[0][1];
    for (t = 0; t < 24; t++) { unsigned nx = py, ny = (2 * px + 3 * py) % 5; h_rotl(b[nx + 5 * ny], a[px + 5 * py], ((t + 1) * (t + 2) / 2) % 64); px = nx; py = ny; } }
  for (y = 0; y < 5; y++) for (x = 0; x < 5; x++) for (z = 0; z < 2; z++) a[x + 5 * y][z] = b[x + 5 * y][z] ^ (~b[(x + 1) % 5 + 5 * y][z] & b[(x + 2) % 5 + 5 * y][z]);
  a[0][0] ^= h_even(rc); a[0][1] ^= h_even(rc >> 1);
}
void harness_perm(void)
{
  uint32_t *s = sx_alloc(200, 4, "state"), w[50]; unsigned i;
  H_SECRET(s, 200, "state");
  for (i = 0; i < 50; i++) w[i] = s[i];
  KeccakF1600_StatePermute(s);
  sx_mark(); H_SPEC(for (i = 0; i < H_ROUNDS; i++) h_round((uint32_t (*)[2])w, spec_keccak_rc(i));)
  H_CHECK(s, w, 200, "state after the permutation");
}
void harness_round(void)
{
  uint64_t a[25], b[25]; uint32_t s[50], w[50]; unsigned i; uint64_t rc;
  sx_symbolic(a, 200, "state"); sx_symbolic(&rc, 8, "constant");
  h_split(s, a); for (i = 0; i < 25; i++) b[i] = a[i];
  h_round((uint32_t (*)[2])s, rc); spec_keccak_round(b, rc); h_split(w, b);
  sx_check_eq(s, w, 200, "one round on split lanes");
}
#define H_MAX 176
static void h_xor(unsigned off, unsigned len, unsigned mis)
{
  uint32_t *s = sx_alloc(200, 4, "state"), w[50]; uint64_t t[25]; uint8_t *d = (uint8_t *)sx_alloc(len + 4, 4, "data") + mis; unsigned i;
  H_SECRET(s, 200, "state"); H_SECRET(d, len, "data");
  for (i = 0; i < 25; i++) t[i] = 0;
  for (i = 0; i < len; i++) t[(off + i) / 8] ^= (uint64_t)d[i] << (8 * ((off + i) % 8));
  h_split(w, t); for (i = 0; i < 50; i++) w[i] ^= s[i];
  sx_readonly(d - mis, 1); KeccakF1600_StateXORBytes(s, d, off, len); sx_readonly(d - mis, 0);
  sx_check_eq(s, w, 200, "state after xoring bytes"); sx_free(s); sx_free(d - mis);
}
static void h_ext(unsigned off, unsigned len, unsigned mis)
{
  uint32_t *s = sx_alloc(200, 4, "state"), w[50]; uint64_t t[25]; uint8_t *D = (uint8_t *)sx_alloc(len + 8, 4, "out"), *d = D + mis; unsigned i; static uint8_t o[H_MAX + 8], g[H_MAX + 8];
  sx_symbolic(t, 200, "state"); h_split(w, t); for (i = 0; i < 50; i++) s[i] = w[i];
  sx_symbolic(D, len + 8, "out"); for (i = 0; i < len + 8; i++) o[i] = D[i];
  for (i = 0; i < len; i++) o[mis + i] = (uint8_t)(t[(off + i) / 8] >> (8 * ((off + i) % 8)));
  KeccakF1600_StateExtractBytes(s, d, off, len);
  sx_check_eq(D, o, len + 8, "extracted bytes"); sx_check_eq(s, w, 200, "state is left alone"); sx_free(s); sx_free(D); (void)g;
}
void harness_xor(void) { unsigned n, m; for (m = 0; m < 4; m++) for (n = 0; n <= 168; n += n < 17 || n == 167 ? 1 : n == 17 ? 150 : 1) h_xor(0, n, m); for (m = 1; m < 8; m++) for (n = 1; n < 12; n++) h_xor(16 + m, n, n % 4); h_xor(167, 1, 0); h_xor(135, 1, 1); h_xor(71, 1, 2); }
void harness_extract(void) { unsigned n, m; for (m = 0; m < 4; m++) for (n = 0; n <= 168; n += n < 17 || n == 167 ? 1 : n == 17 ? 150 : 1) h_ext(0, n, m); for (m = 1; m < 8; m++) for (n = 1; n < 12; n++) h_ext(16 + m, n, n % 4); }
void harness_init(void) { uint32_t *s = sx_alloc(200, 4, "state"), z[50]; unsigned i; sx_symbolic(s, 200, "state"); for (i = 0; i < 50; i++) z[i] = 0; KeccakF1600_StateInitialize(s); sx_check_eq(s, z, 200, "cleared state"); }
