/* SHA-3 / SHAKE functions against FIPS 202, contents symbolic, lengths enumerated */
#include "spec_saber.h"
#include "spec_hash.h"
typedef unsigned char *W; typedef const unsigned char *R; typedef unsigned long long N;
void shake128(W o, N ol, R in, N il); void shake256(W o, N ol, R in, N il); void sha3_256(W o, R in, N il); void sha3_512(W o, R in, N il);
void shake128x4(W, W, W, W, N, R, R, R, R, N); void shake256x4(W, W, W, W, N, R, R, R, R, N);
void sha3_256x4(W, W, W, W, R, R, R, R, N); void sha3_512x4(W, W, W, W, R, R, R, R, N);
#ifdef SPEC_KECCAK_UF
static void h_perm(uint64_t *s) { uint64_t t[25]; int i; for (i = 0; i < 25; i++) t[i] = s[i]; sx_uf("keccakf", s, 200, t, 200); }
void spec_keccak_p(uint64_t *s) { h_perm(s); }
#ifndef H_M0
void stub_KeccakF1600_StatePermute(uint64_t *s) { h_perm(s); }
#else
#include "m0_keccak.h"
#endif
void stub_KeccakP1600times4_PermuteAll_24rounds(void *st)
{ uint64_t *p = st, t[25]; int i, k; for (k = 0; k < 4; k++) { for (i = 0; i < 25; i++) t[i] = p[4 * i + k]; h_perm(t); for (i = 0; i < 25; i++) p[4 * i + k] = t[i]; } }
#endif
static uint8_t h_a[16384], h_cs[168 + 8192];
enum { F_SHAKE128 = 1, F_SHAKE256 = 2, F_SHA3_256 = 4, F_SHA3_512 = 8, F_CSHAKE128 = 16, F_CSHAKE256 = 32 };
void cshake128_simple(W o, N ol, uint16_t cstm, R in, N il); void cshake256_simple(W o, N ol, uint16_t cstm, R in, N il);
#ifndef H_FUNCS
#define H_FUNCS 13
#endif
static void one(int f, unsigned il, unsigned ol)
{
  uint8_t *in = sx_alloc(il, 1, "in"), *out = sx_alloc(ol, 1, "out"); unsigned rate = 0, dom = 0;
  H_SECRET(in, il, "in"); sx_readonly(in, 1);
  switch (f) {
#if H_FUNCS & 1
  case F_SHAKE128: shake128(out, ol, in, il); rate = 168; dom = 0x1f; break;
#endif
#if H_FUNCS & 48
  case F_CSHAKE128: case F_CSHAKE256: {   /* cSHAKE with an empty function name and a two-byte customisation string */
    uint16_t cu; unsigned i; sx_symbolic(&cu, 2, "cstm"); rate = f == F_CSHAKE128 ? 168 : 136;
#if H_FUNCS & 16
    if (f == F_CSHAKE128) cshake128_simple(out, ol, cu, in, il);
#endif
#if H_FUNCS & 32
    if (f == F_CSHAKE256) cshake256_simple(out, ol, cu, in, il);
#endif
    sx_mark(); for (i = 0; i < 168; i++) h_cs[i] = 0;
    h_cs[0] = 1; h_cs[1] = (uint8_t)rate; h_cs[2] = 1; h_cs[4] = 1; h_cs[5] = 16; h_cs[6] = (uint8_t)cu; h_cs[7] = (uint8_t)(cu >> 8);
    for (i = 0; i < il; i++) h_cs[rate + i] = in[i];
    H_SPEC(spec_sponge(h_a, ol, h_cs, il + rate, rate, 4);) H_CHECK(out, h_a, ol, f == F_CSHAKE128 ? "cshake128" : "cshake256"); sx_mark(); sx_free(in); sx_free(out); return; }
#endif
#if H_FUNCS & 2
  case F_SHAKE256: shake256(out, ol, in, il); rate = 136; dom = 0x1f; break;
#endif
#if H_FUNCS & 4
  case F_SHA3_256: sha3_256(out, in, il); rate = 136; dom = 6; break;
#endif
#if H_FUNCS & 8
  case F_SHA3_512: sha3_512(out, in, il); rate = 72; dom = 6; break;
#endif
  }
  sx_mark(); H_SPEC(spec_sponge(h_a, ol, in, il, rate, (uint8_t)dom);)
  H_CHECK(out, h_a, ol, rate == 168 ? "shake128" : rate == 72 ? "sha3_512" : dom == 6 ? "sha3_256" : "shake256");
  sx_mark(); sx_free(in); sx_free(out);
}
static void same(int f, unsigned il, unsigned ol)
{
  unsigned m = il > ol ? il : ol, i; uint8_t *io = sx_alloc(m, 1, "io"); uint8_t c[256]; unsigned rate = 168, dom = 0x1f;
  H_SECRET(io, m, "io"); for (i = 0; i < m; i++) c[i] = io[i];
  switch (f) {
#if H_FUNCS & 1
  case F_SHAKE128: shake128(io, ol, io, il); break;
#endif
#if H_FUNCS & 4
  case F_SHA3_256: sha3_256(io, io, il); rate = 136; dom = 6; break;
#endif
#if H_FUNCS & 8
  case F_SHA3_512: sha3_512(io, io, il); rate = 72; dom = 6; break;
#endif
  }
  sx_mark(); H_SPEC(spec_sponge(h_a, ol, c, il, rate, (uint8_t)dom);) H_CHECK(io, h_a, ol, "in place"); sx_mark(); sx_free(io);
}
#ifdef H_X4
static void four(int f, unsigned il, unsigned ol)
{
  static const char *nin[4] = {"in0", "in1", "in2", "in3"};
  uint8_t *in[4], *out[4]; unsigned rate = 0, dom = 0; int k;
  for (k = 0; k < 4; k++) { in[k] = sx_alloc(il, 1, nin[k]); out[k] = sx_alloc(ol, 1, "out"); H_SECRET(in[k], il, nin[k]); sx_readonly(in[k], 1); }
  switch (f) {
  case F_SHAKE128: shake128x4(out[0], out[1], out[2], out[3], ol, in[0], in[1], in[2], in[3], il); rate = 168; dom = 0x1f; break;
  case F_SHAKE256: shake256x4(out[0], out[1], out[2], out[3], ol, in[0], in[1], in[2], in[3], il); rate = 136; dom = 0x1f; break;
  case F_SHA3_256: sha3_256x4(out[0], out[1], out[2], out[3], in[0], in[1], in[2], in[3], il); rate = 136; dom = 6; break;
  case F_SHA3_512: sha3_512x4(out[0], out[1], out[2], out[3], in[0], in[1], in[2], in[3], il); rate = 72; dom = 6; break;
  }
  sx_mark();
  for (k = 0; k < 4; k++) { H_SPEC(spec_sponge(h_a, ol, in[k], il, rate, (uint8_t)dom);) H_CHECK(out[k], h_a, ol, "batched slot"); }
  sx_mark();
  for (k = 0; k < 4; k++) { sx_free(in[k]); sx_free(out[k]); }
}
#else
#define four one
#endif
#ifndef H_LO
#define H_LO 0
#define H_HI 300
#endif
/* every message length in the range */
void harness_inlen(void) { unsigned n; for (n = H_LO; n < H_HI; n++) { 
#if H_FUNCS & 1
 one(F_SHAKE128, n, 32);
#endif
#if H_FUNCS & 2
 one(F_SHAKE256, n, 32);
#endif
#if H_FUNCS & 4
 one(F_SHA3_256, n, 32);
#endif
#if H_FUNCS & 8
 one(F_SHA3_512, n, 64);
#endif
#if H_FUNCS & 16
 one(F_CSHAKE128, n, 32);
#endif
#if H_FUNCS & 32
 one(F_CSHAKE256, n, 32);
#endif
} }
/* output written over the input, as the key generation does */
void harness_inplace(void) { unsigned n; for (n = 32; n <= 64; n += 32) {
#if H_FUNCS & 1
 same(F_SHAKE128, n, n);
#endif
#if H_FUNCS & 4
 same(F_SHA3_256, n, 32);
#endif
#if H_FUNCS & 8
 same(F_SHA3_512, n, 64);
#endif
} }
/* every output length in the range */
void harness_outlen(void) { unsigned n; for (n = H_LO; n < H_HI; n++) {
#if H_FUNCS & 1
 one(F_SHAKE128, 32, n);
#endif
#if H_FUNCS & 2
 one(F_SHAKE256, 32, n);
#endif
#if H_FUNCS & 16
 one(F_CSHAKE128, 32, n);
#endif
#if H_FUNCS & 32
 one(F_CSHAKE256, 32, n);
#endif
} }
/* the output lengths the KEMs ask for */
void harness_kemlen(void) { static const unsigned l[] = {512, 768, 1024, 1280, 1536, 1664, 1920, 3328, 3744, 6144, 6656}; unsigned i; for (i = 0; i < sizeof l / sizeof l[0]; i++) {
#if H_FUNCS & 1
 one(F_SHAKE128, 32, l[i]);
#endif
} }
#ifdef H_X4
void harness_inlen4(void) { unsigned n; for (n = H_LO; n < H_HI; n++) { four(F_SHAKE128, n, 32); four(F_SHAKE256, n, 32); four(F_SHA3_256, n, 32); four(F_SHA3_512, n, 64); } }
void harness_outlen4(void) { unsigned n; for (n = H_LO; n < H_HI; n++) { four(F_SHAKE128, 32, n); four(F_SHAKE256, 32, n); } }
void harness_kemlen4(void) { static const unsigned l[] = {1024, 3744}; unsigned i; for (i = 0; i < 2; i++) four(F_SHAKE128, 32, l[i]); for (i = 992; i <= 1088; i += 96) { four(F_SHA3_256, i, 32); four(F_SHA3_512, i, 64); } }
#endif
