/* Batched API: four slots against four independent runs of the specification. */
#include "spec_saber.h"
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
static uint8_t h_rng[512]; static unsigned h_rngpos;
int stub_randombytes(unsigned char *x, unsigned long long n)
{ unsigned long long i; for (i = 0; i < n; i++) x[i] = h_rng[h_rngpos + i]; h_rngpos += (unsigned)n; return 0; }
#ifndef SX_ENGINE
int randombytes(unsigned char *x, unsigned long long n) { return stub_randombytes(x, n); }
#endif
typedef unsigned char *W; typedef const unsigned char *R; typedef unsigned long long N;
long long stub_cpucycles(void) { return 0; }
void stub_shake128(W o, N ol, R in, N il) { sx_uf("shake128", o, ol, in, il); }
void stub_sha3_256(W o, R in, N il) { sx_uf("sha3_256", o, 32, in, il); }
void stub_sha3_512(W o, R in, N il) { sx_uf("sha3_512", o, 64, in, il); }
void stub_shake128x4(W a, W b, W c, W d, N ol, R p, R q, R r, R s, N il)
{ static uint8_t t[4][16384]; unsigned i; sx_uf("shake128", t[0], ol, p, il); sx_uf("shake128", t[1], ol, q, il); sx_uf("shake128", t[2], ol, r, il); sx_uf("shake128", t[3], ol, s, il);
  for (i = 0; i < ol; i++) { a[i] = t[0][i]; b[i] = t[1][i]; c[i] = t[2][i]; d[i] = t[3][i]; } }
static void h_x4(const char *nm, unsigned ol, W a, W b, W c, W d, R p, R q, R r, R s, N il)
{ uint8_t t[4][64]; unsigned i; sx_uf(nm, t[0], ol, p, il); sx_uf(nm, t[1], ol, q, il); sx_uf(nm, t[2], ol, r, il); sx_uf(nm, t[3], ol, s, il);
  for (i = 0; i < ol; i++) { a[i] = t[0][i]; b[i] = t[1][i]; c[i] = t[2][i]; d[i] = t[3][i]; } }
void stub_sha3_256x4(W a, W b, W c, W d, R p, R q, R r, R s, N il) { h_x4("sha3_256", 32, a, b, c, d, p, q, r, s, il); }
void stub_sha3_512x4(W a, W b, W c, W d, R p, R q, R r, R s, N il) { h_x4("sha3_512", 64, a, b, c, d, p, q, r, s, il); }
#ifndef H_ALIGN
#define H_ALIGN 1
#endif
static uint8_t h_pk[4 * SP_PKBYTES], h_sk[4 * SP_SKBYTES], h_ct[4 * SP_CTBYTES], h_ss[128];
static void h_start(void) {
  h_rngpos = 0;
#ifdef H_HAVOC
  sx_havoc_globals(H_HAVOC);
#endif
}
void harness_keygen(void)
{
  uint8_t *pk = sx_alloc(4 * SP_PKBYTES, H_ALIGN, "pk"), *sk = sx_alloc(4 * SP_SKBYTES, H_ALIGN, "sk"); int r, i;
  H_SECRET(h_rng, 384, "rng"); h_start();
  r = crypto_kem_keypair(pk, sk);
  sx_mark(); H_SPEC(for (i = 0; i < 4; i++) spec_keypair(h_pk + i * SP_PKBYTES, h_sk + i * SP_SKBYTES, h_rng + 96 * i);)
  H_RETURNS(r == 0, "keypair returns 0");
  sx_assert(h_rngpos == 384, "4 x 96 random bytes used");
  H_CHECK(pk, h_pk, 4 * SP_PKBYTES, "pk"); H_CHECK(sk, h_sk, 4 * SP_SKBYTES, "sk");
}
void harness_enc(void)
{
  uint8_t *pk = sx_alloc(4 * SP_PKBYTES, H_ALIGN, "pk"), *ct = sx_alloc(4 * SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(128, H_ALIGN, "ss"); int r, i;
  H_PUBLIC(pk, 4 * SP_PKBYTES, "pk"); H_SECRET(h_rng, 128, "rng"); h_start();
  sx_readonly(pk, 1);
  r = crypto_kem_enc(ct, ss, pk);
  sx_mark(); H_SPEC(for (i = 0; i < 4; i++) spec_enc(h_ct + i * SP_CTBYTES, h_ss + 32 * i, pk + i * SP_PKBYTES, h_rng + 32 * i);)
  H_RETURNS(r == 0, "enc returns 0");
  sx_assert(h_rngpos == 128, "4 x 32 random bytes used");
  H_CHECK(ct, h_ct, 4 * SP_CTBYTES, "ct"); H_CHECK(ss, h_ss, 128, "ss");
}
void harness_dec(void)
{
  uint8_t *sk = sx_alloc(4 * SP_SKBYTES, H_ALIGN, "sk"), *ct = sx_alloc(4 * SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(128, H_ALIGN, "ss"); int r, i;
  H_SECRET(sk, 4 * SP_SKBYTES, "sk"); H_PUBLIC(ct, 4 * SP_CTBYTES, "ct"); h_start();
  sx_readonly(sk, 1); sx_readonly(ct, 1);
  r = crypto_kem_dec(ss, ct, sk);
  sx_mark(); H_SPEC(for (i = 0; i < 4; i++) spec_dec(h_ss + 32 * i, ct + i * SP_CTBYTES, sk + i * SP_SKBYTES);)
  H_RETURNS(r == 0, "dec returns 0");
  sx_assert(h_rngpos == 0, "no random bytes used");
  H_CHECK(ss, h_ss, 128, "ss");
}
#ifndef SX_ENGINE
void h_gen(const uint8_t *rnd)
{
  int i; uint8_t r[96]; unsigned k;
  for (i = 0; i < 4; i++) { for (k = 0; k < 96; k++) r[k] = rnd[k] ^ (uint8_t)(i * 77); spec_keypair(h_pk + i * SP_PKBYTES, h_sk + i * SP_SKBYTES, r); spec_enc(h_ct + i * SP_CTBYTES, h_ss + 32 * i, h_pk + i * SP_PKBYTES, rnd + 96 + 32 * i); }
  sx_set("pk", h_pk, sizeof h_pk); sx_set("sk", h_sk, sizeof h_sk); sx_set("ct", h_ct, sizeof h_ct);
}
#endif
