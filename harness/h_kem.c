/* Top-level KEM harness: the three API calls against the specification. */
#include "spec_saber.h"
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);

static uint8_t h_rng[256]; static unsigned h_rngpos;
int stub_randombytes(unsigned char *x, unsigned long long n)
{ unsigned long long i; for (i = 0; i < n; i++) x[i] = h_rng[h_rngpos + i]; h_rngpos += (unsigned)n; return 0; }
#ifndef SX_ENGINE
int randombytes(unsigned char *x, unsigned long long n) { return stub_randombytes(x, n); }
#endif
long long stub_cpucycles(void) { return 0; }
#ifdef H_M0
/* the Cortex-M0 code calls the sponge piecewise: its fips202.c runs for real, the permutation is uninterpreted */
#include "spec_hash.h"
static void h_perm(uint64_t *s) { uint64_t t[25]; int i; for (i = 0; i < 25; i++) t[i] = s[i]; sx_uf("keccakf", s, 200, t, 200); }
void spec_keccak_p(uint64_t *s) { h_perm(s); }
#include "m0_keccak.h"
/* contract of the message decoder, decided for all values by harness_keybits */
void h_keybits(const uint16_t *v, const unsigned char *ar, uint16_t *m)
{
  int i;
  for (i = 0; i < SP_N; i++) m[i] = (uint16_t)(((uint32_t)v[i] + 224u - ((uint32_t)((ar[i / 2] >> (4 * (i & 1))) & 15) << 6)) >> 9 & 1);
}
#if !defined H_KEYBITS && !defined H_NOSPEC
void stub_ExtractKeyBits(uint16_t *v, unsigned char *ar, uint16_t *m)
{
  int i; for (i = 0; i < SP_N; i++) sx_assert(v[i] < 1024, "decoder input is reduced mod p");
  h_keybits(v, ar, m);
}
#elif defined H_KEYBITS
void ExtractKeyBits(uint16_t *v, unsigned char *ar, uint16_t *m);
void harness_keybits(void)
{
  static uint16_t v[SP_N], a[SP_N], b[SP_N]; static uint8_t ar[SP_N / 2]; int i;
  sx_symbolic(v, sizeof v, "v"); sx_symbolic(ar, sizeof ar, "ar"); sx_symbolic(a, sizeof a, "old");
  for (i = 0; i < SP_N; i++) v[i] &= 1023;
  ExtractKeyBits(v, ar, a); sx_mark(); h_keybits(v, ar, b);
  sx_check_eq(a, b, sizeof a, "message bits");
}
#endif
#else
void stub_shake128(unsigned char *o, unsigned long long ol, const unsigned char *in, unsigned long long il) { sx_uf("shake128", o, ol, in, il); }
void stub_sha3_256(unsigned char *o, const unsigned char *in, unsigned long long il) { sx_uf("sha3_256", o, 32, in, il); }
void stub_sha3_512(unsigned char *o, const unsigned char *in, unsigned long long il) { sx_uf("sha3_512", o, 64, in, il); }
#endif
#if SP_90S
void stub_sha256(unsigned char *o, const unsigned char *in, unsigned long long il) { sx_uf("sha256", o, 32, in, il); }
void stub_sha512(unsigned char *o, const unsigned char *in, unsigned long long il) { sx_uf("sha512", o, 64, in, il); }
unsigned char *stub_SHA256(const unsigned char *in, size_t il, unsigned char *o) { sx_uf("sha256", o, 32, in, il); return o; }
unsigned char *stub_SHA512(const unsigned char *in, size_t il, unsigned char *o) { sx_uf("sha512", o, 64, in, il); return o; }
void stub_saber_aes256ctr_prf(unsigned char *o, unsigned long long ol, const unsigned char *in) { sx_uf("aes256ctr", o, ol, in, 32); }
#endif

#ifndef H_ALIGN
#define H_ALIGN 1
#endif
static uint8_t h_pk[SP_PKBYTES], h_sk[SP_SKBYTES], h_ct[SP_CTBYTES], h_ss[32];
static void h_start(void) {
  h_rngpos = 0;
#ifdef H_HAVOC
  sx_havoc_globals(H_HAVOC);
#endif
}
void harness_keygen(void)
{
  uint8_t *pk = sx_alloc(SP_PKBYTES, H_ALIGN, "pk"), *sk = sx_alloc(SP_SKBYTES, H_ALIGN, "sk"); int r;
  H_SECRET(h_rng, 96, "rng"); h_start();
  r = crypto_kem_keypair(pk, sk);
  sx_mark(); H_SPEC(spec_keypair(h_pk, h_sk, h_rng);)
  H_RETURNS(r == 0, "keypair returns 0");
  sx_assert(h_rngpos == 96, "96 random bytes used");
  H_CHECK(pk, h_pk, SP_PKBYTES, "pk"); H_CHECK(sk, h_sk, SP_SKBYTES, "sk");
}
void harness_enc(void)
{
  uint8_t *pk = sx_alloc(SP_PKBYTES, H_ALIGN, "pk"), *ct = sx_alloc(SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(32, H_ALIGN, "ss"); int r;
  H_PUBLIC(pk, SP_PKBYTES, "pk"); H_SECRET(h_rng, 32, "rng"); h_start();
  sx_readonly(pk, 1);
  r = crypto_kem_enc(ct, ss, pk);
  sx_mark(); H_SPEC(spec_enc(h_ct, h_ss, pk, h_rng);)
  H_RETURNS(r == 0, "enc returns 0");
  sx_assert(h_rngpos == 32, "32 random bytes used");
  H_CHECK(ct, h_ct, SP_CTBYTES, "ct"); H_CHECK(ss, h_ss, 32, "ss");
}
void harness_dec(void)
{
  uint8_t *sk = sx_alloc(SP_SKBYTES, H_ALIGN, "sk"), *ct = sx_alloc(SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(32, H_ALIGN, "ss"); int r;
  H_SECRET(sk, SP_SKBYTES, "sk"); H_PUBLIC(ct, SP_CTBYTES, "ct"); h_start();
  sx_readonly(sk, 1); sx_readonly(ct, 1);
  r = crypto_kem_dec(ss, ct, sk);
  sx_mark(); H_SPEC(spec_dec(h_ss, ct, sk);)
  H_RETURNS(r == 0, "dec returns 0");
  sx_assert(h_rngpos == 0, "no random bytes used");
  H_CHECK(ss, h_ss, 32, "ss");
}
#ifndef SX_ENGINE
/* honest inputs for the native replay */
void h_gen(const uint8_t *rnd)
{
  spec_keypair(h_pk, h_sk, rnd); spec_enc(h_ct, h_ss, h_pk, rnd + 96);
  sx_set("pk", h_pk, SP_PKBYTES); sx_set("sk", h_sk, SP_SKBYTES); sx_set("ct", h_ct, SP_CTBYTES); sx_set("skpub", h_sk + SP_SK0BYTES, SP_PKBYTES + 32);
}
#endif
