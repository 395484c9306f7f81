/* Stand-ins for what the Cortex-M4 code takes from pqm4 (hashes, random bytes) and, with H_POLYSTUB, for the polynomial
   multiplier, which C07 decides.  The multiplier's contract: result right modulo 2^13, higher bits arbitrary, second operand destroyed. */
#include "api.h"
#include "SABER_params.h"
#include "fips202.h"
#include "spec_saber.h"
#ifdef SX_ENGINE
#define H_NAME(x) stub_##x
#else
#define H_NAME(x) x
#endif
static uint8_t h_rng[128]; static unsigned h_rngpos;
int H_NAME(randombytes)(uint8_t *x, size_t n) { size_t i; for (i = 0; i < n; i++) x[i] = h_rng[h_rngpos + i]; h_rngpos += (unsigned)n; return 0; }
void H_NAME(shake128)(uint8_t *o, size_t ol, const uint8_t *in, size_t il) { sx_uf("shake128", o, ol, in, il); }
void H_NAME(sha3_256)(uint8_t *o, const uint8_t *in, size_t il) { sx_uf("sha3_256", o, 32, in, il); }
void H_NAME(sha3_512)(uint8_t *o, const uint8_t *in, size_t il) { sx_uf("sha3_512", o, 64, in, il); }
/* incremental SHAKE-128: the whole message is kept in the context, the stream position in the last word */
void H_NAME(shake128_inc_init)(shake128incctx *c) { unsigned i; for (i = 0; i < 26; i++) c->ctx[i] = 0; }
void H_NAME(shake128_inc_absorb)(shake128incctx *c, const uint8_t *in, size_t n)
{ size_t at = (size_t)c->ctx[24], i; uint8_t *b = (uint8_t *)c->ctx; sx_assert(at + n <= 192 && c->ctx[25] == 0, "absorb before finalize"); for (i = 0; i < n; i++) b[at + i] = in[i]; c->ctx[24] = at + n; }
void H_NAME(shake128_inc_finalize)(shake128incctx *c) { sx_assert(c->ctx[25] == 0, "finalize once"); c->ctx[25] = 1; }
void H_NAME(shake128_inc_squeeze)(uint8_t *o, size_t n, shake128incctx *c)
{ static uint8_t h_stream[16384]; size_t at, i; sx_assert(c->ctx[25] != 0, "squeeze after finalize"); at = (size_t)c->ctx[25] - 1;
  sx_uf("shake128", h_stream, at + n, c->ctx, (size_t)c->ctx[24]); for (i = 0; i < n; i++) o[i] = h_stream[at + i]; c->ctx[25] += n; }
void H_NAME(shake128_inc_ctx_release)(shake128incctx *c) { unsigned i; for (i = 0; i < 26; i++) c->ctx[i] = 0; }
#ifdef H_POLYSTUB
static char h_nm[] = "junk000", h_nb[] = "lost000";   /* a fresh name, hence fresh variables, for each call */
static void h_mul(uint16_t *a, uint16_t *b, uint16_t *res, int acc)
{
  int p; for (p = 6; p > 3; p--) { if (h_nm[p] != '9') { h_nm[p]++; h_nb[p]++; break; } h_nm[p] = h_nb[p] = '0'; }
#ifdef H_NOSPEC
  (void)acc; sx_defined(a, 512, "first operand"); H_SECRET(res, 512, h_nm); H_SECRET(b, 512, h_nb);
#else
  { static uint16_t h_t[256], h_j[256]; unsigned i; for (i = 0; i < 256; i++) h_t[i] = acc ? res[i] : 0; spec_mulacc(h_t, a, b);
  sx_symbolic(h_j, 512, h_nm); for (i = 0; i < 256; i++) res[i] = (uint16_t)((h_t[i] & 8191) | (h_j[i] & 0xe000));
  sx_symbolic(b, 512, h_nb); }
#endif
}
void H_NAME(poly_mul)(uint16_t a[256], uint16_t b[256], uint16_t res[256]) { h_mul(a, b, res, 0); }
void H_NAME(poly_mul_acc)(uint16_t a[256], uint16_t b[256], uint16_t res[256]) { h_mul(a, b, res, 1); }
#endif

#ifndef H_ALIGN
#define H_ALIGN 1
#endif
static uint8_t h_pk[SP_PKBYTES], h_sk[SP_SKBYTES], h_ct[SP_CTBYTES], h_ss[32];
static void h_start(void) {
  h_rngpos = 0;
#ifdef H_POLYSTUB
  h_nm[4] = h_nm[5] = h_nm[6] = h_nb[4] = h_nb[5] = h_nb[6] = '0';
#endif
#ifdef H_HAVOC
  sx_havoc_globals(H_HAVOC);
#endif
}
#ifdef H_KEM
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
void harness_keygen(void)
{
  uint8_t *pk = sx_alloc(SP_PKBYTES, H_ALIGN, "pk"), *sk = sx_alloc(SP_SKBYTES, H_ALIGN, "sk"); int r;
  H_SECRET(h_rng, 96, "rng"); h_start();
  r = crypto_kem_keypair(pk, sk);
  sx_mark(); H_SPEC(spec_keypair(h_pk, h_sk, h_rng);)
  H_RETURNS(r == 0, "keypair returns 0"); sx_assert(h_rngpos == 96, "96 random bytes used");
  H_CHECK(pk, h_pk, SP_PKBYTES, "pk"); H_CHECK(sk, h_sk, SP_SKBYTES, "sk");
}
void harness_enc(void)
{
  uint8_t *pk = sx_alloc(SP_PKBYTES, H_ALIGN, "pk"), *ct = sx_alloc(SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(32, H_ALIGN, "ss"); int r;
  H_PUBLIC(pk, SP_PKBYTES, "pk"); H_SECRET(h_rng, 32, "rng"); h_start();
  sx_readonly(pk, 1);
  r = crypto_kem_enc(ct, ss, pk);
  sx_mark(); H_SPEC(spec_enc(h_ct, h_ss, pk, h_rng);)
  H_RETURNS(r == 0, "enc returns 0"); sx_assert(h_rngpos == 32, "32 random bytes used");
  H_CHECK(ct, h_ct, SP_CTBYTES, "ct"); H_CHECK(ss, h_ss, 32, "ss");
}
void harness_dec(void)
{
  uint8_t *sk = sx_alloc(SP_SKBYTES, H_ALIGN, "sk"), *ct = sx_alloc(SP_CTBYTES, H_ALIGN, "ct"), *ss = sx_alloc(32, H_ALIGN, "ss"); int r;
  H_SECRET(sk, SP_SKBYTES, "sk"); H_PUBLIC(ct, SP_CTBYTES, "ct"); h_start();
  sx_readonly(sk, 1); sx_readonly(ct, 1);
  r = crypto_kem_dec(ss, ct, sk);
  sx_mark(); H_SPEC(spec_dec(h_ss, ct, sk);)
  H_RETURNS(r == 0, "dec returns 0"); sx_assert(h_rngpos == 0, "no random bytes used");
  H_CHECK(ss, h_ss, 32, "ss");
}
#ifndef SX_ENGINE
void h_gen(const uint8_t *rnd)
{
  spec_keypair(h_pk, h_sk, rnd); spec_enc(h_ct, h_ss, h_pk, rnd + 96);
  sx_set("pk", h_pk, SP_PKBYTES); sx_set("sk", h_sk, SP_SKBYTES); sx_set("ct", h_ct, SP_CTBYTES); sx_set("skpub", h_sk + SP_SK0BYTES, SP_PKBYTES + 32);
}
#endif
#endif
