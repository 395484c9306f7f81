/* the whole secret vector from its seed, values taken modulo the larger modulus */
#include "spec_saber.h"
#ifdef H_M0
/* the Cortex-M0 sampler squeezes block by block: its fips202.c runs for real, the permutation is uninterpreted */
#include "spec_hash.h"
static void h_perm(uint64_t *s) { uint64_t t[25]; int i; for (i = 0; i < 25; i++) t[i] = s[i]; sx_uf("keccakf", s, 200, t, 200); }
void spec_keccak_p(uint64_t *s) { h_perm(s); }
#include "m0_keccak.h"
#endif
#define QM ((1 << SP_EQ) - 1)
static uint16_t h_s[4][SP_L * 256], h_w2[SP_L * 256]; static uint8_t h_coins[SP_L * SP_COINS];
static void h_expect(const uint8_t *seed) { unsigned i; spec_prf(h_coins, sizeof h_coins, seed, 32); for (i = 0; i < SP_L; i++) spec_sample(h_w2 + 256 * i, h_coins + SP_COINS * i); for (i = 0; i < SP_L * 256; i++) h_w2[i] &= QM; }
static void h_maskq(uint16_t *s) { unsigned i; for (i = 0; i < SP_L * 256; i++) s[i] &= QM; }
#ifdef H_M4
void GenSecret(uint16_t s[SP_L][256], uint8_t seed[32], int keypair);
void harness_gensecret(void)
{
  uint8_t *seed = sx_alloc(32, 1, "seed"); sx_symbolic(seed, 32, "seed"); sx_readonly(seed, 1);
  GenSecret((uint16_t (*)[256])h_s[0], seed, 0);
  sx_mark(); h_expect(seed); h_maskq(h_s[0]); sx_check_eq(h_s[0], h_w2, SP_L * 512, "secret vector");
}
void harness_gensecret_pack(void)
{
  uint8_t *sk = sx_alloc(SP_SK0BYTES, 1, "seed"), seed[32]; static uint8_t want[SP_SK0BYTES]; unsigned i;
  sx_symbolic(sk, 32, "seed"); for (i = 0; i < 32; i++) seed[i] = sk[i];
  GenSecret((uint16_t (*)[256])h_s[0], sk, 1);
  sx_mark(); h_expect(seed); h_maskq(h_s[0]); sx_check_eq(h_s[0], h_w2, SP_L * 512, "secret vector");
  spec_pack(want, h_w2, SP_L * 256, SP_SKBITS); sx_check_eq(sk, want, SP_SK0BYTES, "packed secret");
}
#else
void GenSecret(uint16_t r[SP_L][256], const unsigned char *seed);
void harness_gensecret(void)
{
  uint8_t *seed = sx_alloc(32, 1, "seed"); sx_symbolic(seed, 32, "seed"); sx_readonly(seed, 1);
  GenSecret((uint16_t (*)[256])h_s[0], seed);
  sx_mark(); h_expect(seed); h_maskq(h_s[0]); sx_check_eq(h_s[0], h_w2, SP_L * 512, "secret vector");
}
#ifdef H_X4
void GenSecret4x(uint16_t r0[SP_L][256], uint16_t r1[SP_L][256], uint16_t r2[SP_L][256], uint16_t r3[SP_L][256],
                 const unsigned char *s0, const unsigned char *s1, const unsigned char *s2, const unsigned char *s3);
void harness_gensecret4(void)
{
  uint8_t *seed = sx_alloc(128, 1, "seed"); unsigned k; sx_symbolic(seed, 128, "seed"); sx_readonly(seed, 1);
  GenSecret4x((uint16_t (*)[256])h_s[0], (uint16_t (*)[256])h_s[1], (uint16_t (*)[256])h_s[2], (uint16_t (*)[256])h_s[3], seed, seed + 32, seed + 64, seed + 96);
  sx_mark(); for (k = 0; k < 4; k++) { h_expect(seed + 32 * k); h_maskq(h_s[k]); sx_check_eq(h_s[k], h_w2, SP_L * 512, "secret vector of a slot"); }
}
#endif
#endif
