/* ring arithmetic of the host implementations, all 16-bit operands; results count modulo 2^13 */
#ifdef H_AVX
#include "SABER_indcpa.c"
/* a different interface makes this harness fail to build, and leaves the property undecided */
void TC_eval(__m256i *b_avx, __m256i *b_bucket);
void vector_vector_mul(__m256i a_avx[NUM_POLY][AVX_N1], __m256i b_bucket[NUM_POLY][SCHB_N * 4], __m256i res_avx[AVX_N1]);
void matrix_vector_mul(__m256i a[NUM_POLY][NUM_POLY][AVX_N1], __m256i b_bucket[NUM_POLY][SCHB_N * 4], __m256i res_avx[NUM_POLY][AVX_N1], int isTranspose);
void load_values();
#elif defined H_M0
#include <stdint.h>
#include "poly_mul.h"
#else
#include "SABER_params.h"
#include "poly_mul.h"
#include "poly.h"
#endif
#include "spec_saber.h"
#undef QM
#define QM 8191
static uint16_t h_w[SP_L][256];
#ifdef H_AVX
static __m256i h_A[SP_L][SP_L][16], h_B[SP_L][16], h_R[SP_L][16], h_bk[SP_L][SCHB_N * 4];
#define h_a ((uint16_t (*)[SP_L][256])h_A)
#define h_b ((uint16_t (*)[256])h_B)
#define h_r ((uint16_t (*)[256])h_R)
#else
static uint16_t h_a[SP_L][SP_L][256], h_b[SP_L][256], h_r[SP_L][256];
#endif
static void h_cmp(unsigned n) { unsigned i; uint16_t *r = h_r[0], *w = h_w[0]; for (i = 0; i < n * 256; i++) { r[i] &= QM; w[i] &= QM; } sx_check_eq(r, w, n * 512, "product"); }
#ifdef H_AVX
#ifndef H_X4
#ifdef SX_ENGINE
#define H_NAME(x) stub_##x
#else
#define H_NAME(x) x
#endif
void H_NAME(shake128)(unsigned char *o, unsigned long long ol, const unsigned char *in, unsigned long long il) { unsigned long long i; for (i = 0; i < ol; i++) o[i] = 0; (void)in; (void)il; }
int H_NAME(randombytes)(unsigned char *x, unsigned long long n) { unsigned long long i; for (i = 0; i < n; i++) x[i] = 0; return 0; }
long long H_NAME(cpucycles)(void) { return 0; }
#endif
static void h_setup(void)
{
  unsigned j;
#ifdef H_X4
  load_values();
#else
  static uint8_t pk[SP_PKBYTES + 64], sk[SP_SKBYTES + 64]; indcpa_kem_keypair(pk, sk);      /* whatever a call sets up */
#endif
  sx_symbolic(h_a, SP_L * SP_L * 512, "a"); sx_symbolic(h_b, SP_L * 512, "b"); sx_symbolic(h_r, SP_L * 512, "old");
#ifndef H_16BIT
  { unsigned i; uint16_t *a = (uint16_t *)h_A; for (i = 0; i < SP_L * SP_L * 256; i++) a[i] &= QM; }
#endif
  for (j = 0; j < SP_L; j++) TC_eval(h_B[j], h_bk[j]);
}
void harness_vector(void)
{
  unsigned j; h_setup();
  vector_vector_mul(h_A[0], h_bk, h_R[0]);
  sx_mark(); for (j = 0; j < SP_L; j++) spec_mulacc(h_w[0], h_a[0][j], h_b[j]);
  h_cmp(1);
}
static void h_matrix(int t)
{
  unsigned i, j; h_setup();
  matrix_vector_mul(h_A, h_bk, h_R, t);
  sx_mark(); for (i = 0; i < SP_L; i++) for (j = 0; j < SP_L; j++) spec_mulacc(h_w[i], t ? h_a[j][i] : h_a[i][j], h_b[j]);
  h_cmp(SP_L);
}
void harness_matrix(void) { h_matrix(0); }
void harness_matrix_t(void) { h_matrix(1); }
#elif defined H_M0
void pol_mul(uint16_t *a, uint16_t *b, uint16_t *res);
void harness_poly(void)
{
  unsigned i; sx_symbolic(h_a[0][0], 512, "a"); sx_symbolic(h_b[0], 512, "b"); sx_symbolic(h_r[0], 512, "old");
  for (i = 0; i < 256; i++) h_w[0][i] = h_r[0][i];
  pol_mul(h_a[0][0], h_b[0], h_r[0]);
  sx_mark(); spec_mulacc(h_w[0], h_a[0][0], h_b[0]); h_cmp(1);
}
#else
static void h_setup(unsigned n)
{
  unsigned i;
  sx_symbolic(h_a, sizeof h_a, "a"); sx_symbolic(h_b, sizeof h_b, "b"); sx_symbolic(h_r, n * 512, "old");
  { uint16_t *r = h_r[0], *w = h_w[0]; for (i = 0; i < n * 256; i++) w[i] = r[i]; }
}
void harness_poly(void)
{
  h_setup(1); poly_mul_acc(h_a[0][0], h_b[0], h_r[0]);
  sx_mark(); spec_mulacc(h_w[0], h_a[0][0], h_b[0]); h_cmp(1);
}
void harness_vector(void)
{
  unsigned j; h_setup(1); InnerProd(h_a[0], h_b, h_r[0]);
  sx_mark(); for (j = 0; j < SP_L; j++) spec_mulacc(h_w[0], h_a[0][j], h_b[j]); h_cmp(1);
}
static void h_matrix(int t)
{
  unsigned i, j; h_setup(SP_L); MatrixVectorMul(h_a, h_b, h_r, t);
  sx_mark(); for (i = 0; i < SP_L; i++) for (j = 0; j < SP_L; j++) spec_mulacc(h_w[i], t ? h_a[j][i] : h_a[i][j], h_b[j]); h_cmp(SP_L);
}
void harness_matrix(void) { h_matrix(0); }
void harness_matrix_t(void) { h_matrix(1); }
#endif
