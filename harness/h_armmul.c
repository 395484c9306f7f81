/* the Cortex-M4 multipliers: C and assembly together, all operands; the product counts modulo 2^13 */
#include <stdint.h>
#include "SABER_params.h"
#include "poly_mul.h"
#include "spec_saber.h"
#ifdef H_NOSPEC
#define H_PAD 0         /* nothing but the polynomials: a step outside shows */
#else
#define H_PAD 4
#endif
static uint16_t h_w[256], h_g[48];
static void h_run(int acc, unsigned shift)
{
  unsigned i; uint8_t *A = sx_alloc(512 + H_PAD, 4, "a"), *B = sx_alloc(512 + H_PAD, 4, "b"), *R = sx_alloc(512 + H_PAD, 4, "res");
  uint16_t *a = (uint16_t *)(A + shift), *b = (uint16_t *)(B + shift), *r = (uint16_t *)(R + shift), c[256];
  H_SECRET(A, 512 + H_PAD, "a"); H_SECRET(B, 512 + H_PAD, "b"); H_SECRET(R, 512 + H_PAD, "res");
  for (i = 0; i < 256; i++) { h_w[i] = acc ? r[i] : 0; c[i] = b[i]; }
  for (i = 0; i < H_PAD; i++) { h_g[i] = i < shift ? B[i] : B[512 + i]; h_g[4 + i] = i < shift ? R[i] : R[512 + i]; }
  sx_readonly(A, 1);
  if (acc) poly_mul_acc(a, b, r); else poly_mul(a, b, r);
  sx_mark(); sx_readonly(A, 0);
  H_SPEC(spec_mulacc(h_w, a, c);)
  for (i = 0; i < 256; i++) { h_w[i] &= 8191; r[i] &= 8191; }
  H_CHECK(r, h_w, 512, "product");
  for (i = 0; i < H_PAD; i++) { uint16_t x = i < shift ? B[i] : B[512 + i], y = i < shift ? R[i] : R[512 + i]; sx_check_eq(&x, &h_g[i], 2, "memory around the second operand"); sx_check_eq(&y, &h_g[4 + i], 2, "memory around the result"); }
  sx_free(A); sx_free(B); sx_free(R);
}
void harness_mul(void) { h_run(0, 0); }
void harness_mulacc(void) { h_run(1, 0); }
void harness_mul2(void) { h_run(0, 2); }
