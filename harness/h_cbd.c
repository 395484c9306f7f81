/* the secret sampler against the bit-by-bit definition, values taken modulo the larger modulus */
#include "api.h"
#include "SABER_params.h"
#include "cbd.h"
#include "spec_saber.h"
#define QM ((1 << SP_EQ) - 1)
static uint16_t h_w[256]; static uint8_t h_g[48];
static void guards(uint8_t *o, unsigned n, int check)
{
  unsigned i;
  if (!check) { sx_symbolic(o, 24, "guard0"); sx_symbolic(o + 24 + n, 24, "guard1"); for (i = 0; i < 24; i++) { h_g[i] = o[i]; h_g[24 + i] = o[24 + n + i]; } }
  else { sx_check_eq(o, h_g, 24, "memory before the polynomial"); sx_check_eq(o + 24 + n, h_g + 24, 24, "memory after the polynomial"); }
}
void harness_cbd(void)
{
  unsigned off, i;
  for (off = 0; off < 2; off++) {
    uint8_t *b = (uint8_t *)sx_alloc(SP_COINS + off, 1, "coins") + off, *o = sx_alloc(512 + 48, 32, "out"); uint16_t *r = (uint16_t *)(o + 24);
    sx_symbolic(b, SP_COINS, "coins"); sx_readonly(b - off, 1); guards(o, 512, 0);
#ifdef H_M0
    cbd(0, r, SP_COINS, b);
#else
    cbd(r, b);
#endif
    sx_mark(); spec_sample(h_w, b); for (i = 0; i < 256; i++) { h_w[i] &= QM; r[i] &= QM; }
    sx_check_eq(r, h_w, 512, "coefficients"); guards(o, 512, 1); sx_mark(); sx_readonly(b - off, 0); sx_free(b - off); sx_free(o);
  }
}
#ifdef H_M0
/* the Cortex-M0 sampler works on a part of a polynomial: every split used by the code base, and odd ones */
void harness_part(void)
{
  static const unsigned sp[] = {168, 88, 248, 8, 160, 96, 4, 12, 100, 252, 256, 0}; unsigned k, i;
  for (k = 0; sp[k]; k++) {
    unsigned n = sp[k], at; for (at = 0; at <= 256 - n; at = at == 256 - n ? 257 : 256 - n) {
      uint8_t *b = (uint8_t *)sx_alloc(n, 1, "coins"), *o = sx_alloc(512, 4, "out"), f[256]; uint16_t *r = (uint16_t *)o, old[256];
      for (i = 0; i < 256; i++) f[i] = 0;
      sx_symbolic(b, n, "coins"); sx_readonly(b, 1); sx_symbolic(r, 512, "poly"); for (i = 0; i < 256; i++) old[i] = r[i];
      for (i = 0; i < n; i++) f[i] = b[i];
      cbd(at, r, n, b);
      sx_mark(); spec_sample(h_w, f); for (i = 0; i < n; i++) { old[at + i] = h_w[i] & QM; r[at + i] &= QM; }
      sx_check_eq(r, old, 512, "part"); sx_mark(); sx_free(b); sx_free(o);
    }
  }
}
#endif
