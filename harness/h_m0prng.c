/* Cortex-M0 random bytes: exactly the requested bytes are written, each is a byte of its own of the words read */
#include "spec_saber.h"
#ifndef H_LENS
#define H_LENS 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 64, 96, 255
#endif
static const unsigned h_lens[] = {H_LENS};
static volatile unsigned int h_reg; static unsigned h_n; static uint8_t h_w[2048];
volatile unsigned int *h_prng_word(void)
{
  uint8_t t[2]; static char nm[16] = "word0000"; unsigned k = h_n / 2, i;
  for (i = 0; i < 4; i++) { nm[7 - i] = '0' + k % 10; k /= 10; }
  sx_symbolic(t, 2, nm);
  if (h_n < sizeof h_w) { h_w[h_n] = t[0]; h_w[h_n + 1] = t[1]; h_n += 2; }
  h_reg = t[0] | (unsigned)t[1] << 8; return &h_reg;
}
void randombytes(unsigned char *x, unsigned long long xlen);
void harness_prng(void)
{
  unsigned k, i, j; static uint8_t x[1024], taken[2048], old[8];
  for (k = 0; k < sizeof h_lens / sizeof h_lens[0]; k++) {
    unsigned n = h_lens[k];
    sx_symbolic(x, sizeof x, "old"); for (i = 0; i < 4; i++) { old[i] = x[i]; old[4 + i] = x[4 + n + i]; }
    h_n = 0; for (i = 0; i < sizeof taken; i++) taken[i] = 0;
    randombytes(x + 4, n); sx_mark();
    sx_check_eq(x, old, 4, "bytes before the buffer"); sx_check_eq(x + 4 + n, old + 4, 4, "bytes after the buffer");
    for (i = 0; i < n; i++) {
      for (j = 0; j < h_n; j++) if (!taken[j] && sx_same(x + 4 + i, h_w + j, 1)) break;
      if (j < h_n) { taken[j] = 1; sx_check_eq(x + 4 + i, h_w + j, 1, "generator byte"); }
      else sx_assert(0, "every output byte is a generator byte of its own");
    }
    sx_mark();
  }
}
