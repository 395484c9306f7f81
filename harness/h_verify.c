/* comparison and conditional copy: every length in a range, all contents */
#include "spec_saber.h"
#include "verify.h"
#ifndef H_LENS
#define H_LENS 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 127, 128, 129, 255, 256, 257, 736, 1088, 1472
#endif
static const unsigned h_lens[] = {H_LENS};
static uint8_t h_old[4096];
void harness_verify(void)
{
#ifndef H_NOVERIFY
  unsigned k, i; for (k = 0; k < sizeof h_lens / sizeof h_lens[0]; k++) {
    unsigned n = h_lens[k], o = (n + 3) & 3; uint8_t *a = (uint8_t *)sx_alloc(n + o, 1, "a") + o, *b = sx_alloc(n, 1, "b"), d = 0; int r, e;
    H_SECRET(a, n, "a"); H_SECRET(b, n, "b"); sx_readonly(a - o, 1); sx_readonly(b, 1);
    r = verify(a, b, n);
    sx_mark(); for (i = 0; i < n; i++) d |= (uint8_t)(a[i] ^ b[i]);
    e = d != 0; sx_check_eq(&r, &e, sizeof r, "verify"); sx_mark(); sx_free(a - o); sx_free(b);
  }
#endif
}
/* at most one byte differs, at a position chosen by the solver */
void harness_onebyte(void)
{
#ifndef H_NOVERIFY
  unsigned k, i; for (k = 0; k < sizeof h_lens / sizeof h_lens[0]; k++) {
    unsigned n = h_lens[k]; uint8_t *a, *b, x = 0; uint16_t p = 0; int r, e; if (!n || n > 65) continue;
    a = sx_alloc(n, 1, "a"); b = sx_alloc(n, 1, "b"); H_SECRET(a, n, "a"); H_SECRET(&x, 1, "x"); H_SECRET(&p, 2, "p"); p &= 127;
    for (i = 0; i < n; i++) b[i] = a[i] ^ (uint8_t)(x & -(uint8_t)(p == i));
    r = verify(a, b, n); sx_mark(); e = (x != 0) & (p < n); sx_check_eq(&r, &e, sizeof r, "verify, one byte"); sx_mark(); sx_free(a); sx_free(b);
  }
#endif
}
void harness_cmov(void)
{
  unsigned k, i; for (k = 0; k < sizeof h_lens / sizeof h_lens[0]; k++) {
    unsigned n = h_lens[k], o = (n + 3) & 3; uint8_t *r = (uint8_t *)sx_alloc(n + o, 1, "r") + o, *x = sx_alloc(n, 1, "x"), b = 0;
    H_SECRET(r, n, "r"); H_SECRET(x, n, "x"); H_SECRET(&b, 1, "b"); b &= 1; sx_readonly(x, 1);
    for (i = 0; i < n; i++) h_old[i] = r[i];
    cmov(r, x, n, b);
    sx_mark(); for (i = 0; i < n; i++) h_old[i] ^= (uint8_t)(-b & (x[i] ^ h_old[i]));
    sx_check_eq(r, h_old, n, "cmov"); sx_mark(); sx_free(r - o); sx_free(x);
  }
}
#ifdef H_M4
#include "pack_unpack.h"
/* the Cortex-M4 code compares a ciphertext with a polynomial without packing it first */
static void cmpone(int t)
{
  unsigned n = t ? SP_ET * 32 : SP_POLYP, i, e, f; uint8_t *b = sx_alloc(n, 1, "bytes"), d = 0; uint16_t *p = sx_alloc(512, 2, "poly"); static uint8_t q[320 + 192]; uint32_t r;
  H_SECRET(b, n, "bytes"); H_SECRET(p, 512, "poly"); sx_readonly(b, 1);
  r = t ? POLT2BS_cmp(b, p) : POLp2BS_cmp(b, p); f = r != 0;
  sx_mark(); spec_pack(q, p, 256, t ? SP_ET : SP_EP); for (i = 0; i < n; i++) d |= (uint8_t)(q[i] ^ b[i]);
  e = d != 0; sx_check_eq(&f, &e, sizeof e, t ? "POLT2BS_cmp" : "POLp2BS_cmp"); sx_mark(); sx_free(b); sx_free(p);
}
void harness_packcmp(void) { cmpone(0); cmpone(1); }
#endif
