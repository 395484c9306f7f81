/* rng.c against the CTR_DRBG of SP 800-90A (AES-256, no derivation function, no reseeding) as the NIST KAT driver uses it, and
   the NIST seed expander; the block cipher is an uninterpreted function behind the OpenSSL calls the code makes */
#include <string.h>
#include "rng.h"
#include "spec_saber.h"
#ifdef SX_ENGINE
typedef struct { uint8_t key[32]; int used, keyed; } H_CTX;
static H_CTX h_pool[4]; static int h_cipher; void spec_not_modelled(void);
void *stub_EVP_CIPHER_CTX_new(void) { int i; for (i = 0; i < 4; i++) if (!h_pool[i].used) { h_pool[i].used = 1; h_pool[i].keyed = 0; return &h_pool[i]; } spec_not_modelled(); return 0; }
void stub_EVP_CIPHER_CTX_free(void *c) { if (c) ((H_CTX *)c)->used = 0; }
int stub_EVP_CIPHER_CTX_reset(void *c) { ((H_CTX *)c)->keyed = 0; return 1; }
int stub_EVP_CIPHER_CTX_set_padding(void *c, int p) { (void)c; (void)p; return 1; }
const void *stub_EVP_aes_256_ecb(void) { return &h_cipher; }
int stub_EVP_EncryptInit_ex(void *c, const void *t, void *impl, const uint8_t *key, const uint8_t *iv)
{ H_CTX *x = c; unsigned i; (void)iv; if ((t && t != (const void *)&h_cipher) || impl) spec_not_modelled(); if (key) { for (i = 0; i < 32; i++) x->key[i] = key[i]; x->keyed = 1; } return 1; }
int stub_EVP_EncryptUpdate(void *c, uint8_t *out, int *outl, const uint8_t *in, int inl)
{ H_CTX *x = c; int i; unsigned k; uint8_t b[48]; if (!x->keyed || inl < 0 || inl % 16) spec_not_modelled();
  for (i = 0; i < inl; i += 16) { for (k = 0; k < 48; k++) b[k] = k < 32 ? x->key[k] : in[i + k - 32]; sx_uf("aes256ecb", out + i, 16, b, 48); }
  *outl = inl; return 1; }
#endif
/* ---------------------------------------------------------------- the standard */
typedef struct { uint8_t b[48]; } SDRBG;   /* Key, V: the block cipher's input in one piece */
static void spec_inc(uint8_t *p, int n) { unsigned c = 1; int j; for (j = n - 1; j >= 0; j--) { c += p[j]; p[j] = (uint8_t)c; c >>= 8; } }
static void spec_update(SDRBG *d, const uint8_t *data)
{ uint8_t t[48]; int i; for (i = 0; i < 3; i++) { spec_inc(d->b + 32, 16); sx_uf("aes256ecb", t + 16 * i, 16, d->b, 48); } for (i = 0; i < 48; i++) d->b[i] = data ? t[i] ^ data[i] : t[i]; }
static void spec_generate(SDRBG *d, uint8_t *x, unsigned n)
{ uint8_t blk[16]; unsigned i; for (i = 0; i < n; i++) { if (i % 16 == 0) { spec_inc(d->b + 32, 16); sx_uf("aes256ecb", blk, 16, d->b, 48); } x[i] = blk[i % 16]; } spec_update(d, 0); }
static void spec_init(SDRBG *d, const uint8_t *e, const uint8_t *p)
{ uint8_t s[48]; int i; for (i = 0; i < 48; i++) { s[i] = p ? e[i] ^ p[i] : e[i]; d->b[i] = 0; } spec_update(d, s); }
/* ---------------------------------------------------------------- the generator */
#ifdef H_DRBG
typedef int (*HGEN)(unsigned char *, unsigned long long);
static const HGEN h_gen[] = { randombytes
#ifdef H_X4
, randombytes0, randombytes1, randombytes2, randombytes3
#endif
};
#define H_GENS (sizeof h_gen / sizeof h_gen[0])
static const unsigned h_req[][3] = { H_REQS };
void harness_drbg(void)
{
  unsigned k, g, q; static uint8_t want[H_MAXREQ + 1];
  for (k = 0; k < sizeof h_req / sizeof h_req[0]; k++) for (q = 0; q < 2; q++) {
    uint8_t *e = sx_alloc(48, 1, "entropy"), *p = q ? sx_alloc(48, 1, "personalisation") : 0; SDRBG d[H_GENS], z; int i; unsigned r;
    /* the state after the initialisation is arbitrary: the entropy that leads to it is computed from it */
    uint8_t st[48]; for (i = 0; i < 48; i++) z.b[i] = 0; spec_update(&z, 0); sx_symbolic(st, 48, "state"); if (p) sx_symbolic(p, 48, "personalisation");
    for (i = 0; i < 48; i++) e[i] = p ? st[i] ^ z.b[i] ^ p[i] : st[i] ^ z.b[i];
    sx_readonly(e, 1); if (p) sx_readonly(p, 1);
    randombytes_init(e, p, 256);
    for (g = 0; g < H_GENS; g++) { for (i = 0; i < 48; i++) d[g].b[i] = st[i]; }
    for (r = 0; r < 3; r++) for (g = 0; g < H_GENS; g++) {
      unsigned n = h_req[k][(r + g) % 3]; uint8_t *x = sx_alloc(n, 1, "output"); int rc = h_gen[g](x, n);
      spec_generate(&d[g], want, n); sx_check_eq(x, want, n, "output"); sx_assert(rc == RNG_SUCCESS, "return value"); sx_free(x); }
    sx_free(e); if (p) sx_free(p);
  }
}
#else
/* ---------------------------------------------------------------- the seed expander */
typedef struct { uint8_t b[48], blk[16]; unsigned pos; } SEXP;
static void spec_xinit(SEXP *s, const uint8_t *seed, const uint8_t *div, unsigned long maxlen)
{ int i; for (i = 0; i < 32; i++) s->b[i] = seed[i]; for (i = 0; i < 8; i++) s->b[32 + i] = div[i]; for (i = 0; i < 4; i++) { s->b[40 + i] = (uint8_t)(maxlen >> (24 - 8 * i)); s->b[44 + i] = 0; } s->pos = 0; }
static void spec_next(SEXP *s, uint8_t *x, unsigned n)
{ unsigned i; for (i = 0; i < n; i++) { if (s->pos % 16 == 0) { sx_uf("aes256ecb", s->blk, 16, s->b, 48); spec_inc(s->b + 44, 4); } x[i] = s->blk[s->pos++ % 16]; } }
static const unsigned h_req[][4] = { H_REQS };
static uint8_t h_want[H_MAXREQ + 1];
static void h_take(AES_XOF_struct *c, SEXP *s, unsigned n)
{ uint8_t *x = sx_alloc(n, 1, "output"); int rc = seedexpander(c, x, n); spec_next(s, h_want, n); sx_check_eq(x, h_want, n, "output"); sx_assert(rc == RNG_SUCCESS, "request allowed"); sx_free(x); }
void harness_expand(void)
{
  unsigned k, r;
  for (k = 0; k < sizeof h_req / sizeof h_req[0]; k++) {
    AES_XOF_struct c; SEXP s; uint8_t *seed = sx_alloc(32, 1, "seed"), *div = sx_alloc(8, 1, "diversifier"); unsigned long maxlen, left, bad, tot = 0; uint8_t x[16], x0[16]; unsigned i;
    for (r = 0; r < 4; r++) tot += h_req[k][r];
    sx_symbolic(seed, 32, "seed"); sx_symbolic(div, 8, "diversifier"); sx_readonly(seed, 1); sx_readonly(div, 1); sx_symbolic(&maxlen, sizeof maxlen, "maxlen"); sx_symbolic(&c, sizeof c, "context");
    sx_assume(maxlen < 0x100000000UL); sx_assume(maxlen > tot);
    sx_assert(seedexpander_init(&c, seed, div, maxlen) == RNG_SUCCESS, "initialisation allowed");
    spec_xinit(&s, seed, div, maxlen); left = maxlen;
    for (r = 0; r < 4; r++) {
      h_take(&c, &s, h_req[k][r]); left -= h_req[k][r];
      if (r < 3) { /* refused requests leave the stream where it was and write nothing */
        sx_symbolic(&bad, sizeof bad, "refused length"); sx_assume(bad >= left); sx_symbolic(x, 16, "buffer"); for (i = 0; i < 16; i++) x0[i] = x[i];
        sx_assert(seedexpander(&c, x, bad) == RNG_BAD_REQ_LEN, "request refused: length"); sx_check_eq(x, x0, 16, "buffer of a refused request");
        sx_assert(seedexpander(&c, 0, h_req[k][r]) == RNG_BAD_OUTBUF, "request refused: no buffer");
      }
    }
    sx_free(seed); sx_free(div);
  }
}
void harness_badmax(void)
{
  AES_XOF_struct c; uint8_t seed[32], div[8]; unsigned long maxlen;
  sx_symbolic(seed, 32, "seed"); sx_symbolic(div, 8, "diversifier"); sx_symbolic(&maxlen, sizeof maxlen, "maxlen"); sx_symbolic(&c, sizeof c, "context"); sx_assume(maxlen >= 0x100000000UL);
  sx_assert(seedexpander_init(&c, seed, div, maxlen) == RNG_BAD_MAXLEN, "maxlen refused");
}
#endif
