/* Cortex-M0: the assembly keeps every lane as even and odd bits; what it does is decided by h_keccakm0.c */
#if defined SX_ENGINE && !defined H_NAME
#define H_NAME(x) stub_##x
#elif !defined H_NAME
#define H_NAME(x) x
#endif
static uint32_t h_even(uint64_t x) { uint32_t r = 0; unsigned i; for (i = 0; i < 32; i++) r |= (uint32_t)((x >> (2 * i)) & 1) << i; return r; }
static uint64_t h_spread(uint32_t x) { uint64_t r = 0; unsigned i; for (i = 0; i < 32; i++) r |= (uint64_t)((x >> i) & 1) << (2 * i); return r; }
#if defined SX_ENGINE && defined H_LIGHT   /* any layout that is not the plain one shows lanes touched directly, and this one is cheap */
static void h_get(uint64_t *t, const void *s) { const uint64_t *w = s; unsigned i; for (i = 0; i < 25; i++) t[i] = w[i] << 8 | w[i] >> 56; }
static void h_put(void *s, const uint64_t *t) { uint64_t *w = s; unsigned i; for (i = 0; i < 25; i++) w[i] = t[i] >> 8 | t[i] << 56; }
#else
static void h_get(uint64_t *t, const void *s) { const uint32_t *w = s; unsigned i; for (i = 0; i < 25; i++) t[i] = h_spread(w[2 * i]) | h_spread(w[2 * i + 1]) << 1; }
static void h_put(void *s, const uint64_t *t) { uint32_t *w = s; unsigned i; for (i = 0; i < 25; i++) { w[2 * i] = h_even(t[i]); w[2 * i + 1] = h_even(t[i] >> 1); } }
#endif
void H_NAME(KeccakF1600_Initialize)(void) {}
void H_NAME(KeccakF1600_StateInitialize)(void *s) { unsigned i; for (i = 0; i < 50; i++) ((uint32_t *)s)[i] = 0; }
void H_NAME(KeccakF1600_StatePermute)(void *s) { uint64_t t[25]; h_get(t, s); h_perm(t); h_put(s, t); }
void H_NAME(KeccakF1600_StateXORBytes)(void *s, const unsigned char *d, unsigned off, unsigned n)
{ uint64_t t[25]; unsigned i; h_get(t, s); for (i = 0; i < n; i++) t[(off + i) / 8] ^= (uint64_t)d[i] << (8 * ((off + i) % 8)); h_put(s, t); }
void H_NAME(KeccakF1600_StateExtractBytes)(void *s, unsigned char *d, unsigned off, unsigned n)
{ uint64_t t[25]; unsigned i; h_get(t, s); for (i = 0; i < n; i++) d[i] = (unsigned char)(t[(off + i) / 8] >> (8 * ((off + i) % 8))); }
