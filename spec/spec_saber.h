/* Plain specification of the Saber KEM family, written from the algorithm description: schoolbook arithmetic,
   generic bit packing.  Parameters come from the command line. */
#ifndef SPEC_SABER_H
#define SPEC_SABER_H
#include <stdint.h>
#include <stddef.h>
#ifndef SP_L
#define SP_L 3
#endif
#ifndef SP_USABER
#define SP_USABER 0
#endif
#ifndef SP_90S
#define SP_90S 0
#endif
#ifndef SP_SKBITS
#define SP_SKBITS SP_EQ           /* bits per secret coefficient in the secret key */
#endif
#define SP_N 256
#define SP_EP 10
#define SP_EQ (SP_USABER ? 12 : 13)
#define SP_ET (SP_L == 2 ? 3 : SP_L == 3 ? 4 : 6)
#define SP_MU (SP_USABER ? 2 : SP_L == 2 ? 10 : SP_L == 3 ? 8 : 6)
#define SP_H1 (1 << (SP_EQ - SP_EP - 1))
#ifndef SP_H1C
#define SP_H1C SP_H1              /* constant added before rounding the message part of the ciphertext */
#endif
#ifndef SP_H2
#define SP_H2 ((1 << (SP_EP - 2)) - (1 << (SP_EP - SP_ET - 1)) + (1 << (SP_EQ - SP_EP - 1)))
#endif
#define SP_POLYQ (SP_EQ * 32)
#define SP_POLYP (SP_EP * 32)
#define SP_COINS (SP_MU * 32)
#define SP_PKBYTES (SP_L * SP_POLYP + 32)
#define SP_SK0BYTES (SP_L * SP_SKBITS * 32)
#define SP_SKBYTES (SP_SK0BYTES + SP_PKBYTES + 64)
#define SP_CTBYTES (SP_L * SP_POLYP + SP_ET * 32)

void spec_keypair(uint8_t *pk, uint8_t *sk, const uint8_t *rng96);
void spec_enc(uint8_t *ct, uint8_t *ss, const uint8_t *pk, const uint8_t *rng32);
void spec_dec(uint8_t *ss, const uint8_t *ct, const uint8_t *sk);
void spec_indcpa_enc(uint8_t *ct, const uint8_t *m, const uint8_t *r, const uint8_t *pk);
void spec_indcpa_dec(uint8_t *m, const uint8_t *ct, const uint8_t *sk);
void spec_pack(uint8_t *out, const uint16_t *in, unsigned n, unsigned bits);
void spec_unpack(uint16_t *out, const uint8_t *in, unsigned n, unsigned bits);
void spec_sample(uint16_t *s, const uint8_t *buf);
void spec_mulacc(uint16_t *r, const uint16_t *a, const uint16_t *b);
void spec_hash_h(uint8_t *out, const uint8_t *in, size_t n);
void spec_hash_g(uint8_t *out, const uint8_t *in, size_t n);
void spec_prf(uint8_t *out, size_t outlen, const uint8_t *in, size_t n);
/* engine / replay primitives */
void sx_symbolic(void *p, size_t n, const char *name);
void sx_secret(void *p, size_t n, const char *name);
int sx_same(const void *a, const void *b, size_t n);
void sx_check_eq(const void *a, const void *b, size_t n, const char *label);
void sx_assert(int c, const char *label);
void sx_assume(int c);
void *sx_alloc(size_t n, size_t align, const char *name);
void sx_free(void *p);
void sx_readonly(void *p, int on);
void sx_havoc_globals(int onlywritten);
void sx_uf(const char *name, void *out, size_t outlen, const void *in, size_t inlen);
int sx_is_engine(void);
void sx_mark(void);               /* implementation calls end here, specification calls follow */
void sx_impl(int on);
void sx_public(void *p, size_t n);
void sx_show(const void *p, size_t n, const char *name);
/* every byte of the output must be determined by the inputs, not by memory nobody wrote */
void sx_defined(const void *p, size_t n, const char *label);
#ifdef H_NOSPEC                   /* runs that look at how the code computes, not at what */
#define H_SPEC(x)
#define H_CHECK(a, b, n, l) sx_defined(a, n, l)
#define sx_check_eq(a, b, n, l) sx_defined(a, n, l)
#define sx_assert(c, l) ((void)(c))
#else
#define H_SPEC(x) x
#define H_CHECK(a, b, n, l) sx_check_eq(a, b, n, l)
#endif
#ifndef H_SECRET
#define H_SECRET sx_symbolic
#endif
#ifndef H_PUBLIC
#define H_PUBLIC sx_symbolic
#endif
#define H_RETURNS(c, l) (sx_assert)(c, l)
/* native only: provide concrete values for a named input */
void sx_set(const char *name, const void *p, size_t n);
#endif
