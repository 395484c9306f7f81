#ifndef SPEC_HASH_H
#define SPEC_HASH_H
#include <stdint.h>
#include <stddef.h>
void spec_keccak_f(uint64_t a[25]);
void spec_keccak_p(uint64_t a[25]);
uint64_t spec_keccak_rc(unsigned ir);
void spec_keccak_round(uint64_t a[25], uint64_t rc);
void spec_sponge(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t dom);
void spec_aes256_expand(uint8_t rk[240], const uint8_t key[32]);
void spec_aes256_block(uint8_t out[16], const uint8_t in[16], const uint8_t rk[240]);
void spec_aes256ctr(uint8_t *out, size_t outlen, const uint8_t key[32], const uint8_t nonce[12]);
void spec_sha256_block(uint32_t h[8], const uint8_t *p);
void spec_sha512_block(uint64_t h[8], const uint8_t *p);
void spec_sha256_c(uint32_t h[8], const uint8_t *p);
void spec_sha512_c(uint64_t h[8], const uint8_t *p);
void spec_sha256(uint8_t out[32], const uint8_t *in, size_t n);
void spec_sha512(uint8_t out[64], const uint8_t *in, size_t n);
extern const uint8_t spec_sbox[256];
extern const uint32_t spec_k256[64];
extern const uint64_t spec_k512[80];
void spec_real_uf(const char *name, void *out, size_t ol, const void *in, size_t il);
#endif
