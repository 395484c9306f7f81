#include "spec_saber.h"

#ifdef SP_SPONGE
#include "spec_hash.h"
void spec_hash_h(uint8_t *out, const uint8_t *in, size_t n) { spec_sponge(out, 32, in, n, 136, 6); }
void spec_hash_g(uint8_t *out, const uint8_t *in, size_t n) { spec_sponge(out, 64, in, n, 72, 6); }
void spec_prf(uint8_t *out, size_t outlen, const uint8_t *in, size_t n) { spec_sponge(out, outlen, in, n, 168, 0x1f); }
#else
void spec_hash_h(uint8_t *out, const uint8_t *in, size_t n) { sx_uf(SP_90S ? "sha256" : "sha3_256", out, 32, in, n); }
void spec_hash_g(uint8_t *out, const uint8_t *in, size_t n) { sx_uf(SP_90S ? "sha512" : "sha3_512", out, 64, in, n); }
void spec_prf(uint8_t *out, size_t outlen, const uint8_t *in, size_t n) { sx_uf(SP_90S ? "aes256ctr" : "shake128", out, outlen, in, n); }
#endif

/* n values of `bits` bits each, least significant bit first */
void spec_pack(uint8_t *out, const uint16_t *in, unsigned n, unsigned bits)
{
  unsigned o, i, k;
  for (o = 0; o < n * bits / 8; o++) out[o] = 0;
  for (i = 0; i < n; i++) {
    unsigned pos = i * bits, left = bits, v = in[i] & ((1u << bits) - 1);
    while (left) {
      unsigned sh = pos & 7, take = 8 - sh; if (take > left) take = left;
      out[pos >> 3] |= (uint8_t)((v & ((1u << take) - 1)) << sh);
      v >>= take; pos += take; left -= take;
    }
  }
  (void)k;
}
void spec_unpack(uint16_t *out, const uint8_t *in, unsigned n, unsigned bits)
{
  unsigned i;
  for (i = 0; i < n; i++) {
    unsigned pos = i * bits, got = 0, v = 0;
    while (got < bits) {
      unsigned sh = pos & 7, take = 8 - sh; if (take > bits - got) take = bits - got;
      v |= ((unsigned)(in[pos >> 3] >> sh) & ((1u << take) - 1)) << got;
      got += take; pos += take;
    }
    out[i] = (uint16_t)v;
  }
}
static unsigned spec_bit(const uint8_t *b, unsigned i) { return (b[i >> 3] >> (i & 7)) & 1; }
/* one polynomial: centred binomial with parameter MU, or for uSaber uniform in [-2,1] */
void spec_sample(uint16_t *s, const uint8_t *buf)
{
  unsigned i, j;
  for (i = 0; i < SP_N; i++) {
    int v = 0;
    if (SP_USABER) v = (int)spec_bit(buf, 2 * i) - 2 * (int)spec_bit(buf, 2 * i + 1);
    else
      for (j = 0; j < SP_MU / 2; j++) v += (int)spec_bit(buf, SP_MU * i + j) - (int)spec_bit(buf, SP_MU * i + SP_MU / 2 + j);
    s[i] = (uint16_t)v;
  }
}
/* r += a*b in Z[x]/(x^256+1), coefficients mod 2^16 */
void spec_mulacc(uint16_t *r, const uint16_t *a, const uint16_t *b)
{
  unsigned i, k;
  for (k = 0; k < SP_N; k++) {
    uint16_t acc = 0;
    for (i = 0; i <= k; i++) acc = (uint16_t)(acc + (uint16_t)((uint32_t)a[i] * b[k - i]));
    for (; i < SP_N; i++) acc = (uint16_t)(acc - (uint16_t)((uint32_t)a[i] * b[SP_N + k - i]));   /* x^256 = -1 */
    r[k] = (uint16_t)(r[k] + acc);
  }
}
static void spec_matrix(uint16_t *A, const uint8_t *seed)   /* A[i][j] at A + (i*L+j)*N */
{
  static uint8_t spec_buf[SP_L * SP_L * SP_POLYQ];
  spec_prf(spec_buf, sizeof spec_buf, seed, 32);
  spec_unpack(A, spec_buf, SP_L * SP_L * SP_N, SP_EQ);
}
static void spec_secret(uint16_t *s, const uint8_t *seed)
{
  uint8_t buf[SP_L * SP_COINS]; unsigned i;
  spec_prf(buf, sizeof buf, seed, 32);
  for (i = 0; i < SP_L; i++) spec_sample(s + i * SP_N, buf + i * SP_COINS);
}
static void spec_round(uint16_t *v, unsigned n)
{
  unsigned i; for (i = 0; i < n; i++) v[i] = (uint16_t)(((v[i] + SP_H1) & ((1 << SP_EQ) - 1)) >> (SP_EQ - SP_EP));
}
static uint16_t spec_A[SP_L * SP_L * SP_N];
void spec_keypair(uint8_t *pk, uint8_t *sk, const uint8_t *rng)
{
  uint16_t s[SP_L * SP_N], b[SP_L * SP_N]; uint8_t seedA[32]; unsigned i, j;
  spec_prf(seedA, 32, rng, 32);
  spec_matrix(spec_A, seedA);
  spec_secret(s, rng + 32);
  for (i = 0; i < SP_L * SP_N; i++) b[i] = 0;
  for (i = 0; i < SP_L; i++) for (j = 0; j < SP_L; j++) spec_mulacc(b + i * SP_N, spec_A + (j * SP_L + i) * SP_N, s + j * SP_N);
  spec_round(b, SP_L * SP_N);
  spec_pack(pk, b, SP_L * SP_N, SP_EP);
  for (i = 0; i < 32; i++) pk[SP_L * SP_POLYP + i] = seedA[i];
  spec_pack(sk, s, SP_L * SP_N, SP_SKBITS);
  for (i = 0; i < SP_PKBYTES; i++) sk[SP_SK0BYTES + i] = pk[i];
  spec_hash_h(sk + SP_SKBYTES - 64, pk, SP_PKBYTES);
  for (i = 0; i < 32; i++) sk[SP_SKBYTES - 32 + i] = rng[64 + i];
}
void spec_indcpa_enc(uint8_t *ct, const uint8_t *m, const uint8_t *r, const uint8_t *pk)
{
  uint16_t s[SP_L * SP_N], b[SP_L * SP_N], v[SP_N], pb[SP_L * SP_N]; unsigned i, j;
  spec_matrix(spec_A, pk + SP_L * SP_POLYP);
  spec_secret(s, r);
  for (i = 0; i < SP_L * SP_N; i++) b[i] = 0;
  for (i = 0; i < SP_L; i++) for (j = 0; j < SP_L; j++) spec_mulacc(b + i * SP_N, spec_A + (i * SP_L + j) * SP_N, s + j * SP_N);
  spec_round(b, SP_L * SP_N);
  spec_pack(ct, b, SP_L * SP_N, SP_EP);
  spec_unpack(pb, pk, SP_L * SP_N, SP_EP);
  for (i = 0; i < SP_N; i++) v[i] = 0;
  for (j = 0; j < SP_L; j++) spec_mulacc(v, pb + j * SP_N, s + j * SP_N);
  for (i = 0; i < SP_N; i++) v[i] = (uint16_t)(((v[i] + SP_H1C - (spec_bit(m, i) << (SP_EP - 1))) & ((1 << SP_EP) - 1)) >> (SP_EP - SP_ET));
  spec_pack(ct + SP_L * SP_POLYP, v, SP_N, SP_ET);
}
void spec_indcpa_dec(uint8_t *m, const uint8_t *ct, const uint8_t *sk)
{
  uint16_t s[SP_L * SP_N], b[SP_L * SP_N], v[SP_N], c[SP_N]; unsigned i, j;
  spec_unpack(s, sk, SP_L * SP_N, SP_SKBITS);
  for (i = 0; i < SP_L * SP_N; i++) if (SP_SKBITS < SP_EP) { int t = s[i]; t = (t ^ (1 << (SP_SKBITS - 1))) - (1 << (SP_SKBITS - 1)); s[i] = (uint16_t)t; }
  spec_unpack(b, ct, SP_L * SP_N, SP_EP);
  spec_unpack(c, ct + SP_L * SP_POLYP, SP_N, SP_ET);
  for (i = 0; i < SP_N; i++) v[i] = 0;
  for (j = 0; j < SP_L; j++) spec_mulacc(v, b + j * SP_N, s + j * SP_N);
  for (i = 0; i < SP_N; i++) v[i] = (uint16_t)(((v[i] + SP_H2 - (c[i] << (SP_EP - SP_ET))) & ((1 << SP_EP) - 1)) >> (SP_EP - 1));
  spec_pack(m, v, SP_N, 1);
}
void spec_enc(uint8_t *ct, uint8_t *ss, const uint8_t *pk, const uint8_t *rng)
{
  uint8_t buf[64], kr[64];
  spec_hash_h(buf, rng, 32);
  spec_hash_h(buf + 32, pk, SP_PKBYTES);
  spec_hash_g(kr, buf, 64);
  spec_indcpa_enc(ct, buf, kr + 32, pk);
  spec_hash_h(kr + 32, ct, SP_CTBYTES);
  spec_hash_h(ss, kr, 64);
}
void spec_dec(uint8_t *ss, const uint8_t *ct, const uint8_t *sk)
{
  uint8_t buf[64], kr[64], c2[SP_CTBYTES]; unsigned i; uint8_t d = 0, z;
  const uint8_t *pk = sk + SP_SK0BYTES;
  spec_indcpa_dec(buf, ct, sk);
  for (i = 0; i < 32; i++) buf[32 + i] = sk[SP_SKBYTES - 64 + i];
  spec_hash_g(kr, buf, 64);
  spec_indcpa_enc(c2, buf, kr + 32, pk);
  for (i = 0; i < SP_CTBYTES; i++) d |= (uint8_t)(ct[i] ^ c2[i]);
  spec_hash_h(kr + 32, ct, SP_CTBYTES);
  z = (uint8_t)(0 - (d != 0));
  for (i = 0; i < 32; i++) kr[i] = (uint8_t)((z & sk[SP_SKBYTES - 32 + i]) | (~z & kr[i]));   /* reject: z, accept: pre-key */
  spec_hash_h(ss, kr, 64);
}
