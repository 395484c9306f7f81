/* Packing and unpacking against generic little-endian bit strings; guard bytes around every output. */
#ifdef H_AVX
#include <immintrin.h>
#endif
#include "pack_unpack.h"
#include "spec_saber.h"
#ifdef H_X4
void load_values(void); void init_aux_avx(void);
#endif
#define GUARD 24
static uint16_t h_p[4][4][256], h_q[4][256]; static uint8_t h_b[2048], h_g0[GUARD], h_g1[GUARD];
static uint8_t *h_out; static unsigned h_n;
/* an output of exactly n bytes between symbolic guard bytes */
static void *out(unsigned n, unsigned off)
{
  h_out = sx_alloc(n + 2 * GUARD, 32, "out"); h_n = n;
  sx_symbolic(h_out, GUARD, "guard0"); sx_symbolic(h_out + GUARD + n, GUARD, "guard1");
  { unsigned i; for (i = 0; i < GUARD; i++) { h_g0[i] = h_out[i]; h_g1[i] = h_out[GUARD + n + i]; } }
  (void)off; return h_out + GUARD;
}
static void done(const void *want, const char *label)
{
  sx_check_eq(h_out + GUARD, want, h_n, label);
  sx_check_eq(h_out, h_g0, GUARD, "bytes before the output"); sx_check_eq(h_out + GUARD + h_n, h_g1, GUARD, "bytes after the output");
  sx_mark(); sx_free(h_out);
}
static uint16_t (*polys(unsigned k))[256] { uint16_t *p = sx_alloc(512 * k, 32, "poly"); sx_symbolic(p, 512 * k, "poly"); sx_readonly(p, 1); return (uint16_t (*)[256])p; }
static uint8_t *bytes(unsigned n) { uint8_t *p = (uint8_t *)sx_alloc(n + 1, 1, "bytes") + 1; sx_symbolic(p, n, "bytes"); sx_readonly(p - 1, 1); return p; }
/* the Cortex-M4 code leaves bits above the modulus in place: values are compared modulo it */
static void low(unsigned k, unsigned bits)
{
#ifdef H_M4
  uint16_t *o = (uint16_t *)(h_out + GUARD); unsigned i; for (i = 0; i < 256 * k; i++) o[i] &= (uint16_t)((1 << bits) - 1);
#endif
  (void)k; (void)bits;
}
static void pk(uint16_t (*p)[256], unsigned k, unsigned bits, const char *l) { sx_mark(); spec_pack(h_b, p[0], 256 * k, bits); sx_readonly(p, 0); done(h_b, l); sx_free(p); }
static void up(uint8_t *b, unsigned k, unsigned bits, const char *l) { sx_mark(); low(k, bits); spec_unpack(h_q[0], b, 256 * k, bits); done(h_q, l); sx_free(b - 1); }
#define PACK(fn, k, bits, call) do { uint16_t (*p)[256] = polys(k); uint8_t *o = out((k) * (bits) * 32, 0); call; pk(p, k, bits, fn); } while (0)
#define UNPACK(fn, k, bits, call) do { uint8_t *b = bytes((k) * (bits) * 32); uint16_t *o = out((k) * 512, 0); call; up(b, k, bits, fn); } while (0)
typedef uint16_t (*V)[256];
void harness_pack(void)
{
#if defined(H_AVX)
  PACK("pack_3bit", 1, 3, SABER_pack_3bit(o, p[0])); UNPACK("un_pack3bit", 1, 3, SABER_un_pack3bit(b, o));
  PACK("pack_6bit", 1, 6, SABER_pack_6bit(o, p[0])); UNPACK("un_pack6bit", 1, 6, SABER_un_pack6bit(b, o));
  PACK("pack_4bit", 1, 4, SABER_pack_4bit(o, p[0])); UNPACK("un_pack4bit", 1, 4, SABER_un_pack4bit(b, o));
  UNPACK("poly_un_pack13bit", 1, 13, SABER_poly_un_pack13bit(b, o));
  PACK("pack10bit", SP_L, 10, SABER_pack10bit(o, p)); UNPACK("un_pack10bit", SP_L, 10, SABER_un_pack10bit(b, (V)o));
  PACK("pack13bit", SP_L, 13, SABER_pack13bit(o, p)); UNPACK("un_pack13bit", SP_L, 13, SABER_un_pack13bit(b, (V)o));
  PACK("pack11bit", SP_L, 11, SABER_pack11bit(o, p)); UNPACK("un_pack11bit", SP_L, 11, SABER_un_pack11bit(b, (V)o));
  PACK("pack14bit", SP_L, 14, SABER_pack14bit(o, p)); UNPACK("un_pack14bit", SP_L, 14, SABER_un_pack14bit(b, (V)o));
  PACK("POLVEC2BS p", SP_L, 10, POLVEC2BS(o, p, 1024)); UNPACK("BS2POLVEC p", SP_L, 10, BS2POLVEC(b, (V)o, 1024));
  PACK("POLVEC2BS q", SP_L, 13, POLVEC2BS(o, p, 8192)); UNPACK("BS2POLVEC q", SP_L, 13, BS2POLVEC(b, (V)o, 8192));
#elif defined(H_M0)
  PACK("pack_3bit", 1, 3, SABER_pack_3bit(o, p[0])); UNPACK("un_pack3bit", 1, 3, SABER_un_pack3bit(b, o));
  PACK("pack_4bit", 1, 4, SABER_pack_4bit(o, p[0])); UNPACK("un_pack4bit", 1, 4, SABER_un_pack4bit(b, o));
  PACK("pack_6bit", 1, 6, SABER_pack_6bit(o, p[0])); UNPACK("un_pack6bit", 1, 6, SABER_un_pack6bit(b, o));
  PACK("POLVECp2BS", SP_L, 10, POLVECp2BS(o, p)); UNPACK("BS2POLVECp", SP_L, 10, BS2POLVECp(b, (V)o));
  PACK("POLVECq2BS", SP_L, 13, POLVECq2BS(o, p)); UNPACK("BS2POLVECq", SP_L, 13, BS2POLVECq(b, (V)o));
  UNPACK("BS2POLq", 1, 13, BS2POLq(b, o));
  PACK("POLp2BS", SP_L, 10, { unsigned i; for (i = 0; i < SP_L; i++) POLp2BS(o, p[i], i); });
  UNPACK("BS2POLp", SP_L, 10, { unsigned i; for (i = 0; i < SP_L; i++) BS2POLp(i, b, o + 256 * i); });
#elif defined(H_M4)
  PACK("POLT2BS", 1, SP_ET, POLT2BS(o, p[0])); UNPACK("BS2POLT", 1, SP_ET, BS2POLT(b, o));
  PACK("POLp2BS", 1, 10, POLp2BS(o, p[0])); UNPACK("BS2POLp", 1, 10, BS2POLp(b, o));
  PACK("POLq2BS", 1, 13, POLq2BS(o, p[0])); UNPACK("BS2POLq", 1, 13, BS2POLq(b, o));
  PACK("POLVECp2BS", SP_L, 10, POLVECp2BS(o, p)); UNPACK("BS2POLVECp", SP_L, 10, BS2POLVECp(b, (V)o));
  PACK("POLVECq2BS", SP_L, 13, POLVECq2BS(o, p)); UNPACK("BS2POLVECq", SP_L, 13, BS2POLVECq(b, (V)o));
  PACK("POLmsg2BS", 1, 1, POLmsg2BS(o, p[0])); UNPACK("BS2POLmsg", 1, 1, BS2POLmsg(b, o));
#else
  PACK("POLT2BS", 1, SP_ET, POLT2BS(o, p[0])); UNPACK("BS2POLT", 1, SP_ET, BS2POLT(b, o));
  PACK("POLVECp2BS", SP_L, 10, POLVECp2BS(o, p)); UNPACK("BS2POLVECp", SP_L, 10, BS2POLVECp(b, (V)o));
  PACK("POLVECq2BS", SP_L, SP_EQ, POLVECq2BS(o, p)); UNPACK("BS2POLVECq", SP_L, SP_EQ, BS2POLVECq(b, (V)o));
  PACK("POLmsg2BS", 1, 1, POLmsg2BS(o, p[0])); UNPACK("BS2POLmsg", 1, 1, BS2POLmsg(b, o));
#endif
}
/* unpacking what was packed gives back the coefficients */
#define RT(fn, k, bits, call) do { uint16_t (*p)[256] = polys(k), (*r)[256]; uint8_t *o = sx_alloc((k) * (bits) * 32, 1, "o"); unsigned i; r = (V)out((k) * 512, 0); call; sx_mark(); low(k, bits); \
  for (i = 0; i < 256 * (k); i++) h_q[0][i] = p[0][i] & ((1 << (bits)) - 1); done(h_q, fn); sx_free(p); sx_free(o); } while (0)
void harness_roundtrip(void)
{
#if defined(H_AVX)
  RT("p", SP_L, 10, (POLVEC2BS(o, p, 1024), BS2POLVEC(o, r, 1024))); RT("q", SP_L, 13, (POLVEC2BS(o, p, 8192), BS2POLVEC(o, r, 8192)));
#elif !defined(H_M0)
  RT("T", 1, SP_ET, (POLT2BS(o, p[0]), BS2POLT(o, r[0]))); RT("p", SP_L, 10, (POLVECp2BS(o, p), BS2POLVECp(o, r))); RT("q", SP_L, SP_EQ, (POLVECq2BS(o, p), BS2POLVECq(o, r)));
  RT("msg", 1, 1, (POLmsg2BS(o, p[0]), BS2POLmsg(o, r[0])));
#else
  RT("p", SP_L, 10, (POLVECp2BS(o, p), BS2POLVECp(o, r))); RT("q", SP_L, 13, (POLVECq2BS(o, p), BS2POLVECq(o, r)));
#endif
}
#ifdef H_X4
/* the batched forms: four outputs, four inputs */
static uint8_t *h_o4[4]; static uint16_t (*h_p4[4])[256];
static void start4(unsigned k, unsigned n, int unpack)
{
  static const char *nm[4] = {"poly0", "poly1", "poly2", "poly3"}; int i;
  for (i = 0; i < 4; i++) {
    h_p4[i] = sx_alloc(512 * k, 32, nm[i]); h_o4[i] = (uint8_t *)sx_alloc(n + 1, 1, "o") + 1;
    if (unpack) { sx_symbolic(h_o4[i], n, nm[i]); sx_readonly(h_o4[i] - 1, 1); } else { sx_symbolic(h_p4[i], 512 * k, nm[i]); sx_readonly(h_p4[i], 1); }
  }
}
static void end4(unsigned k, unsigned bits, int unpack, const char *l)
{
  int i; sx_mark();
  for (i = 0; i < 4; i++) {
    if (unpack) { spec_unpack(h_q[0], h_o4[i], 256 * k, bits); sx_check_eq(h_p4[i], h_q, 512 * k, l); } else { spec_pack(h_b, h_p4[i][0], 256 * k, bits); sx_check_eq(h_o4[i], h_b, 32 * k * bits, l); }
    sx_free(h_o4[i] - 1); sx_free(h_p4[i]);
  }
}
typedef __m256i (*M)[16];
void harness_pack4(void)
{
  uint8_t **o = h_o4; uint16_t (**p)[256] = h_p4;
  load_values(); init_aux_avx();
  start4(1, 128, 0); SABER_pack_4bitX4(o[0], o[1], o[2], o[3], p[0][0], p[1][0], p[2][0], p[3][0]); end4(1, 4, 0, "pack_4bitX4");
  start4(1, 128, 1); SABER_un_pack4bitX4(o[0], o[1], o[2], o[3], p[0][0], p[1][0], p[2][0], p[3][0]); end4(1, 4, 1, "un_pack4bitX4");
  start4(3, 960, 0); POLVEC2BSX4(o[0], o[1], o[2], o[3], p[0], p[1], p[2], p[3], 1024); end4(3, 10, 0, "POLVEC2BSX4 p");
  start4(3, 1248, 0); POLVEC2BSX4(o[0], o[1], o[2], o[3], p[0], p[1], p[2], p[3], 8192); end4(3, 13, 0, "POLVEC2BSX4 q");
  start4(3, 960, 1); BS2POLVECX4(o[0], o[1], o[2], o[3], (M)p[0], (M)p[1], (M)p[2], (M)p[3], 1024); end4(3, 10, 1, "BS2POLVECX4 p");
  start4(3, 1248, 1); BS2POLVECX4(o[0], o[1], o[2], o[3], (M)p[0], (M)p[1], (M)p[2], (M)p[3], 8192); end4(3, 13, 1, "BS2POLVECX4 q");
}
#endif
