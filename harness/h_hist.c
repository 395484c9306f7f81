/* The three calls, twice with the same arguments and the same random bytes: first from a fresh start, then after everything
   the code keeps in static storage has been given arbitrary contents (by the solver) or after other calls (natively). */
#if defined H_M4
#include "h_m4.c"
#elif defined H_X4
#include "h_x4.c"
#else
#include "h_kem.c"
#endif
#ifdef H_X4
#define H_K 4
#else
#define H_K 1
#endif
#include <string.h>
static uint8_t *h_a_pk, *h_a_sk, *h_a_ct, *h_o[2][5], h_r0[2][H_K * 96]; static unsigned h_pos[2][3];
static const unsigned h_len[5] = {H_K * SP_PKBYTES, H_K * SP_SKBYTES, H_K * SP_CTBYTES, H_K * 32, H_K * 32};
static void h_restart(const uint8_t *r, unsigned n)
{
  unsigned i; for (i = 0; i < n; i++) h_rng[i] = r[i]; h_rngpos = 0;
#ifdef H_POLYSTUB
  h_nm[4] = h_nm[5] = h_nm[6] = h_nb[4] = h_nb[5] = h_nb[6] = '0';
#endif
}
static void h_calls(uint8_t **o, unsigned *pos, const uint8_t *pk, const uint8_t *sk, const uint8_t *ct, const uint8_t *r, unsigned ops)
{
  h_restart(r, H_K * 96); if (ops & 1) crypto_kem_keypair(o[0], o[1]); pos[0] = h_rngpos;
  h_restart(r, H_K * 96); if (ops & 2) crypto_kem_enc(o[2], o[3], pk); pos[1] = h_rngpos;
  h_restart(r, H_K * 96); if (ops & 4) crypto_kem_dec(o[4], ct, sk); pos[2] = h_rngpos;
}
#ifndef SX_ENGINE
static uint64_t h_seed = 88172645463325252ULL;
static uint8_t h_rand(void) { h_seed ^= h_seed << 13; h_seed ^= h_seed >> 7; h_seed ^= h_seed << 17; return (uint8_t)(h_seed >> 24); }
/* another call, of one kind or of several, with arguments unrelated to those compared, equal to them, or equal in part */
static void h_mix(uint8_t *d, const uint8_t *a, unsigned n)
{
  unsigned how = h_rand() & 7, i; for (i = 0; i < n; i++) d[i] = how == 0 || (how == 1 && i < n / 2) || (how == 2 && i >= n / 2) ? h_rand() : a[i];
  if (how >= 3 && how <= 5) d[(h_rand() * 256u + h_rand()) % n] ^= 1 << (h_rand() & 7); else if (how == 6) d[n - 1 - h_rand() % 32] ^= 1 << (h_rand() & 7);
}
static void h_between(unsigned k)
{
  static uint8_t pk[H_K * SP_PKBYTES], sk[H_K * SP_SKBYTES], ct[H_K * SP_CTBYTES], r[H_K * 96], p[5][H_K * 4096]; uint8_t *o[5] = {p[0], p[1], p[2], p[3], p[4]}; unsigned pos[3], ops = k & 1 ? H_OPS : H_OPS & (1 << k / 2 % 3);
  h_mix(pk, h_a_pk, sizeof pk); h_mix(sk, h_a_sk, sizeof sk); h_mix(ct, h_a_ct, sizeof ct); h_mix(r, h_r0[0], sizeof r); h_calls(o, pos, pk, sk, ct, r, ops);
}
static int h_differ(void) { unsigned i; int d = memcmp(h_pos[0], h_pos[1], sizeof h_pos[0]); for (i = 0; i < 5; i++) if (H_OPS & (i < 2 ? 1 : i < 4 ? 2 : 4)) d |= memcmp(h_o[0][i], h_o[1][i], h_len[i]); return d; }
#endif
void harness_hist(void)
{
  static const char *nm[5] = {"pk", "sk", "ct", "ss of encapsulation", "ss of decapsulation"}; unsigned i, k;
  h_a_pk = sx_alloc(h_len[0], 1, "pk"); h_a_sk = sx_alloc(h_len[1], 1, "sk"); h_a_ct = sx_alloc(h_len[2], 1, "ct");
  for (k = 0; k < 2; k++) for (i = 0; i < 5; i++) h_o[k][i] = sx_alloc(h_len[i], 1, nm[i]);
  sx_symbolic(h_a_pk, h_len[0], "pk"); sx_symbolic(h_a_sk, h_len[1], "sk"); sx_symbolic(h_a_ct, h_len[2], "ct"); sx_symbolic(h_r0[0], sizeof h_r0[0], "rng");
  h_calls(h_o[0], h_pos[0], h_a_pk, h_a_sk, h_a_ct, h_r0[0], H_OPS);
#ifdef SX_ENGINE
  sx_havoc_globals(1);
  h_calls(h_o[1], h_pos[1], h_a_pk, h_a_sk, h_a_ct, h_r0[0], H_OPS);
#else
  for (k = 0; k < 192; k++) { h_between(k); h_calls(h_o[1], h_pos[1], h_a_pk, h_a_sk, h_a_ct, h_r0[0], H_OPS); if (h_differ()) break; }
#endif
  for (i = 0; i < 5; i++) if (H_OPS & (i < 2 ? 1 : i < 4 ? 2 : 4)) sx_check_eq(h_o[0][i], h_o[1][i], h_len[i], nm[i]);
  sx_check_eq(h_pos[0], h_pos[1], sizeof h_pos[0], "random bytes used");
}
