/* C37: BeiDou issue of data as a checksum of the broadcast parameters.
 * MC-flavours: san opt msan
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include "eph_fields.h"
#include <swiftnav/ephemeris.h>

/* packing order, widths and scales of the CNES algorithm */
enum { IDOT, AF2, AF1, AF0, CRS, DN, M0, CUC, ECC, CUS, SQA, CIC, OM0, CIS, INC, CRC, ARG, OMD, NF };
static const struct { short bits, sig, scale, angle; } F[NF] = {{14, 1, 43, 1}, {11, 1, 66, 0}, {22, 1, 50, 0}, {24, 1, 33, 0}, {18, 1, 6, 0}, {16, 1, 43, 1}, {32, 1, 31, 1}, {18, 1, 31, 0}, {32, 0, 33, 0}, {18, 1, 31, 0}, {32, 0, 19, 0}, {18, 1, 31, 0}, {32, 1, 31, 1}, {18, 1, 31, 0}, {32, 1, 31, 1}, {18, 1, 6, 0}, {32, 1, 31, 1}, {24, 1, 43, 1}};
static u32 expect(const uint64_t *v) {
  u32 r = 0;
  for (int f = 0; f < NF + 1; f++) {
    int n = f < NF ? F[f].bits : 5;
    for (int i = n - 1; i >= 0; i--) {
      u32 b = f < NF ? (u32)(v[f] >> i & 1) : 0;
      u32 top = (r >> 23 & 1) ^ b;
      r = (r << 1) & 0xFFFFFF;
      if (top) r ^= 0x864CFB;
    }
  }
  return r;
}
static void fill(ephemeris_t *e, const uint64_t *v, int how) {
  ephemeris_kepler_t *k = &e->data.kepler;
  double *p[NF] = {&k->inc_dot, &k->af2, &k->af1, &k->af0, &k->crs, &k->dn, &k->m0, &k->cuc, &k->ecc, &k->cus, &k->sqrta, &k->cic, &k->omega0, &k->cis, &k->inc, &k->crc, &k->w, &k->omegadot};
  for (int f = 0; f < NF; f++) {
    ld x = sc(F[f].sig ? sgn(v[f], F[f].bits) : (int64_t)v[f], -F[f].scale);
    /* the interface's value of pi, as the decoders use it, in two orders of rounding */
    *p[f] = !F[f].angle ? (double)x : how ? (double)x * 3.1415926535898 : (double)(x * PI_GPS);
  }
}
static void check(const uint64_t *v, int other, int how) {
  ephemeris_t e;
  memset(&e, other == 0 ? 0 : other == 1 ? 0xff : 0x5b, sizeof e);
  static const code_t C[] = {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B3I};
  e.sid = construct_sid(C[other % 3], (u16)(1 + other * 7));
  fill(&e, v, how);
  ephemeris_t keep = e;
  u32 g = get_bds2_iod_crc(&e), w = expect(v);
  mc_calls(1);
  MC_CHECK(g == w, "crc", "checksum %06x, expected %06x", g, w);
  MC_CHECK(!memcmp(&keep, &e, sizeof e), "input", "the ephemeris was modified");
  mc_outcome(g);
}
static void base(uint64_t *v, int b) {
  for (int f = 0; f < NF; f++) {
    uint64_t m = ((uint64_t)1 << F[f].bits) - 1;
    v[f] = b == 0 ? 0 : b == 1 ? m : b == 2 ? m / 3 : b == 3 ? mc_mix((uint64_t)f + 1) & m : m - (m >> 1);
  }
}
/* every pattern of every field on several backgrounds */
static void fields(void) {
  mc_quiet();
  for (int b = 0; b < 5; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(F[f].bits); i++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        base(v, b);
        v[f] = pat(F[f].bits, i);
        for (int o = 0; o < 3; o++)
          for (int how = 0; how < 2; how++) {
            MC_POINT("background %d, field %d = %x, unrelated members %d, rounding %d", b, f, (int)v[f], o, how);
            check(v, o, how);
          }
      }
}
/* all codes of the narrow fields */
static void all(void) {
  mc_quiet();
  for (int f = 0; f < NF; f++) {
    int bits = F[f].bits > (mc_thorough() ? 24 : 18) ? 0 : F[f].bits;
    for (uint64_t c = 0; bits && c < (uint64_t)1 << bits; c += 64) {
      if (!mc_mine()) continue;
      for (uint64_t k = c; k < c + 64; k++) {
        uint64_t v[NF];
        base(v, 3);
        v[f] = k;
        MC_POINT("field %d = %x", f, (int)k);
        check(v, 2, (int)(k & 1));
      }
    }
  }
}
/* every single bit and every pair of bits changes the checksum */
static void sensitive(void) {
  mc_quiet();
  int tot = 0, fb[512], fi[512];
  for (int f = 0; f < NF; f++)
    for (int i = 0; i < F[f].bits; i++) fb[tot] = f, fi[tot++] = i;
  for (int b = 0; b < 5; b++)
    for (int i = 0; i < tot; i++) {
      if (!mc_mine()) continue;
      uint64_t v[NF];
      base(v, b);
      ephemeris_t e;
      memset(&e, 0, sizeof e);
      e.sid = construct_sid(CODE_BDS2_B1, 12);
      fill(&e, v, 0);
      u32 c0 = get_bds2_iod_crc(&e);
      v[fb[i]] ^= (uint64_t)1 << fi[i];
      fill(&e, v, 0);
      u32 c1 = get_bds2_iod_crc(&e);
      MC_POINT("background %d, field %d bit %d", b, fb[i], fi[i]);
      MC_CHECK(c0 != c1, "bit", "the checksum did not change");
      for (int j = i + 1; j < tot; j++) {
        uint64_t u[NF];
        memcpy(u, v, sizeof u);
        u[fb[j]] ^= (uint64_t)1 << fi[j];
        fill(&e, u, 0);
        MC_POINT("background %d, field %d bit %d and field %d bit %d", b, fb[i], fi[i], fb[j], fi[j]);
        u32 c2 = get_bds2_iod_crc(&e);
        mc_calls(1);
        MC_CHECK(c2 != c0 && c2 != c1, "bits", "the checksum did not change");
      }
    }
}
#define len_of(f) F[f].bits
static void near_args(void) {
  mc_quiet();
  for (int b = 0; b < 5; b++)
    for (int o = 0; o < 3; o++)
      for (int how = 0; how < 2; how++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        base(v, b);
        MC_POINT("background %d, unrelated members %d, rounding %d, after an ephemeris that differs in one bit", b, o, how);
        NEAR_BITS(v, NF, len_of, check(v, o, how))
        mc_history();
      }
}
MC_SPACES({"near", "ephemerides alternating with themselves with one bit of one field changed", near_args, 0},
          {"fields", "every field pattern x backgrounds x contents of the unrelated members", fields, 0}, {"all", "all codes of the narrow fields", all, 0}, {"sensitive", "every single bit and pair of bits", sensitive, 0})
