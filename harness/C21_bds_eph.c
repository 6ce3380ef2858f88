/* C21: BeiDou D1 ephemeris and ionosphere decoding.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include "eph_fields.h"
#include <swiftnav/ionosphere.h>

enum { SOW1, SATH1, AODC, URAI, WN, TOC, TGD1, TGD2, AL0, AL1, AL2, AL3, BE0, BE1, BE2, BE3, AF2, AF0, AF1, AODE, SOW2, DN, CUC, M0, ECC, CUS, CRC, CRS, SQRTA, TOE, SOW3, INC, CIC, OMEGADOT, CIS, IDOT, OMEGA0, ARGP, NF };
typedef struct { short sf, word, first, len; } seg_t;
static const struct { const char *name; seg_t s[3]; } F[NF] = {
    {"SOW", {{1, 2, 1, 12}}}, {"SatH1", {{1, 2, 13, 1}}}, {"AODC", {{1, 2, 14, 5}}}, {"URAI", {{1, 2, 19, 4}}}, {"week", {{1, 3, 1, 13}}},
    {"toc", {{1, 3, 14, 9}, {1, 4, 1, 8}}}, {"TGD1", {{1, 4, 9, 10}}}, {"TGD2", {{1, 4, 19, 4}, {1, 5, 1, 6}}},
    {"alpha0", {{1, 5, 7, 8}}}, {"alpha1", {{1, 5, 15, 8}}}, {"alpha2", {{1, 6, 1, 8}}}, {"alpha3", {{1, 6, 9, 8}}},
    {"beta0", {{1, 6, 17, 6}, {1, 7, 1, 2}}}, {"beta1", {{1, 7, 3, 8}}}, {"beta2", {{1, 7, 11, 8}}}, {"beta3", {{1, 7, 19, 4}, {1, 8, 1, 4}}},
    {"af2", {{1, 8, 5, 11}}}, {"af0", {{1, 8, 16, 7}, {1, 9, 1, 17}}}, {"af1", {{1, 9, 18, 5}, {1, 10, 1, 17}}}, {"AODE", {{1, 10, 18, 5}}},
    {"SOW", {{2, 2, 1, 12}}}, {"dn", {{2, 2, 13, 10}, {2, 3, 1, 6}}}, {"cuc", {{2, 3, 7, 16}, {2, 4, 1, 2}}}, {"m0", {{2, 4, 3, 20}, {2, 5, 1, 12}}},
    {"ecc", {{2, 5, 13, 10}, {2, 6, 1, 22}}}, {"cus", {{2, 7, 1, 18}}}, {"crc", {{2, 7, 19, 4}, {2, 8, 1, 14}}}, {"crs", {{2, 8, 15, 8}, {2, 9, 1, 10}}},
    {"sqrta", {{2, 9, 11, 12}, {2, 10, 1, 20}}}, {"toe", {{2, 10, 21, 2}, {3, 2, 13, 10}, {3, 3, 1, 5}}},
    {"SOW", {{3, 2, 1, 12}}}, {"inc", {{3, 3, 6, 17}, {3, 4, 1, 15}}}, {"cic", {{3, 4, 16, 7}, {3, 5, 1, 11}}}, {"omegadot", {{3, 5, 12, 11}, {3, 6, 1, 13}}},
    {"cis", {{3, 6, 14, 9}, {3, 7, 1, 9}}}, {"inc_dot", {{3, 7, 10, 13}, {3, 8, 1, 1}}}, {"omega0", {{3, 8, 2, 21}, {3, 9, 1, 11}}}, {"w", {{3, 9, 12, 11}, {3, 10, 1, 21}}}};
static int flen(int f) { return F[f].s[0].len + F[f].s[1].len + F[f].s[2].len; }
static void build(u32 w[3][10], const uint64_t *v, u32 noise) {
  for (int i = 0; i < 30; i++) ((u32 *)w)[i] = noise;
  for (int f = 0; f < NF; f++) {
    int left = flen(f);
    for (int s = 0; s < 3; s++) {
      seg_t g = F[f].s[s];
      if (!g.len) continue;
      left -= g.len;
      u32 m = ((u32)1 << g.len) - 1, sh = (u32)(30 - g.first + 1 - g.len);
      u32 *p = &w[g.sf - 1][g.word - 1];
      *p = (*p & ~(m << sh)) | (((u32)(v[f] >> left) & m) << sh);
    }
  }
}
static const float URAM[15] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096};
static void check(const uint64_t *v, u32 noise) {
  u32 w[3][10], keep[3][10];
  build(w, v, noise);
  memcpy(keep, w, sizeof w);
  ephemeris_t e;
  memset(&e, noise & 1 ? 0x6b : 0, sizeof e);
  gnss_signal_t sid = construct_sid(CODE_BDS2_B1, 11);
  decode_bds_d1_ephemeris((const u32(*)[10])w, sid, &e);
  ionosphere_t io;
  memset(&io, 0x6b, sizeof io);
  decode_bds_d1_iono(w[0], &io);
  mc_calls(2);
  MC_CHECK(!memcmp(keep, w, sizeof w), "input", "the subframes were modified");
  mc_outcome(mc_hash(&e.data, sizeof e.data));
  const ephemeris_kepler_t *k = &e.data.kepler;
  MC_CHECK(e.sid.code == sid.code && e.sid.sat == sid.sat, "sid", "signal id");
  MC_CHECK(e.health_bits == v[SATH1], "health", "health %d", e.health_bits);
  MC_CHECK(e.source == EPH_SOURCE_BDS_D1_D2_NAV, "source", "source %d", e.source);
  int u = (int)v[URAI];
  MC_CHECK(e.ura == (u < 15 ? URAM[u] : INVALID_URA_VALUE), "ura", "accuracy %g for index %d", e.ura, u);
  int wn = (int)v[WN] + 1356;
  MC_CHECK(e.toe.wn == wn && k->toc.wn == wn, "week", "weeks %d %d, expected %d", e.toe.wn, k->toc.wn, wn);
  MC_CHECK(e.toe.tow == v[TOE] * 8. && k->toc.tow == v[TOC] * 8., "times", "toe %.9g toc %.9g", e.toe.tow, k->toc.tow);
  MC_CHECK(k->iode == v[TOE] * 8 / 720 % 240 && k->iodc == v[TOC] * 8 / 720 % 240, "iod", "issue of data %d %d", k->iode, k->iodc);
  MC_CHECK(fabsl(k->tgd.bds_s[0] - sgn(v[TGD1], 10) * 1e-10L) < 1e-14L && fabsl(k->tgd.bds_s[1] - sgn(v[TGD2], 10) * 1e-10L) < 1e-14L, "tgd", "group delays %.9g %.9g", k->tgd.bds_s[0], k->tgd.bds_s[1]);
  FIELD(k->af0, sc(sgn(v[AF0], 24), -33), "af0");
  FIELD(k->af1, sc(sgn(v[AF1], 22), -50), "af1");
  FIELD(k->af2, sc(sgn(v[AF2], 11), -66), "af2");
  FIELD(k->crs, sc(sgn(v[CRS], 18), -6), "crs");
  FIELD(k->crc, sc(sgn(v[CRC], 18), -6), "crc");
  FIELD(k->cuc, sc(sgn(v[CUC], 18), -31), "cuc");
  FIELD(k->cus, sc(sgn(v[CUS], 18), -31), "cus");
  FIELD(k->cic, sc(sgn(v[CIC], 18), -31), "cic");
  FIELD(k->cis, sc(sgn(v[CIS], 18), -31), "cis");
  FIELD(k->dn, sc(sgn(v[DN], 16), -43) * PI_GPS, "dn");
  FIELD(k->m0, sc(sgn(v[M0], 32), -31) * PI_GPS, "m0");
  FIELD(k->ecc, sc((int64_t)v[ECC], -33), "ecc");
  FIELD(k->sqrta, sc((int64_t)v[SQRTA], -19), "sqrta");
  FIELD(k->omega0, sc(sgn(v[OMEGA0], 32), -31) * PI_GPS, "omega0");
  FIELD(k->omegadot, sc(sgn(v[OMEGADOT], 24), -43) * PI_GPS, "omegadot");
  FIELD(k->w, sc(sgn(v[ARGP], 32), -31) * PI_GPS, "w");
  FIELD(k->inc, sc(sgn(v[INC], 32), -31) * PI_GPS, "inc");
  FIELD(k->inc_dot, sc(sgn(v[IDOT], 14), -43) * PI_GPS, "inc_dot");
  FIELD(io.a0, sc(sgn(v[AL0], 8), -30), "alpha0");
  FIELD(io.a1, sc(sgn(v[AL1], 8), -27), "alpha1");
  FIELD(io.a2, sc(sgn(v[AL2], 8), -24), "alpha2");
  FIELD(io.a3, sc(sgn(v[AL3], 8), -24), "alpha3");
  FIELD(io.b0, sc(sgn(v[BE0], 8), 11), "beta0");
  FIELD(io.b1, sc(sgn(v[BE1], 8), 14), "beta1");
  FIELD(io.b2, sc(sgn(v[BE2], 8), 16), "beta2");
  FIELD(io.b3, sc(sgn(v[BE3], 8), 16), "beta3");
  MC_CHECK(io.toa.wn == wn, "iono-week", "ionosphere week %d, expected %d", io.toa.wn, wn);
}
static void bg(int b, uint64_t *v) {
  for (int f = 0; f < NF; f++) v[f] = b == 0 ? 0 : b == 1 ? (1ull << flen(f)) - 1 : (0x9E3779B97F4A7C15ull * (uint64_t)(f + 3) >> 20) & ((1ull << flen(f)) - 1);
}
static const u32 NOISE[] = {0, 0xFFFFFFFF, 0x6AAAAAAB};
static void fields(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(flen(f)); i++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        v[f] = pat(flen(f), i);
        for (int n = 0; n < 3; n++) {
          MC_POINT("field %d value %d background %d filler %x", f, (long long)v[f], b, NOISE[n]);
          check(v, NOISE[n]);
        }
      }
}
static void times(void) {
  mc_quiet();
  for (int t = 0; t < 131072; t++) {
    if (!mc_mine()) continue;
    uint64_t v[NF];
    bg(2, v);
    v[TOE] = (uint64_t)t;
    v[TOC] = (uint64_t)(t * 7 + 1) & 131071;
    v[WN] = (uint64_t)t & 8191;
    MC_POINT("toe %d toc %d week %d", t, v[TOC], v[WN]);
    check(v, 0);
  }
}
static void near_args(void) {
  static const u32 NZ[] = {0, 0xFFFFFFFF, 0x6AAAAAAB};
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int n = 0; n < 3; n++)
      for (int w = 0; w < 4; w++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        MC_POINT("background %d, filler %d, after a message that differs in one bit", b, n);
        if (w == 0) {
          NEAR_BITS(v, NF, flen, check(v, NZ[n]))
        } else { /* whole fields changed */
          for (int f = 0; f < NF; f++) {
            uint64_t was = v[f], m = (1ull << flen(f)) - 1;
            v[f] = w == 1 ? ~was & m : w == 2 ? (was + 1) & m : was * 3 & m;
            check(v, NZ[n]);
            v[f] = was;
            check(v, NZ[n]);
          }
        }
        mc_history();
      }
}
MC_SPACES({"near", "messages alternating with themselves with one bit of one field or one field changed", near_args, 0},
          {"fields", "every field over its value patterns x 3 backgrounds x 3 fillings of the unused bits", fields, 0},
          {"times", "every toe, toc and week", times, 0})
