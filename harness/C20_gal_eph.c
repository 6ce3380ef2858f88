/* C20: Galileo I/NAV ephemeris decoding.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include "eph_fields.h"

enum { IOD1, TOE, M0, ECC, SQRTA, OMEGA0, INC, ARGP, IDOT, OMEGADOT, DN, CUC, CUS, CRC, CRS, SISA, SVID, CIC, CIS, TOC, AF0, AF1, AF2, BGDA, BGDB, HSB, HSE1, DVSB, DVSE1, WNG, TOWG, NF };
static const struct { const char *name; short page, first, len; } F[NF] = {
    {"IODnav", 1, 6, 10}, {"toe", 1, 16, 14}, {"m0", 1, 30, 32}, {"ecc", 1, 62, 32}, {"sqrta", 1, 94, 32},
    {"omega0", 2, 16, 32}, {"inc", 2, 48, 32}, {"w", 2, 80, 32}, {"inc_dot", 2, 112, 14},
    {"omegadot", 3, 16, 24}, {"dn", 3, 40, 16}, {"cuc", 3, 56, 16}, {"cus", 3, 72, 16}, {"crc", 3, 88, 16}, {"crs", 3, 104, 16}, {"SISA", 3, 120, 8},
    {"SVID", 4, 16, 6}, {"cic", 4, 22, 16}, {"cis", 4, 38, 16}, {"toc", 4, 54, 14}, {"af0", 4, 68, 31}, {"af1", 4, 99, 21}, {"af2", 4, 120, 6},
    {"BGD E1E5a", 5, 47, 10}, {"BGD E1E5b", 5, 57, 10}, {"E5b HS", 5, 67, 2}, {"E1B HS", 5, 69, 2}, {"E5b DVS", 5, 71, 1}, {"E1B DVS", 5, 72, 1}, {"week", 5, 73, 12}, {"TOW", 5, 85, 20}};
static void build(u8 p[5][16], const uint64_t *v, u8 noise) {
  memset(p, noise, 80);
  for (int i = 0; i < 5; i++) {
    p[i][0] = (u8)(((i + 1) << 2) | (p[i][0] & 3)); /* word type */
    if (i < 4) { /* IODnav in every word */
      p[i][0] = (u8)((p[i][0] & 0xFC) | (v[IOD1] >> 8));
      p[i][1] = (u8)v[IOD1];
    }
  }
  for (int f = 0; f < NF; f++)
    for (int b = 0; b < F[f].len; b++) {
      int at = F[f].first + b;
      u8 *q = &p[F[f].page - 1][at / 8], m = (u8)(0x80 >> (at % 8));
      if ((v[f] >> (F[f].len - 1 - b)) & 1) *q |= m;
      else *q &= (u8)~m;
    }
}
static float sisa_m(int i) {
  if (i < 50) return (float)i / 100;
  if (i < 75) return 0.5f + (float)(i - 50) * 2 / 100;
  if (i < 100) return 1.f + (float)(i - 75) * 4 / 100;
  return 2.f + (float)(i - 100) * 16 / 100;
}
static gps_time_t nearest(double tow, int wn, double t) {
  gps_time_t r;
  memset(&r, 0, sizeof r);
  r.tow = tow;
  double d = tow - t;
  r.wn = (s16)(d > 302400 ? wn - 1 : d < -302400 ? wn + 1 : wn);
  return r;
}
static void check(const uint64_t *v, u8 noise) {
  u8 p[5][16], keep[5][16];
  build(p, v, noise);
  memcpy(keep, p, sizeof p);
  ephemeris_t e;
  memset(&e, noise, sizeof e);
  e.sid = construct_sid(CODE_GAL_E1B, 3);
  bool r = decode_gal_ephemeris_safe((const u8(*)[16])p, &e);
  mc_calls(1);
  MC_CHECK(!memcmp(keep, p, sizeof p), "input", "the pages were modified");
  mc_outcome(mc_hash(&e.data, sizeof e.data) + r);
  if (v[TOWG] >= 604800) return; /* not a time of week */
  bool want = v[TOE] * 60 < 604800 && v[TOC] * 60 < 604800;
  MC_CHECK(r == want, "result", "result %d, expected %d", r, want);
  if (!want) return;
  ephemeris_t e2;
  memset(&e2, noise, sizeof e2);
  e2.sid = e.sid;
  decode_gal_ephemeris((const u8(*)[16])p, &e2);
  MC_CHECK(!memcmp(&e, &e2, sizeof e), "asserting", "the asserting variant decodes something else");
  const ephemeris_kepler_t *k = &e.data.kepler;
  MC_CHECK(k->iode == v[IOD1] && k->iodc == v[IOD1], "iod", "issue of data %d %d, expected %d", k->iode, k->iodc, (int)v[IOD1]);
  MC_CHECK(e.sid.sat == v[SVID] && e.sid.code == CODE_GAL_E1B, "sat", "satellite %d, expected %d", e.sid.sat, (int)v[SVID]);
  bool ok = (v[HSB] == 0 || v[HSB] == 2) && (v[HSE1] == 0 || v[HSE1] == 2);
  MC_CHECK(e.valid == ok, "valid", "valid %d for health %d %d", e.valid, (int)v[HSB], (int)v[HSE1]);
  MC_CHECK(e.fit_interval == 4 * 3600, "fit", "fit interval %u", e.fit_interval);
  MC_CHECK(e.source == EPH_SOURCE_GAL_INAV, "source", "source %d", e.source);
  int s = (int)v[SISA];
  if (s <= 125) MC_CHECK(fabsf(e.ura - sisa_m(s)) < 1e-5f, "sisa", "accuracy %.9g for index %d", e.ura, s);
  else if (s == 255) MC_CHECK(e.ura == INVALID_URA_VALUE, "sisa", "accuracy %.9g for index 255", e.ura);
  else MC_CHECK(e.ura >= 6 || e.ura == INVALID_URA_VALUE, "sisa", "accuracy %.9g for spare index %d", e.ura, s);
  gps_time_t toe = nearest((double)v[TOE] * 60, (int)v[WNG] + 1024, (double)v[TOWG]), toc = nearest((double)v[TOC] * 60, (int)v[WNG] + 1024, (double)v[TOWG]);
  MC_CHECK(e.toe.tow == toe.tow && k->toc.tow == toc.tow, "times", "toe %.9g toc %.9g, expected %.9g %.9g", e.toe.tow, k->toc.tow, toe.tow, toc.tow);
  if (fabs(toe.tow - (double)v[TOWG]) != 302400) MC_CHECK(e.toe.wn == toe.wn, "toe-week", "week of toe %d, expected %d", e.toe.wn, toe.wn);
  if (fabs(toc.tow - (double)v[TOWG]) != 302400) MC_CHECK(k->toc.wn == toc.wn, "toc-week", "week of toc %d, expected %d", k->toc.wn, toc.wn);
  MC_CHECK(k->tgd.gal_s[0] == (float)sc(sgn(v[BGDA], 10), -32) && k->tgd.gal_s[1] == (float)sc(sgn(v[BGDB], 10), -32), "bgd", "group delays %.9g %.9g", k->tgd.gal_s[0], k->tgd.gal_s[1]);
  FIELD(k->af0, sc(sgn(v[AF0], 31), -34), "af0");
  FIELD(k->af1, sc(sgn(v[AF1], 21), -46), "af1");
  FIELD(k->af2, sc(sgn(v[AF2], 6), -59), "af2");
  FIELD(k->crs, sc(sgn(v[CRS], 16), -5), "crs");
  FIELD(k->crc, sc(sgn(v[CRC], 16), -5), "crc");
  FIELD(k->cuc, sc(sgn(v[CUC], 16), -29), "cuc");
  FIELD(k->cus, sc(sgn(v[CUS], 16), -29), "cus");
  FIELD(k->cic, sc(sgn(v[CIC], 16), -29), "cic");
  FIELD(k->cis, sc(sgn(v[CIS], 16), -29), "cis");
  FIELD(k->dn, sc(sgn(v[DN], 16), -43) * PI_GPS, "dn");
  FIELD(k->m0, sc(sgn(v[M0], 32), -31) * PI_GPS, "m0");
  FIELD(k->ecc, sc((int64_t)v[ECC], -33), "ecc");
  FIELD(k->sqrta, sc((int64_t)v[SQRTA], -19), "sqrta");
  FIELD(k->omega0, sc(sgn(v[OMEGA0], 32), -31) * PI_GPS, "omega0");
  FIELD(k->omegadot, sc(sgn(v[OMEGADOT], 24), -43) * PI_GPS, "omegadot");
  FIELD(k->w, sc(sgn(v[ARGP], 32), -31) * PI_GPS, "w");
  FIELD(k->inc, sc(sgn(v[INC], 32), -31) * PI_GPS, "inc");
  FIELD(k->inc_dot, sc(sgn(v[IDOT], 14), -43) * PI_GPS, "inc_dot");
}
static void bg(int b, uint64_t *v) {
  for (int f = 0; f < NF; f++) v[f] = b == 0 ? 0 : b == 1 ? (1ull << F[f].len) - 1 : (0x9E3779B97F4A7C15ull * (uint64_t)(f + 3) >> 20) & ((1ull << F[f].len) - 1);
  v[TOE] = b == 0 ? 0 : b == 1 ? 10079 : 4321;
  v[TOC] = b == 0 ? 0 : b == 1 ? 10079 : 4320;
  v[TOWG] = b == 0 ? 0 : b == 1 ? 604799 : 260000;
  v[HSB] = v[HSE1] = b == 1 ? 2 : 0;
}
static const u8 NOISE[] = {0, 0xFF, 0xA5};
static void fields(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(F[f].len); i++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        v[f] = pat(F[f].len, i);
        for (int n = 0; n < 3; n++) {
          MC_POINT("field %d value %d background %d filler %x", f, (long long)v[f], b, NOISE[n]);
          check(v, NOISE[n]);
        }
      }
}
static void health(void) {
  mc_quiet();
  for (int h = 0; h < 64; h++)
    for (int s = 0; s < 64; s++) {
      if (!mc_mine()) continue;
      uint64_t v[NF];
      bg(2, v);
      v[HSB] = (uint64_t)h & 3;
      v[HSE1] = (uint64_t)h >> 2 & 3;
      v[DVSB] = (uint64_t)h >> 4 & 1;
      v[DVSE1] = (uint64_t)h >> 5;
      v[SVID] = (uint64_t)s;
      MC_POINT("health bits %x satellite %d", h, s);
      check(v, NOISE[s % 3]);
    }
}
static void times(void) {
  mc_quiet();
  static const int tm[] = {0, 1, 60, 2520, 5039, 5040, 5041, 7560, 10019, 10078, 10079, 10080, 12000, 16383};
  static const int tow[] = {0, 1, 2, 3600, 150000, 302339, 302340, 302399, 302400, 302401, 302461, 450000, 601199, 604798, 604799};
  for (int wn = 0; wn < 4096; wn += mc_thorough() ? 1 : 13)
    for (int a = 0; a < 14; a++)
      for (int c = 0; c < 14; c++)
        for (int t = 0; t < 15; t++) {
          if (!mc_mine()) continue;
          if (wn == 0 && 0) continue;
          uint64_t v[NF];
          bg(2, v);
          v[WNG] = (uint64_t)wn;
          v[TOE] = (uint64_t)tm[a];
          v[TOC] = (uint64_t)tm[c];
          v[TOWG] = (uint64_t)tow[t];
          MC_POINT("week %d toe %d toc %d TOW %d", wn, tm[a], tm[c], tow[t]);
          check(v, 0);
        }
}
#define len_of(f) F[f].len
static void near_args(void) {
  static const u32 NZ[] = {0, 0xFFFFFFFF, 0x6AAAAAAB};
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int n = 0; n < 3; n++)
      for (int w = 0; w < 4; w++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        MC_POINT("background %d, filler %d, after a message that differs in one bit", b, n);
        if (w == 0) {
          NEAR_BITS(v, NF, len_of, check(v, (u8)NZ[n]))
        } else { /* whole fields changed */
          for (int f = 0; f < NF; f++) {
            uint64_t was = v[f], m = (1ull << len_of(f)) - 1;
            v[f] = w == 1 ? ~was & m : w == 2 ? (was + 1) & m : was * 3 & m;
            check(v, (u8)NZ[n]);
            v[f] = was;
            check(v, (u8)NZ[n]);
          }
        }
        mc_history();
      }
}
MC_SPACES({"near", "messages alternating with themselves with one bit of one field or one field changed", near_args, 0},
          {"fields", "every field over its value patterns x 3 backgrounds x 3 fillings of the unused bits", fields, 0},
          {"health", "every health and data validity status x every satellite number", health, 0},
          {"times", "weeks x 14 toe x 14 toc x 15 times of week", times, 0})
