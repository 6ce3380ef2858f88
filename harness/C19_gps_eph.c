/* C19: GPS LNAV ephemeris decoding.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include "eph_fields.h"

enum { WN, L2C, URA, HEALTH, IODC, TGD, TOC, AF2, AF1, AF0, IODE2, CRS, DN, M0, CUC, ECC, CUS, SQRTA, TOE, FIT, AODO, CIC, OMEGA0, CIS, INC, CRC, ARGP, OMEGADOT, IODE3, IDOT, NF };
typedef struct { short sf, word, first, len; } seg_t;
static const struct { const char *name; seg_t s[2]; } F[NF] = {
    {"week", {{1, 3, 1, 10}}}, {"L2 code", {{1, 3, 11, 2}}}, {"URA", {{1, 3, 13, 4}}}, {"health", {{1, 3, 17, 6}}}, {"IODC", {{1, 3, 23, 2}, {1, 8, 1, 8}}},
    {"TGD", {{1, 7, 17, 8}}}, {"toc", {{1, 8, 9, 16}}}, {"af2", {{1, 9, 1, 8}}}, {"af1", {{1, 9, 9, 16}}}, {"af0", {{1, 10, 1, 22}}},
    {"IODE (subframe 2)", {{2, 3, 1, 8}}}, {"crs", {{2, 3, 9, 16}}}, {"dn", {{2, 4, 1, 16}}}, {"m0", {{2, 4, 17, 8}, {2, 5, 1, 24}}}, {"cuc", {{2, 6, 1, 16}}},
    {"ecc", {{2, 6, 17, 8}, {2, 7, 1, 24}}}, {"cus", {{2, 8, 1, 16}}}, {"sqrta", {{2, 8, 17, 8}, {2, 9, 1, 24}}}, {"toe", {{2, 10, 1, 16}}}, {"fit", {{2, 10, 17, 1}}}, {"AODO", {{2, 10, 18, 5}}},
    {"cic", {{3, 3, 1, 16}}}, {"omega0", {{3, 3, 17, 8}, {3, 4, 1, 24}}}, {"cis", {{3, 5, 1, 16}}}, {"inc", {{3, 5, 17, 8}, {3, 6, 1, 24}}}, {"crc", {{3, 7, 1, 16}}},
    {"w", {{3, 7, 17, 8}, {3, 8, 1, 24}}}, {"omegadot", {{3, 9, 1, 24}}}, {"IODE (subframe 3)", {{3, 10, 1, 8}}}, {"inc_dot", {{3, 10, 9, 14}}}};
static int flen(int f) { return F[f].s[0].len + F[f].s[1].len; }
static void build(u32 w[3][8], const uint64_t *v, u32 noise) {
  for (int i = 0; i < 24; i++) ((u32 *)w)[i] = noise ^ (noise ? (u32)i * 0x01000193u & 0xC000003F : 0);
  for (int f = 0; f < NF; f++) {
    int left = flen(f);
    for (int s = 0; s < 2; s++) {
      seg_t g = F[f].s[s];
      if (!g.len) continue;
      left -= g.len;
      u32 m = ((u32)1 << g.len) - 1, sh = (u32)(30 - g.first + 1 - g.len);
      u32 *p = &w[g.sf - 1][g.word - 3];
      *p = (*p & ~(m << sh)) | (((u32)(v[f] >> left) & m) << sh);
    }
  }
}
static int fit_hours(int flag, int iodc) {
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}
static const float URAM[16] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
static void check(const uint64_t *v, u32 noise, double tot, int ref, int qzs) {
  u32 w[3][8], keep[3][8];
  build(w, v, noise);
  memcpy(keep, w, sizeof w);
  ephemeris_t e;
  memset(&e, noise & 1 ? 0x6b : 0, sizeof e);
  e.sid = construct_sid(qzs ? CODE_QZS_L1CA : CODE_GPS_L1CA, qzs ? 194 : 7);
  if (ref < 0) decode_ephemeris((const u32(*)[8])w, &e, tot), ref = 1876;
  else decode_ephemeris_with_wn_ref((const u32(*)[8])w, &e, tot, (u16)ref);
  mc_calls(1);
  MC_CHECK(!memcmp(keep, w, sizeof w), "input", "the subframes were modified");
  mc_outcome(mc_hash(&e.data, sizeof e.data));
  const ephemeris_kepler_t *k = &e.data.kepler;
  int iodc = (int)v[IODC];
  bool toe_ok = v[TOE] * 16 < 604800;
  bool want = v[IODE2] == v[IODE3] && v[IODE3] == (v[IODC] & 255) && toe_ok;
  MC_CHECK(e.valid == want, "valid", "valid %d, expected %d", e.valid, want);
  MC_CHECK(e.sid.sat == (qzs ? 194 : 7), "sid", "the signal id was changed");
  MC_CHECK(k->iodc == iodc && k->iode == (int)v[IODE3], "iod", "IODC %d IODE %d, expected %d %d", k->iodc, k->iode, iodc, (int)v[IODE3]);
  MC_CHECK(e.health_bits == v[HEALTH], "health", "health %d, expected %d", e.health_bits, (int)v[HEALTH]);
  MC_CHECK(e.ura == URAM[v[URA]], "ura", "URA %g for index %d", e.ura, (int)v[URA]);
  MC_CHECK(e.source == EPH_SOURCE_GPS_LNAV, "source", "source %d", e.source);
  if (!qzs) MC_CHECK(e.fit_interval == (u32)fit_hours((int)v[FIT], iodc) * 3600, "fit", "fit interval %u s, expected %d h", e.fit_interval, fit_hours((int)v[FIT], iodc));
  MC_CHECK(e.toe.tow == v[TOE] * 16., "toe", "toe %.9g", e.toe.tow);
  MC_CHECK(k->toc.tow == v[TOC] * 16., "toc", "toc %.9g", k->toc.tow);
  if (toe_ok) {
    int wn = (int)v[WN];
    while (wn < ref) wn += 1024;
    double d = v[TOE] * 16. - tot;
    int alt = wn;
    if (d > 302400) wn--;
    if (d < -302400) wn++;
    if (d != 302400 && d != -302400) alt = wn;
    MC_CHECK(e.toe.wn == wn || e.toe.wn == alt, "toe-week", "reference week %d, expected %d", e.toe.wn, wn);
    double dc = v[TOC] * 16. - v[TOE] * 16.;
    if (v[TOC] * 16 < 604800 && fabs(dc) < 302400) MC_CHECK(k->toc.wn == e.toe.wn, "toc-week", "clock week %d, expected %d", k->toc.wn, e.toe.wn);
  }
  MC_CHECK(k->tgd.gps_s[0] == (float)sc(sgn(v[TGD], 8), -31) && k->tgd.gps_s[1] == 0, "tgd", "TGD %.9g %.9g", k->tgd.gps_s[0], k->tgd.gps_s[1]);
  FIELD(k->af0, sc(sgn(v[AF0], 22), -31), "af0");
  FIELD(k->af1, sc(sgn(v[AF1], 16), -43), "af1");
  FIELD(k->af2, sc(sgn(v[AF2], 8), -55), "af2");
  FIELD(k->crs, sc(sgn(v[CRS], 16), -5), "crs");
  FIELD(k->crc, sc(sgn(v[CRC], 16), -5), "crc");
  FIELD(k->cuc, sc(sgn(v[CUC], 16), -29), "cuc");
  FIELD(k->cus, sc(sgn(v[CUS], 16), -29), "cus");
  FIELD(k->cic, sc(sgn(v[CIC], 16), -29), "cic");
  FIELD(k->cis, sc(sgn(v[CIS], 16), -29), "cis");
  FIELD(k->dn, sc(sgn(v[DN], 16), -43) * PI_GPS, "dn");
  FIELD(k->m0, sc(sgn(v[M0], 32), -31) * PI_GPS, "m0");
  FIELD(k->ecc, sc((int64_t)v[ECC], -33), "ecc");
  FIELD(k->sqrta, sc((int64_t)v[SQRTA], -19), "sqrta");
  FIELD(k->omega0, sc(sgn(v[OMEGA0], 32), -31) * PI_GPS, "omega0");
  FIELD(k->omegadot, sc(sgn(v[OMEGADOT], 24), -43) * PI_GPS, "omegadot");
  FIELD(k->w, sc(sgn(v[ARGP], 32), -31) * PI_GPS, "w");
  FIELD(k->inc, sc(sgn(v[INC], 32), -31) * PI_GPS, "inc");
  FIELD(k->inc_dot, sc(sgn(v[IDOT], 14), -43) * PI_GPS, "inc_dot");
}
static void bg(int b, uint64_t *v) {
  for (int f = 0; f < NF; f++) v[f] = b == 0 ? 0 : b == 1 ? (1ull << flen(f)) - 1 : (0x9E3779B97F4A7C15ull * (uint64_t)(f + 3) >> 20) & ((1ull << flen(f)) - 1);
  v[IODC] = b == 0 ? 0 : b == 1 ? 0x3ff : 0x1a5;
  v[IODE2] = v[IODE3] = v[IODC] & 255;
  v[TOE] = b == 0 ? 0 : b == 1 ? 37799 : 12345;
  v[TOC] = b == 2 ? 12345 : v[TOE];
}
static const u32 NOISE[] = {0, 0xFFFFFFFF, 0x6AAAAAAB};
static void fields(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(flen(f)); i++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        v[f] = pat(flen(f), i);
        for (int n = 0; n < 3; n++) {
          MC_POINT("field %d value %d background %d filler %x", f, (long long)v[f], b, NOISE[n]);
          check(v, NOISE[n], 100000 * n, n == 1 ? -1 : 2047, n == 2);
        }
      }
}
static void iods(void) {
  mc_quiet();
  for (int c = 0; c < 1024; c++)
    for (int a = -2; a < 12; a++)
      for (int fit = 0; fit < 2; fit++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(2, v);
        v[IODC] = (uint64_t)c;
        v[FIT] = (uint64_t)fit;
        uint64_t lo = (uint64_t)c & 255;
        v[IODE2] = a == -1 ? lo : a < 0 ? lo : a < 8 ? lo ^ (1u << a) : a == 8 ? lo : a == 9 ? (lo + 1) & 255 : a == 10 ? 0 : lo;
        v[IODE3] = a == -1 ? (lo + 1) & 255 : a < 0 ? lo : a < 8 ? lo ^ (1u << a) : a == 8 ? lo ^ 0x80 : a == 9 ? lo : a == 10 ? 0 : lo ^ 1;
        MC_POINT("IODC %d IODE %d %d fit flag %d", c, v[IODE2], v[IODE3], fit);
        check(v, NOISE[a & 1], 5000, 1876, 0);
      }
}
static void times(void) {
  mc_quiet();
  static const int refs[] = {-1, 1, 1023, 1024, 1876, 2046, 2047, 2048, 2049, 2400, 4095, 4097, 8192, 20000, 31700};
  for (int wn = 0; wn < 1024; wn += mc_thorough() ? 1 : 11)
    for (int t = 0; t < 28; t++)
      for (int o = 0; o < 13; o++) {
        if (!mc_mine()) continue;
        static const int toe[] = {0, 1, 450, 9449, 18899, 18900, 18901, 37350, 37798, 37799, 37800, 37801, 40000, 65535, 12345, 5400, 32768, 25000, 30000, 37400, 100, 200, 6000, 8000, 10000, 20000, 22000, 34567};
        static const double tot[] = {0, 6, 7200, 302394, 302400, 302406, 604794, 604799.5, 100000, 400000, 518400, 86400, 201600};
        uint64_t v[NF];
        bg(2, v);
        v[WN] = (uint64_t)wn;
        v[TOE] = (uint64_t)toe[t];
        v[TOC] = (uint64_t)toe[(t * 5 + o) % 28];
        for (int r = 0; r < 15; r++) {
          MC_POINT("week %d toe %d toc %d transmitted at %g reference week %d", wn, toe[t], v[TOC], MC_D(tot[o]), refs[r]);
          if (refs[r] == 1 && wn == 1) continue;
          check(v, 0, tot[o], refs[r], 0);
        }
      }
}
static void near_args(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int n = 0; n < 3; n++)
      for (int q = 0; q < 2; q++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(b, v);
        MC_POINT("background %d, filler %d, QZSS %d, after subframes that differ in one bit", b, n, q);
        NEAR_BITS(v, NF, flen, check(v, NOISE[n], 302400. * n, n == 1 ? -1 : 2047, q))
        mc_history();
      }
  /* transmission times close to each other on both sides of the half week, reference weeks on both sides of a cycle */
  static const double D[] = {-3600, -600, -60, -30, -6, -1, -0.5, 0.5, 1, 6, 30, 60, 600, 3600};
  for (int t = 0; t <= 37800; t += mc_thorough() ? 25 : 225)
    for (int a = 0; a < 14; a++)
      for (int c = 0; c < 14; c++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        bg(2, v);
        v[TOE] = (uint64_t)(t < 37800 ? t : 37799), v[TOC] = v[TOE], v[WN] = (uint64_t)(t % 1024);
        double e = (double)v[TOE] * 16, x = fmod(e + 302400 + D[a] + 604800, 604800), y = fmod(e + 302400 + D[c] + 604800, 604800);
        MC_POINT("toe %d, transmitted half a week and %g s later, then half a week and %g s", (int)v[TOE], MC_D(D[a]), MC_D(D[c]));
        check(v, 0, x, 2047, 0);
        check(v, 0, y, 2047, 0);
        check(v, 0, x, 2047 - 1024 * (c & 1), 0);
        check(v, 0, y, (int)v[WN] + 1024, 0);
        check(v, 0, y, (int)v[WN] + 1025, 0);
        mc_history();
      }
}
MC_SPACES({"near", "subframes alternating with themselves with one bit of one field changed; pairs of transmission times about half a week from toe and of reference weeks", near_args, 0},
          {"fields", "every field over its value patterns x 3 backgrounds x 3 fillings of the unused bits", fields, 0},
          {"issues-of-data", "every IODC x 14 relations of the two IODEs x fit flag", iods, 0},
          {"times", "broadcast weeks x 28 toe x 13 transmission times x 15 reference weeks", times, 0})
