/* C24: GPS almanac pages, almanac health and validity, almanac states.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include "eph_fields.h"
#include "orbit.h"
#include <swiftnav/almanac.h>

/* 64 data bits of a page: field = {word, first bit, length} pieces, most significant first */
enum { DID, SVID, ECC, TOA, INC, OMD, HLT, SQA, OM0, ARG, M0, AF0, AF1, NF };
typedef struct { short word, first, len; } seg_t;
static const struct { const char *name; seg_t s[2]; } F[NF] = {
    {"data id", {{3, 1, 2}}}, {"sv id", {{3, 3, 6}}}, {"eccentricity", {{3, 9, 16}}}, {"toa", {{4, 1, 8}}}, {"inclination", {{4, 9, 16}}}, {"omegadot", {{5, 1, 16}}}, {"health", {{5, 17, 8}}},
    {"sqrta", {{6, 1, 24}}}, {"omega0", {{7, 1, 24}}}, {"w", {{8, 1, 24}}}, {"m0", {{9, 1, 24}}}, {"af0", {{10, 1, 8}, {10, 20, 3}}}, {"af1", {{10, 9, 11}}}};
static int flen(int f) { return F[f].s[0].len + F[f].s[1].len; }
static void put(u32 w[8], int word, int first, int len, uint64_t v) {
  u32 m = ((u32)1 << len) - 1, sh = (u32)(30 - first + 1 - len);
  w[word - 3] = (w[word - 3] & ~(m << sh)) | (((u32)v & m) << sh);
}
static void build(u32 w[8], const uint64_t *v, u32 noise) {
  for (int i = 0; i < 8; i++) w[i] = noise;
  for (int f = 0; f < NF; f++) {
    int left = flen(f);
    for (int s = 0; s < 2; s++) {
      if (!F[f].s[s].len) continue;
      left -= F[f].s[s].len;
      put(w, F[f].s[s].word, F[f].s[s].first, F[f].s[s].len, v[f] >> left);
    }
  }
}
static const u32 NOISE[] = {0, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA};
static void check(const uint64_t *v, u32 noise) {
  u32 w[8], keep[8];
  build(w, v, noise);
  memcpy(keep, w, sizeof w);
  almanac_t a;
  memset(&a, 0x6b, sizeof a);
  bool r = almanac_decode(w, &a);
  mc_calls(1);
  MC_CHECK(!memcmp(keep, w, sizeof w), "input", "the words were modified");
  bool want = v[DID] == 1 && v[SVID] >= 1 && v[SVID] <= 32;
  MC_CHECK(r == want, "accept", "returned %d", r);
  MC_CHECK(!a.valid == !want, "valid", "valid flag %d", a.valid);
  mc_outcome(mc_hash(&a.data, sizeof a.data));
  if (!want || !r) return;
  MC_CHECK(a.sid.code == CODE_GPS_L1CA && a.sid.sat == v[SVID], "sid", "signal %d satellite %d", a.sid.code, a.sid.sat);
  MC_CHECK(a.fit_interval == 140 * 3600, "fit", "fit interval %u", a.fit_interval);
  MC_CHECK(a.ura == 900.f, "ura", "accuracy %g", a.ura);
  MC_CHECK(a.toa.wn == WN_UNKNOWN && a.toa.tow == (double)(v[TOA] * 4096), "toa", "reference time %d %g", a.toa.wn, a.toa.tow);
  MC_CHECK(a.health_bits == v[HLT], "health", "health %x", a.health_bits);
  const almanac_kepler_t *k = &a.data.kepler;
  FIELD(k->ecc, sc((int64_t)v[ECC], -21), "ecc");
  FIELD(k->sqrta, sc((int64_t)v[SQA], -11), "sqrta");
  FIELD(k->omegadot, sc(sgn(v[OMD], 16), -38) * PI_GPS, "omegadot");
  FIELD(k->omega0, sc(sgn(v[OM0], 24), -23) * PI_GPS, "omega0");
  FIELD(k->w, sc(sgn(v[ARG], 24), -23) * PI_GPS, "w");
  FIELD(k->m0, sc(sgn(v[M0], 24), -23) * PI_GPS, "m0");
  FIELD(k->af0, sc(sgn(v[AF0], 11), -20), "af0");
  FIELD(k->af1, sc(sgn(v[AF1], 11), -38), "af1");
  ld inc = (sc(sgn(v[INC], 16), -19) + 0.3L) * PI_GPS;
  MC_CHECK(fabsl(k->inc - inc) <= 1e-14L, "inc is exact", "inclination %.17g, expected %.17Lg", k->inc, inc);
}
static void base(uint64_t *v, int b) {
  for (int f = 0; f < NF; f++) v[f] = b == 0 ? 0 : b == 1 ? ((uint64_t)1 << flen(f)) - 1 : (0xB2D05E41ull >> f) & (((uint64_t)1 << flen(f)) - 1);
  v[DID] = 1;
  v[SVID] = b == 0 ? 1 : b == 1 ? 32 : 17;
  if (v[TOA] > 147) v[TOA] = 147;
}
static void page(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(flen(f)); i++) {
        uint64_t v[NF];
        base(v, b);
        v[f] = pat(flen(f), i);
        if (f == TOA && v[f] > 147) continue;
        if (!mc_mine()) continue;
        for (int n = 0; n < 4; n++) {
          MC_POINT("background %d, field %d = %x, other bits %x", b, f, (int)v[f], (int)NOISE[n]);
          check(v, NOISE[n]);
        }
      }
  for (int b = 0; b < 3; b++)
    for (int d = 0; d < 4; d++)
      for (int s = 0; s < 64; s++)
        for (int n = 0; n < 4; n++) {
          if (!mc_mine()) continue;
          uint64_t v[NF];
          base(v, b);
          v[DID] = (uint64_t)d;
          v[SVID] = (uint64_t)s;
          MC_POINT("data id %d sv id %d, background %d, other bits %x", d, s, b, (int)NOISE[n]);
          check(v, NOISE[n]);
        }
}
/* pairs of fields at extremes */
static void pairs(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int f = 2; f < NF; f++)
      for (int g = f + 1; g < NF; g++)
        for (int x = 0; x < 6; x++)
          for (int y = 0; y < 6; y++) {
            if (!mc_mine()) continue;
            uint64_t v[NF], mf = ((uint64_t)1 << flen(f)) - 1, mg = ((uint64_t)1 << flen(g)) - 1;
            const uint64_t vf[] = {0, 1, mf >> 1, mf - (mf >> 1), mf, mf / 3}, vg[] = {0, 1, mg >> 1, mg - (mg >> 1), mg, mg / 3};
            base(v, b);
            v[f] = vf[x], v[g] = vg[y];
            if (v[TOA] > 147) continue;
            MC_POINT("background %d, field %d = %x, field %d = %x", b, f, (int)v[f], g, (int)v[g]);
            check(v, NOISE[x & 3]);
          }
}
static void week(void) {
  mc_quiet();
  for (int ref = 0; ref < 32000; ref = ref < 4 ? ref + 1 : ref < 1020 ? ref + 127 : ref < 9000 ? ref + 313 : ref + 3331)
    for (int wn = 0; wn < 256; wn++)
      for (int n = 0; n < 4; n++) {
        if (!mc_mine()) continue;
        u32 w[8];
        for (int i = 0; i < 8; i++) w[i] = NOISE[n];
        put(w, 3, 1, 2, 1), put(w, 3, 3, 6, 51), put(w, 3, 9, 8, (u32)(wn * 37) % 148), put(w, 3, 17, 8, (u32)wn);
        almanac_ref_week_t r, d;
        memset(&r, 0x6b, sizeof r), memset(&d, 0x6b, sizeof d);
        MC_POINT("week number %d, reference week %d, other bits %x", wn, ref, (int)NOISE[n]);
        bool ok = almanac_decode_week_with_wn_ref(w, &r, (u16)ref), ok2 = almanac_decode_week(w, &d);
        mc_calls(2);
        MC_CHECK(ok && ok2, "week-accept", "refused");
        MC_CHECK(r.wna % 256 == wn && r.wna >= ref && r.wna < ref + 256, "week", "week %d", r.wna);
        MC_CHECK(d.wna % 256 == wn && d.wna >= GPS_WEEK_REFERENCE && d.wna < GPS_WEEK_REFERENCE + 256, "week-default", "week %d", d.wna);
        MC_CHECK(r.toa == (wn * 37) % 148 * 4096 && d.toa == r.toa, "week-toa", "time of applicability %d", r.toa);
        mc_outcome((uint64_t)(uint32_t)r.wna);
      }
  for (int toa = 0; toa < 148; toa++)
    for (int did = 0; did < 4; did++)
      for (int sv = 0; sv < 64; sv++)
        for (int n = 0; n < 4; n++) {
          if (!mc_mine()) continue;
          u32 w[8];
          for (int i = 0; i < 8; i++) w[i] = NOISE[n];
          put(w, 3, 1, 2, (u32)did), put(w, 3, 3, 6, (u32)sv), put(w, 3, 9, 8, (u32)toa);
          almanac_ref_week_t r;
          memset(&r, 0x6b, sizeof r);
          MC_POINT("data id %d sv id %d time %d, other bits %x", did, sv, toa, (int)NOISE[n]);
          bool want = did == 1 && sv == 51, ok = almanac_decode_week_with_wn_ref(w, &r, 2000);
          mc_calls(1);
          MC_CHECK(ok == want, "week-type", "returned %d", ok);
          if (want) MC_CHECK(r.toa == toa * 4096, "week-toa", "time of applicability %d", r.toa);
        }
}
/* where the 6 bit health of each satellite is */
static void hpos(int sat, int *sv, int *word, int *bit) {
  if (sat <= 24) *sv = 51, *word = 4 + (sat - 1) / 4, *bit = 1 + 6 * ((sat - 1) % 4);
  else if (sat == 25) *sv = 63, *word = 8, *bit = 19;
  else if (sat <= 29) *sv = 63, *word = 9, *bit = 1 + 6 * (sat - 26);
  else *sv = 63, *word = 10, *bit = 1 + 6 * (sat - 30);
}
static void health(void) {
  mc_quiet();
  for (int sat = 1; sat <= 32; sat++)
    for (int h = 0; h < 64; h++)
      for (int bg = 0; bg < 4; bg++)
        for (int n = 0; n < 4; n++) {
          if (!mc_mine()) continue;
          int sv, word, bit;
          u32 w[8];
          for (int i = 0; i < 8; i++) w[i] = NOISE[n];
          hpos(sat, &sv, &word, &bit);
          int exp[33] = {0};
          for (int s = 1; s <= 32; s++) {
            int sv2, wo, bi;
            hpos(s, &sv2, &wo, &bi);
            exp[s] = 0;
            if (sv2 != sv) continue;
            exp[s] = s == sat ? h : bg == 0 ? 0 : bg == 1 ? 63 : bg == 2 ? s : 63 - h;
            put(w, wo, bi, 6, (u32)exp[s]);
          }
          put(w, 3, 1, 2, 1), put(w, 3, 3, 6, (u32)sv);
          almanac_health_t a;
          memset(&a, 0x6b, sizeof a);
          MC_POINT("satellite %d health %x, background %d, other bits %x", sat, h, bg, (int)NOISE[n]);
          bool ok = almanac_decode_health(w, &a);
          mc_calls(1);
          MC_CHECK(ok, "health-accept", "refused");
          MC_CHECK(a.health_bits_valid == (sv == 51 ? 0xFFFFFFu : 0xFF000000u), "health-mask", "validity mask %x", a.health_bits_valid);
          for (int s = 1; s <= 32; s++)
            if (a.health_bits_valid >> (s - 1) & 1) MC_CHECK(a.health_bits[s - 1] == exp[s], "health-bits", "health of satellite %d is %x, expected %x", s, a.health_bits[s - 1], exp[s]);
          mc_outcome(mc_hash(&a, sizeof a));
        }
  for (int did = 0; did < 4; did++)
    for (int sv = 0; sv < 64; sv++)
      for (int n = 0; n < 4; n++) {
        if (!mc_mine()) continue;
        u32 w[8];
        for (int i = 0; i < 8; i++) w[i] = NOISE[n];
        put(w, 3, 1, 2, (u32)did), put(w, 3, 3, 6, (u32)sv);
        almanac_health_t a;
        memset(&a, 0x6b, sizeof a);
        MC_POINT("data id %d sv id %d, other bits %x", did, sv, (int)NOISE[n]);
        bool want = did == 1 && (sv == 51 || sv == 63), ok = almanac_decode_health(w, &a);
        mc_calls(1);
        MC_CHECK(ok == want, "health-type", "returned %d", ok);
        MC_CHECK(want || a.health_bits_valid == 0, "health-none", "validity mask %x of a refused page", a.health_bits_valid);
      }
}
/* validity and health verdicts */
static int deadl1(int h) { return (h >= 1 && h <= 3) || (h >= 10 && h <= 12) || (h >= 19 && h <= 24) || h >= 28; }
static void valid(void) {
  mc_quiet();
  static const double D[] = {-302400, -252001, -252000.01, -252000, -251999.99, -7201, -7200, -7199.5, -1, 0, 1, 7199.5, 7200, 7200.001, 7201, 251999.99, 252000, 252000.01, 252001, 302400};
  static const u32 FIT[] = {0, 2, 14400, 504000, 604800};
  static const double TOA[] = {0, 4096, 302400, 147 * 4096};
  for (int h = 0; h < 256; h++)
    for (int v = 0; v < 2; v++)
      for (int f = 0; f < 5; f++)
        for (int wn = 0; wn < 4; wn++)
          for (int to = 0; to < 4; to++) {
            if (!mc_mine()) continue;
            for (int d = 0; d < 20; d++)
              for (int uk = 0; uk < 2; uk++) {
                almanac_t a;
                memset(&a, 0, sizeof a);
                a.sid = construct_sid(CODE_GPS_L1CA, 7);
                a.valid = (u8)v, a.health_bits = (u8)h, a.fit_interval = FIT[f];
                a.toa.wn = wn == 0 ? 0 : wn == 1 ? 1 : wn == 2 ? 2100 : WN_UNKNOWN;
                a.toa.tow = TOA[to];
                gps_time_t t = {.tow = TOA[to] + D[d], .wn = wn < 2 ? 1 : 2100};
                normalize_gps_time(&t);
                if (t.wn < 0 || (a.toa.wn == 0 && uk)) continue;
                if (uk) t.wn = WN_UNKNOWN;
                if ((a.toa.wn == WN_UNKNOWN || uk) && fabs(D[d]) >= 302400 && FIT[f] >= 604800) continue; /* half a week: either way */
                MC_POINT("health %x valid %d fit %d week case %d time of applicability %g, %g s from it, week known %d", h, v, FIT[f], wn, MC_D(TOA[to]), MC_D(D[d]), !uk);
                int dhi = h >> 5, bad = (dhi && dhi != 2 && dhi != 3 && dhi != 4) || deadl1(h & 31);
                int want = v && !bad && FIT[f] > 0 && a.toa.wn != 0 && fabs(D[d]) <= FIT[f] / 2;
                int got = almanac_valid(&a, &t);
                mc_calls(2);
                MC_CHECK(!!got == want, "usable", "almanac usable: %d, expected %d", got, want);
                MC_CHECK(!!almanac_healthy(&a) == !bad, "healthy", "healthy: %d", almanac_healthy(&a));
              }
          }
}
/* state from the almanac */
static void state(void) {
  mc_quiet();
  static const double EC[] = {0, 0.0004, 0.02, 0.031}, INC[] = {0.3 * 3.1415926535898, 0.9, 1.05}, W[] = {-3.1, 0.4, 2.2}, OM[] = {-3.0, 0.2, 3.1}, CLK[] = {0, -9.7e-4, 4e-4};
  static const double D[] = {-252000, -100000.5, -7200, -1, 0, 0.25, 3600, 43200, 86400, 251999};
  static const double TOA[] = {0, 319488, 602112};
  int nm = mc_thorough() ? 25 : 7;
  for (int ec = 0; ec < 4; ec++)
    for (int in = 0; in < 3; in++)
      for (int w = 0; w < 3; w++)
        for (int om = 0; om < 3; om++)
          for (int m = 0; m < nm; m++)
            for (int c = 0; c < 3; c++)
              for (int to = 0; to < 3; to++) {
                if (!mc_mine()) continue;
                almanac_t a;
                memset(&a, 0, sizeof a);
                a.sid = construct_sid(m & 1 ? CODE_GPS_L1CA : CODE_GPS_L2CM, (u16)(1 + m));
                a.valid = 1, a.fit_interval = 504000, a.ura = 900, a.toa.wn = c == 2 ? WN_UNKNOWN : 2100, a.toa.tow = TOA[to];
                almanac_kepler_t *k = &a.data.kepler;
                k->m0 = -3.14 + 6.28 * m / (nm - 1), k->ecc = EC[ec], k->sqrta = c == 1 ? 5100.25 : 5153.6, k->omega0 = OM[om], k->omegadot = c == 0 ? 0 : c == 1 ? -8.1e-9 : 3.7e-7, k->w = W[w], k->inc = INC[in], k->af0 = CLK[c], k->af1 = c == 0 ? 0 : c == 1 ? 3.6e-12 : -3.7e-9;
                for (int d = 0; d < 10; d++) {
                  gps_time_t t = {.tow = TOA[to] + D[d], .wn = 2100};
                  normalize_gps_time(&t);
                  MC_POINT("eccentricity %g inclination %g w %g omega0 %g m0 %g clock %d toa %g, %g s from it", MC_D(EC[ec]), MC_D(INC[in]), MC_D(W[w]), MC_D(OM[om]), MC_D(k->m0), c, MC_D(TOA[to]), MC_D(D[d]));
                  double pos[3], vel[3], acc[3], ce, cr;
                  almanac_t keep = a;
                  s8 r = calc_sat_state_almanac(&a, &t, pos, vel, acc, &ce, &cr);
                  mc_calls(1);
                  MC_CHECK(r == 0, "state-return", "returned %d", r);
                  MC_CHECK(!memcmp(&keep, &a, sizeof a), "state-input", "the almanac was modified");
                  if (r) continue;
                  ld clk = (ld)k->af0 + (ld)k->af1 * D[d], p[3], v[3], ac[3], se;
                  om_kepler mk = {.m0 = k->m0, .ecc = k->ecc, .sqrta = k->sqrta, .omega0 = k->omega0, .omegadot = k->omegadot, .w = k->w, .inc = k->inc, .toe = a.toa.tow};
                  om_state(OM_GPS, &mk, D[d] - clk, p, v, ac, &se);
                  for (int j = 0; j < 3; j++)
                    MC_CHECK(fabsl(pos[j] - p[j]) < 1e-3L && fabsl(vel[j] - v[j]) < 1e-5L && fabsl(acc[j] - ac[j]) < 1e-7L, "state", "axis %d: %.9g %.9g %.9g, expected %.9Lg %.9Lg %.9Lg", j, pos[j], vel[j], acc[j], p[j], v[j], ac[j]);
                  ld rel = -2 * sqrtl(3.986005e14L) / (OM_C * OM_C) * k->ecc * k->sqrta * se;
                  MC_CHECK(fabsl(ce - clk - rel) < 2e-13L && fabsl(cr - k->af1) <= 1e-14L * fabsl((ld)k->af1), "state-clock", "clock %.15g rate %.15g, expected %.15Lg", ce, cr, clk + rel);
                  mc_outcome(mc_hash(pos, sizeof pos));
                }
                for (int bad = 0; bad < 6; bad++) {
                  almanac_t b = a;
                  gps_time_t t = {.tow = 302400, .wn = 2100};
                  if (b.toa.wn == WN_UNKNOWN) continue;
                  t = b.toa;
                  if (bad == 0) b.valid = 0;
                  if (bad == 1) b.health_bits = 0x1F;
                  if (bad == 2) b.fit_interval = 0;
                  if (bad == 3) b.toa.wn = 0;
                  if (bad == 4) t.tow += 252001;
                  if (bad == 5) t.tow -= 252001;
                  normalize_gps_time(&t);
                  double pos[3], vel[3], acc[3], ce, cr;
                  MC_POINT("unusable almanac, case %d, time of applicability %g", bad, MC_D(TOA[to]));
                  s8 r = calc_sat_state_almanac(&b, &t, pos, vel, acc, &ce, &cr);
                  mc_calls(1);
                  MC_CHECK(r == -1, "state-refused", "returned %d", r);
                }
              }
  /* SBAS: quadratic motion */
  static const double Q[] = {-252000, -600, -1, 0, 0.5, 240, 9999.5, 252000};
  for (int v = 0; v < 81; v++)
    for (int q = 0; q < 8; q++)
      for (int pl = 0; pl < 4; pl++) {
        if (!mc_mine()) continue;
        static const double X[] = {0, 10.24, -40.32}, A[] = {0, 0.0064, -0.0000125};
        almanac_t a;
        memset(&a, 0, sizeof a);
        a.sid = construct_sid(CODE_SBAS_L1CA, 129);
        a.valid = 1, a.fit_interval = 504000, a.toa.wn = 2100, a.toa.tow = pl * 200000.;
        for (int j = 0; j < 3; j++) a.data.xyz.pos[j] = (j == 2 ? 26000 : 3e7) * (pl >> j & 1 ? -1 : 1), a.data.xyz.vel[j] = X[(v / 3 + j * (v % 3)) % 3], a.data.xyz.acc[j] = A[(v / 9 + j * (v / 27)) % 3];
        gps_time_t t = a.toa;
        t.tow += Q[q];
        normalize_gps_time(&t);
        double pos[3], vel[3], acc[3], ce, cr;
        MC_POINT("SBAS almanac motion %d place %d, %g s from the reference time", v, pl, MC_D(Q[q]));
        s8 r = calc_sat_state_almanac(&a, &t, pos, vel, acc, &ce, &cr);
        mc_calls(1);
        MC_CHECK(r == 0 && ce == 0 && cr == 0, "sbas", "returned %d, clock %g rate %g", r, ce, cr);
        for (int j = 0; j < 3 && !r; j++) {
          ld dt = Q[q], p = a.data.xyz.pos[j] + (ld)a.data.xyz.vel[j] * dt + (ld)a.data.xyz.acc[j] * dt * dt / 2, vv = a.data.xyz.vel[j] + (ld)a.data.xyz.acc[j] * dt;
          MC_CHECK(fabsl(pos[j] - p) < 1e-6L + 1e-14L * fabsl(p) && fabsl(vel[j] - vv) < 1e-9L && acc[j] == a.data.xyz.acc[j], "sbas-state", "axis %d: %.12g %.12g", j, pos[j], vel[j]);
        }
      }
}
static void near_args(void) {
  mc_quiet();
  for (int b = 0; b < 3; b++)
    for (int n = 0; n < 4; n++) {
      if (!mc_mine()) continue;
      uint64_t v[NF];
      base(v, b);
      MC_POINT("background %d, other bits %x, after a page that differs in one bit", b, (int)NOISE[n]);
      NEAR_BITS(v, NF, flen, if (v[TOA] <= 147) check(v, NOISE[n]))
      mc_history();
    }
}
MC_SPACES({"near", "pages alternating with themselves with one bit of one field changed", near_args, 0},
          {"page", "3 backgrounds x every field x its value patterns, and every data and satellite id, x 4 fillings of the unused bits", page, 0},
          {"field-pairs", "3 backgrounds x every pair of fields x 6 x 6 extreme values", pairs, 0},
          {"week", "all 256 week numbers x reference weeks 0..9000, all page types x all times of applicability", week, 0},
          {"health-pages", "32 satellites x all 64 health values x 4 backgrounds x 4 fillings, all page types", health, 0},
          {"usable", "all 256 health words x valid flag x 5 fit intervals x 4 reference weeks x 4 times x 20 instants", valid, 0},
          {"state", "orbit corner grid x 10 instants, 6 unusable cases, SBAS motions", state, 0})
