/* C23: GLONASS navigation strings and ephemeris.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "eph_fields.h"
#include "glo_str.h"
#include <swiftnav/gnss_time.h>

static uint64_t gb(const glo_string_t *s, int first, int len) {
  uint64_t v = 0;
  for (int i = len - 1; i >= 0; i--) v = v << 1 | (uint64_t)gs_get(s, first + i);
  return v;
}
static int64_t sm(const glo_string_t *s, int first, int len) { /* magnitude, sign in the bit above it */
  int64_t m = (int64_t)gb(s, first, len);
  return gs_get(s, first + len) ? -m : m;
}
static const float FT[] = {1.0f, 2.0f, 2.5f, 4.0f, 5.0f, 7.0f, 10.0f, 12.0f, 14.0f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, -1.0f};
/* what the decoders produce, collected */
typedef struct {
  ephemeris_t e;
  glo_time_t tk, toe;
  u8 age;
  float tau_gps;
} out_t;
static void blank(out_t *o, int fill) {
  memset(o, fill, sizeof *o);
  o->e.sid = construct_sid(CODE_GLO_L1OF, 3);
  o->e.valid = 0;
  o->e.health_bits = 0;
  o->e.fit_interval = fill ? 5432 : 0;
}
static bool dec(int n, const glo_string_t *s, out_t *o) {
  glo_string_t keep = *s;
  bool r = false;
  if (n == 1) r = decode_glo_string_1(s, &o->e, &o->tk);
  if (n == 2) r = decode_glo_string_2(s, &o->e, &o->toe);
  if (n == 3) r = decode_glo_string_3(s, &o->e, &o->toe);
  if (n == 4) r = decode_glo_string_4(s, &o->e, &o->tk, &o->toe, &o->age);
  if (n == 5) r = decode_glo_string_5(s, &o->e, &o->tk, &o->toe, &o->tau_gps);
  MC_CHECK(!memcmp(&keep, s, sizeof keep), "input", "the string was modified");
  mc_calls(1);
  return r;
}
static bool acceptable(int n, const glo_string_t *s) {
  if (gb(s, 81, 4) != (uint64_t)n) return false;
  if (n <= 3) {
    if (labs((long)sm(s, 9, 26)) > 55296000) return false;            /* 27000 km */
    if (labs((long)sm(s, 41, 23)) * 0x1p-20L > 4.3L) return false;    /* km/s */
    if (labs((long)sm(s, 36, 4)) * 0x1p-30L > 6.2e-9L) return false; /* km/s^2 */
  }
  if (n == 1) return gb(s, 72, 5) <= 23 && gb(s, 66, 6) <= 59;
  if (n == 2) return gb(s, 70, 7) >= 1 && gb(s, 70, 7) <= 95;
  if (n == 4) return gb(s, 11, 5) >= 1 && gb(s, 11, 5) <= NUM_SATS_GLO && gb(s, 16, 11) >= 1 && gb(s, 16, 11) <= 1461;
  if (n == 5) return gb(s, 32, 5) != 0 && labs((long)sm(s, 10, 21)) * 0x1p-30L <= 1.9e-3L;
  return true;
}
/* compare what string n sets; toe/tk parts only when asked */
static void fields(int n, const glo_string_t *s, const out_t *o, u32 fit0, int direct) {
  const ephemeris_glo_t *g = &o->e.data.glo;
  if (n <= 3) {
    FIELD(g->pos[n - 1], ldexpl((ld)sm(s, 9, 26), -11) * 1000, "pos");
    FIELD(g->vel[n - 1], ldexpl((ld)sm(s, 41, 23), -20) * 1000, "vel");
    FIELD(g->acc[n - 1], ldexpl((ld)sm(s, 36, 4), -30) * 1000, "acc");
  }
  if (n == 1) {
    static const int P1[] = {0, 30, 45, 60};
    int p = P1[gb(s, 77, 2)];
    u32 want = p ? (u32)(p + 10) * 60 : fit0 ? fit0 : 4200;
    MC_CHECK(o->e.fit_interval == want, "fit", "fit interval %u s, expected %u s", o->e.fit_interval, want);
    if (direct)
      MC_CHECK(o->tk.h == gb(s, 72, 5) && o->tk.m == gb(s, 66, 6) && o->tk.s == (gs_get(s, 65) ? 30. : 0.), "tk", "tk %d:%d:%g, expected %d:%d:%d", o->tk.h, o->tk.m, o->tk.s, (int)gb(s, 72, 5),
               (int)gb(s, 66, 6), gs_get(s, 65) * 30);
  }
  if (n == 2) {
    int tb = (int)gb(s, 70, 7);
    MC_CHECK(g->iod == ((tb * 900) & 127), "iod", "IOD %d for interval %d", g->iod, tb);
    if (direct) MC_CHECK(o->toe.h == tb / 4 && o->toe.m == tb % 4 * 15 && o->toe.s == 0, "tb", "toe %d:%d:%g for interval %d", o->toe.h, o->toe.m, o->toe.s, tb);
    if (direct) MC_CHECK((o->e.health_bits != 0) == gs_get(s, 80), "health-bn", "health %d, Bn %d", o->e.health_bits, gs_get(s, 80));
  }
  if (n == 3) {
    FIELD(g->gamma, ldexpl((ld)sm(s, 69, 10), -40), "gamma");
    if (direct) MC_CHECK((o->e.health_bits != 0) == gs_get(s, 65), "health-ln", "health %d, ln %d", o->e.health_bits, gs_get(s, 65));
  }
  if (n == 4) {
    FIELD(g->tau, ldexpl((ld)sm(s, 59, 21), -30), "tau");
    FIELD(g->d_tau, ldexpl((ld)sm(s, 54, 4), -30), "d_tau");
    MC_CHECK(o->e.ura == FT[gb(s, 30, 4)], "ura", "accuracy %g for F_T %d", o->e.ura, (int)gb(s, 30, 4));
    MC_CHECK(o->e.sid.sat == gb(s, 11, 5) && o->e.sid.code == CODE_GLO_L1OF, "slot", "satellite %d code %d, slot %d sent", o->e.sid.sat, o->e.sid.code, (int)gb(s, 11, 5));
    if (direct) {
      int nt = (int)gb(s, 16, 11);
      MC_CHECK(o->tk.nt == nt && o->toe.nt == nt, "nt", "day %d and %d, expected %d", o->tk.nt, o->toe.nt, nt);
      MC_CHECK(o->age == gb(s, 49, 5), "age", "age %d, expected %d", o->age, (int)gb(s, 49, 5));
    }
  }
  if (n == 5 && direct) {
    int n4 = (int)gb(s, 32, 5);
    MC_CHECK(o->tk.n4 == n4 && o->toe.n4 == n4, "n4", "cycle %d and %d, expected %d", o->tk.n4, o->toe.n4, n4);
    MC_CHECK(o->tau_gps == (float)ldexpl((ld)sm(s, 10, 21), -30), "tau_gps", "tau GPS %.9g, expected %.9Lg", o->tau_gps, ldexpl((ld)sm(s, 10, 21), -30));
  }
}
/* the fields of each string, including the unused ones: first bit, length, signed magnitude */
typedef struct { short first, len, sign; } fld;
#define POSVEL {9, 26, 1}, {36, 4, 1}, {41, 23, 1}
static const fld FL[5][9] = {
    {POSVEL, {65, 1, 0}, {66, 6, 0}, {72, 5, 0}, {77, 2, 0}, {79, 2, 0}},
    {POSVEL, {65, 5, 0}, {70, 7, 0}, {77, 1, 0}, {78, 3, 0}},
    {POSVEL, {65, 1, 0}, {66, 2, 0}, {68, 1, 0}, {69, 10, 1}, {80, 1, 0}},
    {{9, 2, 0}, {11, 5, 0}, {16, 11, 0}, {27, 3, 0}, {30, 4, 0}, {34, 15, 0}, {49, 5, 0}, {54, 4, 1}, {59, 21, 1}},
    {{9, 1, 0}, {10, 21, 1}, {32, 5, 0}, {37, 12, 0}, {49, 11, 0}, {60, 11, 0}, {71, 10, 0}}};
static int nf(int n) {
  int k = 0;
  while (k < 9 && FL[n - 1][k].len) k++;
  return k;
}
static void base(int n, int ctx, glo_string_t *s) {
  memset(s, 0, sizeof *s);
  uint64_t x = 0x9E3779B97F4A7C15ull * (uint64_t)(ctx * 5 + n);
  if (ctx) {
    if (n <= 3) {
      gs_put(s, 9, 26, ctx == 2 ? 55296000 : x % 55296001), gs_put(s, 35, 1, (uint64_t)ctx & 1);
      gs_put(s, 36, 4, ctx == 2 ? 6 : x >> 20 & 3), gs_put(s, 40, 1, x >> 33);
      gs_put(s, 41, 23, ctx == 2 ? 4508876 : (x >> 9) % 4508877), gs_put(s, 64, 1, (uint64_t)(ctx == 2));
      gs_put(s, 65, 16, n == 3 ? x >> 40 : 0);
    }
    if (n == 5) gs_put(s, 10, 21, x % 2000000), gs_put(s, 37, 44, x);
    if (n == 4) gs_put(s, 9, 2, x), gs_put(s, 27, 7, x >> 3), gs_put(s, 34, 47, x >> 5);
  }
  if (n == 1) gs_put(s, 65, 16, ctx == 0 ? 0 : ctx == 1 ? 1 | 21 << 1 | 10 << 7 | 1 << 12 | 1 << 14 : 1 | 59 << 1 | 23 << 7 | 3 << 12 | 2 << 14);
  if (n == 2) gs_put(s, 65, 16, (uint64_t)(ctx == 0 ? 1 : ctx == 1 ? 42 : 95) << 5 | (ctx == 2 ? 0xF01F : ctx == 1 ? 0x700A : 0));
  if (n == 4) gs_put(s, 11, 5, ctx == 0 ? 1 : ctx == 1 ? 13 : NUM_SATS_GLO), gs_put(s, 16, 11, ctx == 0 ? 1 : ctx == 1 ? 701 : 1461);
  if (n == 5) gs_put(s, 32, 5, ctx == 0 ? 1 : ctx == 1 ? 7 : 31);
  gs_put(s, 81, 4, (uint64_t)n);
  gs_put(s, 85, 1, ctx == 2);
}
static void run(int n, glo_string_t *s, int fill) {
  gs_seal(s);
  out_t o;
  blank(&o, fill);
  u32 fit0 = o.e.fit_interval;
  bool r = dec(n, s, &o), want = acceptable(n, s);
  mc_outcome((uint64_t)(r * 8 + n));
  MC_CHECK(r == want, "accept", "%s, expected it to be %s", r ? "accepted" : "refused", want ? "accepted" : "refused");
  MC_CHECK(!o.e.valid, "valid", "decoding one string made the ephemeris valid");
  if (r) fields(n, s, &o, fit0, 1);
}
/* one field: every value up to 11 bits, patterns otherwise, both signs */
static void one(void) {
  mc_quiet();
  for (int n = 1; n <= 5; n++)
    for (int ctx = 0; ctx < 3; ctx++)
      for (int f = 0; f < nf(n); f++) {
        fld d = FL[n - 1][f];
        int pats = d.len <= 11 ? 1 << d.len : pat_count(d.len);
        for (int i = 0; i < pats; i++) {
          if (!mc_mine()) continue;
          for (int sg = 0; sg <= d.sign; sg++) {
            glo_string_t s;
            base(n, ctx, &s);
            gs_put(&s, d.first, d.len, d.len <= 11 ? (uint64_t)i : pat(d.len, i));
            if (d.sign) gs_put(&s, d.first + d.len, 1, (uint64_t)sg);
            MC_POINT("string %d, base %d, field at bit %d = %d sign %d", n, ctx, d.first, (int)gb(&s, d.first, d.len), sg);
            run(n, &s, i & 1 ? 0x5b : 0);
          }
        }
      }
}
/* limits: every value within 4000 units of each limit; thorough: within 400000 */
static void limits(void) {
  mc_quiet();
  static const struct { int first, len; long lim; } L[] = {{9, 26, 55296000}, {41, 23, 4508876}, {36, 4, 6}};
  long w = mc_thorough() ? 400000 : 4000;
  for (int n = 1; n <= 3; n++)
    for (int k = 0; k < 3; k++)
      for (long v = L[k].lim - w; v <= L[k].lim + w; v++) {
        if (v < 0 || v >= 1L << L[k].len || !mc_mine()) continue;
        for (int sg = 0; sg < 2; sg++) {
          glo_string_t s;
          base(n, 1, &s);
          gs_put(&s, L[k].first, L[k].len, (uint64_t)v);
          gs_put(&s, L[k].first + L[k].len, 1, (uint64_t)sg);
          MC_POINT("string %d, field at bit %d = %ld sign %d", n, L[k].first, v, sg);
          run(n, &s, 0);
        }
      }
  for (long v = 2040109 - w; v <= 2040109 + w && v < 1 << 21; v++) {
    if (!mc_mine()) continue;
    for (int sg = 0; sg < 2; sg++) {
      glo_string_t s;
      base(5, 1, &s);
      gs_put(&s, 10, 21, (uint64_t)v);
      gs_put(&s, 31, 1, (uint64_t)sg);
      MC_POINT("string 5, tau GPS = %ld sign %d", v, sg);
      run(5, &s, 0);
    }
  }
}
/* two fields at once, edge patterns */
static void two(void) {
  mc_quiet();
  for (int n = 1; n <= 5; n++)
    for (int f = 0; f < nf(n); f++)
      for (int g = f + 1; g < nf(n); g++)
        for (int i = 0; i < 6; i++)
          for (int j = 0; j < 6; j++) {
            if (!mc_mine()) continue;
            for (int sg = 0; sg < 4; sg++) {
              glo_string_t s;
              base(n, 1, &s);
              fld a = FL[n - 1][f], b = FL[n - 1][g];
              if ((sg & 1 && !a.sign) || (sg & 2 && !b.sign)) continue;
              uint64_t pa[] = {0, 1, ((uint64_t)1 << a.len) - 1, (uint64_t)1 << (a.len - 1), 0x2AAAAAAA, 0x11111111}, pb[] = {0, 1, ((uint64_t)1 << b.len) - 1, (uint64_t)1 << (b.len - 1), 0x2AAAAAAA, 0x11111111};
              gs_put(&s, a.first, a.len, pa[i]);
              gs_put(&s, b.first, b.len, pb[j]);
              if (a.sign) gs_put(&s, a.first + a.len, 1, (uint64_t)sg & 1);
              if (b.sign) gs_put(&s, b.first + b.len, 1, (uint64_t)sg >> 1);
              MC_POINT("string %d, field at bit %d = %d, field at bit %d = %d, signs %d", n, a.first, (int)gb(&s, a.first, a.len), b.first, (int)gb(&s, b.first, b.len), sg);
              run(n, &s, 0x5b);
            }
          }
}
/* damage and string numbers */
static void damage(void) {
  mc_quiet();
  for (int n = 1; n <= 5; n++)
    for (int ctx = 0; ctx < 3; ctx++) {
      for (int a = 1; a <= 85; a++)
        for (int b = a; b <= 85; b++) {
          if (!mc_mine()) continue;
          glo_string_t s;
          base(n, ctx, &s);
          gs_seal(&s);
          gs_flip(&s, a);
          if (b != a) gs_flip(&s, b);
          MC_POINT("string %d, base %d, errors in bits %d and %d", n, ctx, a, b);
          out_t o;
          blank(&o, 0);
          bool r = dec(n, &s, &o);
          if (a == b && a <= 7) MC_CHECK(r == true, "check-bit", "refused for an error in a check bit");
          else MC_CHECK(r == false, "damaged", "a damaged string was accepted");
          MC_CHECK(!o.e.valid, "valid", "a damaged string made the ephemeris valid");
        }
      for (int m = 0; m < 16; m++)
        for (int d = 1; d <= 5; d++) {
          if (!mc_mine()) continue;
          glo_string_t s;
          base(n, ctx, &s);
          gs_put(&s, 81, 4, (uint64_t)m);
          gs_seal(&s);
          MC_POINT("contents of string %d numbered %d given to decoder %d", n, m, d);
          out_t o;
          blank(&o, 0);
          bool r = dec(d, &s, &o);
          MC_CHECK(r == acceptable(d, &s), "number", "%s", r ? "accepted" : "refused");
        }
    }
}
/* the whole ephemeris: every combination of string variants, into a fresh record or over an earlier one */
#define NV 7
static void variant(int n, int v, glo_string_t *s) {
  base(n, v < 3 ? v : 1, s);
  if (v == 3) { /* out of range */
    if (n == 1) gs_put(s, 72, 5, 24);
    if (n == 2) gs_put(s, 70, 7, 0);
    if (n == 3) gs_put(s, 9, 26, 55296001);
    if (n == 4) gs_put(s, 16, 11, 0);
    if (n == 5) gs_put(s, 32, 5, 0);
  }
  if (v == 4) gs_put(s, 81, 4, (uint64_t)(n % 5 + 1));
  gs_seal(s);
  if (v == 5) gs_flip(s, 20);
  if (v == 6) gs_flip(s, 3);
}
static long long start_of(int n4, int nt) { return 365LL * 16 + 4 - 5 + (long long)(n4 - 1) * 1461 + nt - 1; } /* days from 1980-01-06 to the day */
static void whole(void) {
  mc_quiet();
  int nfirst = 5;
  for (int c = 0; c < NV * NV * NV * NV * NV; c++)
    for (int prev = -1; prev < nfirst; prev++) {
      if (!mc_mine()) continue;
      glo_string_t s[5];
      bool all = true;
      int v[5], x = c;
      for (int n = 1; n <= 5; n++, x /= NV) {
        v[n - 1] = x % NV;
        variant(n, v[n - 1], &s[n - 1]);
        all = all && (v[n - 1] < 3 || v[n - 1] == 6);
      }
      ephemeris_t e;
      memset(&e, 0, sizeof e);
      gnss_signal_t sid = construct_sid(CODE_GLO_L1OF, 3);
      u32 fit0 = 0;
      if (prev >= 0) {
        glo_string_t q[5];
        int pv[5];
        for (int n = 1; n <= 5; n++) pv[n - 1] = prev < 3 ? prev : prev == 3 && n == 4 ? 3 : prev == 4 && n == 2 ? 5 : 2, variant(n, pv[n - 1], &q[n - 1]);
        decode_glo_ephemeris(q, sid, NULL, &e);
        fit0 = e.fit_interval;
      }
      mc_history();
      MC_POINT("string variants %d %d %d %d %d, record used before %d", v[0], v[1], v[2], v[3], v[4], prev);
      decode_glo_ephemeris(s, sid, NULL, &e);
      mc_calls(1);
      mc_outcome((uint64_t)(e.valid * 2 + (e.health_bits != 0)));
      MC_CHECK(e.valid == all, "eph-valid", "valid %d, expected %d", e.valid, all);
      MC_CHECK(e.source == EPH_SOURCE_GLO_FDMA, "source", "source %d", e.source);
      if (!all) {
        MC_CHECK(e.toe.wn == WN_UNKNOWN && e.toe.tow == TOW_UNKNOWN, "toe-unknown", "refused ephemeris has toe %d %g", e.toe.wn, e.toe.tow);
        continue;
      }
      out_t o;
      o.e = e;
      for (int n = 1; n <= 5; n++) fields(n, &s[n - 1], &o, fit0, 0);
      MC_CHECK((e.health_bits != 0) == (gs_get(&s[1], 80) || gs_get(&s[2], 65)), "eph-health", "health %d, Bn %d ln %d", e.health_bits, gs_get(&s[1], 80), gs_get(&s[2], 65));
      glo_time_t g;
      memset(&g, 0, sizeof g);
      int tb = (int)gb(&s[1], 70, 7);
      g.nt = (u16)gb(&s[3], 16, 11), g.n4 = (u8)gb(&s[4], 32, 5), g.h = (u8)(tb / 4), g.m = (u8)(tb % 4 * 15);
      long long utc = start_of(g.n4, g.nt) * 86400 + tb * 900 - 10800;
      gps_time_t t = glo2gps(&g, NULL);
      MC_CHECK(fabs(gpsdifftime(&e.toe, &t)) < 1e-6, "toe", "toe %d %.9f, glo2gps gives %d %.9f", e.toe.wn, e.toe.tow, t.wn, t.tow);
      double leap = e.toe.wn * 604800. + e.toe.tow - (double)utc;
      if (g.n4 < 26) MC_CHECK(leap > 9.5 && leap < 18.5, "toe-utc", "toe differs from the broadcast date by %.9g s", leap);
    }
}
/* one ephemeris decoded with several sets of UTC parameters in turn, and alternating with
 * itself with one bit of one string changed */
static glo_string_t us[5];
static void utc_call(const utc_params_t *p, double off, int sat) {
  ephemeris_t e;
  memset(&e, 0x33, sizeof e);
  gnss_signal_t sid = construct_sid(CODE_GLO_L1OF, (u16)sat);
  decode_glo_ephemeris(us, sid, p, &e);
  mc_calls(1);
  bool all = true;
  for (int n = 1; n <= 5; n++) all = all && acceptable(n, &us[n - 1]);
  MC_CHECK(e.valid == all, "eph-valid", "valid %d, expected %d", e.valid, all);
  MC_CHECK(e.sid.code == sid.code, "sid", "code %d", e.sid.code);
  if (!all) {
    MC_CHECK(e.toe.wn == WN_UNKNOWN && e.toe.tow == TOW_UNKNOWN, "toe-unknown", "refused ephemeris has toe %d %g", e.toe.wn, e.toe.tow);
    return;
  }
  out_t o;
  o.e = e;
  for (int n = 1; n <= 5; n++) fields(n, &us[n - 1], &o, 0x33333333, 0);
  int tb = (int)gb(&us[1], 70, 7), n4 = (int)gb(&us[4], 32, 5), nt = (int)gb(&us[3], 16, 11);
  double utc = (double)start_of(n4, nt) * 86400 + tb * 900 - 10800, d = e.toe.wn * 604800. + e.toe.tow - utc;
  if (n4 > 25) return; /* 2100 is not a leap year */
  MC_CHECK(p ? fabs(d - off) < 1e-5 : d > 9.5 && d < 18.5, "toe-utc", "toe differs from the broadcast date by %.9g s, expected %.9g s", d, off);
}
static void utc(void) {
  mc_quiet();
  static const int LS[] = {18, 0, 17, 19, 5, 30}, DAY[] = {1, 59, 60, 365, 366, 367, 700, 1095, 1461}, TB[] = {1, 11, 12, 13, 42, 83, 84, 94, 95}, N4[] = {1, 5, 7, 10, 25};
  for (int y = 0; y < 5; y++)
    for (int d = 0; d < 9; d++)
      for (int b = 0; b < 9; b++) {
        if (!mc_mine()) continue;
        for (int n = 1; n <= 5; n++) variant(n, 1, &us[n - 1]);
        gs_put(&us[1], 70, 7, (uint64_t)TB[b]), gs_put(&us[3], 16, 11, (uint64_t)DAY[d]), gs_put(&us[4], 32, 5, (uint64_t)N4[y]);
        for (int n = 0; n < 5; n++) gs_seal(&us[n]);
        utc_params_t p[6];
        memset(p, 0, sizeof p);
        for (int i = 0; i < 6; i++) {
          p[i].a0 = i == 2 ? 1e-3 : 0, p[i].dt_ls = p[i].dt_lsf = (s8)LS[i];
          p[i].tot.wn = (s16)(700 + N4[y] * 208), p[i].t_lse.wn = 30000;
        }
        for (int i = 0; i < 6; i++)
          for (int j = 0; j < 6; j++) {
            MC_POINT("cycle %d day %d interval %d, leap seconds %d, after a decode with %d", N4[y], DAY[d], TB[b], LS[j], LS[i]);
            utc_call(&p[i], LS[i], 3);
            utc_call(&p[j], LS[j], 3);
            utc_call(NULL, 0, 3);
            utc_call(&p[j], LS[j], 4);
          }
        mc_history();
      }
  for (int v = 0; v < 3; v++)
    for (int n = 0; n < 5; n++)
      for (int bit = 9; bit <= 84; bit++) {
        if (!mc_mine()) continue;
        for (int m = 1; m <= 5; m++) variant(m, v, &us[m - 1]);
        for (int k = 0; k < 3; k++) {
          if (k == 1) gs_put(&us[n], bit, 1, (uint64_t)!gs_get(&us[n], bit));
          if (k == 2) gs_put(&us[n], bit, 1, (uint64_t)!gs_get(&us[n], bit));
          gs_seal(&us[n]);
          MC_POINT("variant %d, bit %d of string %d changed in the second of three decodes, decode %d", v, bit, n + 1, k);
          int nt = (int)gb(&us[3], 16, 11);
          if (nt < 1 || nt > 1461) continue;
          utc_call(NULL, 0, 3);
        }
        mc_history();
      }
}
MC_SPACES({"utc", "405 dates x ordered pairs of 6 sets of UTC parameters; 3 ephemerides, each bit of each string changed between two equal decodes", utc, 0},
          {"fields", "every field of every string in 3 contexts: all values up to 11 bits, bit patterns beyond, both signs", one, 0},
          {"limits", "every value near every range limit, both signs", limits, 0},
          {"pairs", "every two fields of a string x 6 x 6 edge values x signs", two, 0},
          {"damage", "all single and double bit errors, all string numbers at all decoders", damage, 0},
          {"ephemeris", "all 7^5 combinations of string variants x fresh record and 5 earlier decodes", whole, 0})
