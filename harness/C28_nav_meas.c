/* C28: measurement records.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include <swiftnav/nav_meas.h>

typedef long double ld;
static int code_of(ld ms) { /* DF402 */
  if (ms < 32) return 0;
  int i = 1;
  while (i < 15 && ms >= (ld)(32u << i)) i++;
  return i;
}
static void lock_one(double t) {
  MC_POINT("lock time %g s", MC_D(t));
  u8 c = encode_lock_time(t);
  double back = decode_lock_time(c);
  mc_calls(2);
  ld ms = (ld)t * 1000;
  mc_outcome(c);
  /* on a boundary rounding to milliseconds may go either way */
  bool near = false;
  for (int i = 0; i < 15; i++)
    if (fabsl(ms - (ld)(32u << i)) < 1e-9L * ms) near = true;
  MC_CHECK(c == code_of(ms) || (near && abs(c - code_of(ms)) == 1), "encode", "code %d, expected %d", c, code_of(ms));
  MC_CHECK((ld)back <= (ld)t * (1 + 1e-9L), "overstated", "decodes to %g", back);
}
static void lock(void) {
  for (int c = 0; c < 256; c++) {
    if (!mc_mine()) continue;
    MC_POINT("lock time code %d", c);
    double t = decode_lock_time((u8)c);
    int i = c & 15;
    mc_calls(2);
    MC_CHECK(fabs(t - (i ? (16 << i) / 1000. : 0)) < 1e-9, "decode", "decodes to %.9g s", t);
    MC_CHECK(encode_lock_time(t) == i, "roundtrip", "%d decodes to %.9g s, which encodes as %d", i, t, encode_lock_time(t));
  }
  /* every millisecond of the range */
  for (int b = 0; b < 600; b++) {
    if (!mc_mine()) continue;
    for (int m = 0; m < 1000; m++) {
      lock_one(b + m / 1000.);
      if (mc_thorough()) lock_one(b + (m + 0.5) / 1000.), lock_one(b + (m + 0.999) / 1000.);
    }
  }
  for (int e = -1074; e < 1024; e++)
    for (int m = 0; m < 8; m++) {
      if (!mc_mine()) continue;
      lock_one(ldexp(1 + m / 8., e));
      lock_one(nextafter(ldexp(1 + m / 8., e), 0));
      lock_one(nextafter(ldexp(1 + m / 8., e), INFINITY));
    }
  static const double X[] = {0, 4294967.294, 4294967.295, 4294967.296, 4294967294., 4294967295., 4294967296., INFINITY, 1.7976931348623157e308};
  for (int i = 0; i < 9; i++)
    if (mc_mine()) lock_one(X[i]);
  /* monotone in geometric steps */
  for (int blk = 0; blk < 64; blk++) {
    if (!mc_mine()) continue;
    int last = -1;
    for (int k = 0; k < 2000; k++) {
      double t = 1e-3 * pow(2, (blk + k / 2000.) / 2.2);
      MC_POINT("lock time %g s", MC_D(t));
      int c = encode_lock_time(t);
      mc_calls(1);
      MC_CHECK(c >= last, "monotone", "code %d after %d", c, last);
      last = c;
    }
  }
}
static void flags(void) {
  for (int f = 0; f < 65536; f++) {
    if (!mc_mine()) continue;
    navigation_measurement_t m;
    for (int bg = 0; bg < 2; bg++) {
      memset(&m, bg ? 0x3f : 0, sizeof m);
      m.flags = (nav_meas_flags_t)f;
      MC_POINT("flags %x, rest of the record %d", f, bg);
      MC_CHECK(pseudorange_valid(&m) == ((f & 1) && !(f & 64)), "pseudorange", "pseudorange valid: %d", pseudorange_valid(&m));
      mc_calls(1);
    }
  }
}
/* one record for the comparisons */
#define ND 19
static double *dbl(navigation_measurement_t *m, int i) {
  double *d[ND] = {&m->raw_pseudorange, &m->raw_carrier_phase, &m->raw_measured_doppler, &m->raw_computed_doppler, &m->sat_pos[0], &m->sat_pos[1], &m->sat_pos[2], &m->sat_vel[0], &m->sat_vel[1], &m->sat_vel[2],
                   &m->sat_acc[0], &m->sat_acc[1], &m->sat_acc[2], &m->sat_clock_err, &m->sat_clock_err_rate, &m->cn0, &m->lock_time, &m->elevation, &m->tot.tow};
  return d[i];
}
static void rec(navigation_measurement_t *m, int b, int pad) {
  memset(m, pad, sizeof *m);
  static const double V[ND] = {2.1e7, 1.1e8, -2345.5, 2345.25, 1.5e7, -2.1e7, 3.3e6, -1200.5, 2900.25, 99.5, 0.25, -0.5, 0.125, 1e-4, -2e-9, 44.5, 123.25, 33.5, 345600.25};
  for (int i = 0; i < ND; i++) *dbl(m, i) = b == 0 ? 0 : b == 1 ? V[i] : -V[i] / 3;
  if (b == 2) m->tot.tow = 0;
  m->tot.wn = b == 1 ? 2100 : 1;
  m->eph_key = b == 1 ? 17 : b == 2 ? 0xFFFF : 0;
  m->sid = construct_sid(b == 1 ? CODE_GAL_E1B : b == 2 ? CODE_GLO_L1OF : CODE_GPS_L1CA, 5);
  m->flags = b == 1 ? 0x3F : b == 2 ? 0x40 : 0;
}
static void eq(navigation_measurement_t *a, navigation_measurement_t *b, bool want) {
  navigation_measurement_t ka = *a, kb = *b;
  bool g = nav_meas_equal(a, b), h = nav_meas_equal(b, a);
  mc_calls(2);
  MC_CHECK(g == want && h == want, "equal", "equal: %d and %d, expected %d", g, h, want);
  MC_CHECK(nav_meas_equal(a, a) && nav_meas_equal(b, b), "equal-self", "a record differs from itself");
  MC_CHECK(!memcmp(&ka, a, sizeof ka) && !memcmp(&kb, b, sizeof kb), "equal-input", "a record was modified");
}
static const double DV[] = {1e-9, 1e-6, 0.001, 0.5, 1, 1e6, 1e12};
static void equality(void) {
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < ND + 4; f++)
      for (int d = 0; d < 7; d++)
        for (int s = 0; s < 2; s++) {
          if (!mc_mine()) continue;
          navigation_measurement_t x, y;
          rec(&x, b, 0);
          rec(&y, b, 0x55);
          MC_POINT("record %d: identical apart from the padding", b);
          eq(&x, &y, true);
          MC_POINT("record %d: member %d changed by case %d, sign %d", b, f, d, s);
          if (f < ND) {
            double *p = dbl(&y, f), o = *p;
            if (f == ND - 1 && (d > 4)) continue;
            *p += s ? -DV[d] : DV[d];
            if (f == ND - 1) normalize_gps_time(&y.tot);
            if (f < ND - 1 && fabs(*p - o) < 1e-11) continue; /* lost in rounding */
            if (f == ND - 1 && d < 2) continue;
          } else if (f == ND) y.tot.wn = (s16)(y.tot.wn + (s ? -1 : 1) * (d + 1));
          else if (f == ND + 1) y.eph_key ^= (u16)(1u << (2 * d + s));
          else if (f == ND + 2) { if (s) y.sid.sat = (u16)(1 + (y.sid.sat + d) % 20); else y.sid.code = b == 0 ? CODE_GPS_L2CM : CODE_GPS_L1CA; }
          else y.flags ^= (nav_meas_flags_t)(1u << (2 * d + s));
          if (f == ND && y.tot.wn < 0) continue;
          eq(&x, &y, false);
        }
  /* differences below the tolerance and pairs of changes that cancel in a sum */
  for (int b = 0; b < 3; b++)
    for (int f = 0; f < ND - 1; f++)
      for (int g = f + 1; g < ND - 1; g++) {
        if (!mc_mine()) continue;
        navigation_measurement_t x, y;
        rec(&x, b, 0);
        rec(&y, b, 0);
        *dbl(&y, f) += 2, *dbl(&y, g) -= 2;
        MC_POINT("record %d: members %d and %d changed oppositely", b, f, g);
        eq(&x, &y, false);
        double t = *dbl(&x, f);
        *dbl(&x, f) = *dbl(&x, g), *dbl(&x, g) = t;
        rec(&y, b, 0);
        MC_POINT("record %d: members %d and %d swapped", b, f, g);
        eq(&x, &y, *dbl(&x, f) == *dbl(&y, f) && *dbl(&x, g) == *dbl(&y, g));
      }
}
static void stds(void) {
  for (int b = 0; b < 2; b++)
    for (int f = 0; f < 6; f++)
      for (int d = 0; d < 7; d++)
        for (int s = 0; s < 2; s++) {
          if (!mc_mine()) continue;
          measurement_std_t x, y;
          memset(&x, 0, sizeof x), memset(&y, 0x55, sizeof y);
          x.sid = y.sid = construct_sid(CODE_BDS2_B1, 9);
          x.iono_std = y.iono_std = b ? 1.5 : 0;
          x.tropo_std = y.tropo_std = b ? 0.25 : 0;
          x.range_std = y.range_std = b ? 3.75 : 0;
          x.flags = y.flags = b ? 0x13 : 0;
          MC_POINT("standard deviations %d: identical", b);
          MC_CHECK(measurement_std_equal(&x, &y) && measurement_std_equal(&y, &x), "std-equal", "differ");
          double e = s ? -DV[d] : DV[d];
          if (f == 0) y.iono_std += e;
          if (f == 1) y.tropo_std += e;
          if (f == 2) y.range_std += e;
          if (f == 3) y.flags ^= (u8)(1u << d);
          if (f == 4) y.sid.sat = (u16)(10 + d);
          if (f == 5) y.sid.code = d & 1 ? CODE_BDS2_B2 : CODE_GPS_L1CA;
          MC_POINT("standard deviations %d: member %d changed by case %d, sign %d", b, f, d, s);
          MC_CHECK(!measurement_std_equal(&x, &y) && !measurement_std_equal(&y, &x), "std-equal", "equal");
          mc_calls(4);
        }
}
static void order(void) {
  /* all pairs of signals: by code, then by satellite */
  for (int c = 0; c < CODE_COUNT; c++)
    for (int d = 0; d < CODE_COUNT; d++)
      for (int s = 1; s < 40; s += 3)
        for (int t = 1; t < 40; t += 3) {
          if (!mc_mine()) continue;
          navigation_measurement_t a, b;
          memset(&a, 0x11, sizeof a), memset(&b, 0x7f, sizeof b);
          a.sid.code = (code_t)c, a.sid.sat = (u16)s, b.sid.code = (code_t)d, b.sid.sat = (u16)t;
          int g = nav_meas_cmp(&a, &b), w = sid_compare(a.sid, b.sid);
          mc_calls(1);
          MC_POINT("code %d satellite %d against code %d satellite %d", c, s, d, t);
          MC_CHECK((g > 0) - (g < 0) == (w > 0) - (w < 0), "order", "compares as %d", g);
        }
}
/* satellite clock corrections for every signal */
static void clocks(void) {
  static const double CE[] = {0, 1e-12, -1e-9, 4.4e-4, -9.7e-4, 1e-3, -0.1}, CR[] = {0, 2.2e-12, -1e-9, 9.1e-10, 1e-6}, R[] = {0, 1, 2.1e7, 4.2e7, -5}, P[] = {0, 1.1e8, -2.3e8, 0.25}, D[] = {0, 4999.5, -3210.25};
  for (int c = 0; c < CODE_COUNT; c++)
    for (int e = 0; e < 7; e++)
      for (int r = 0; r < 5; r++)
        for (int i = 0; i < 5; i++)
          for (int p = 0; p < 4; p++)
            for (int d = 0; d < 3; d++) {
              if (!mc_mine()) continue;
              constellation_t co = code_to_constellation((code_t)c);
              u16 sat = co == CONSTELLATION_SBAS ? 120 : co == CONSTELLATION_QZS ? 193 : co == CONSTELLATION_GLO ? 3 : 1;
              navigation_measurement_t m, k;
              memset(&m, 0x3c, sizeof m);
              m.sid = construct_sid((code_t)c, sat);
              if (co == CONSTELLATION_GLO) continue; /* needs the slot map: separate space */
              m.raw_pseudorange = R[i], m.raw_carrier_phase = P[p], m.raw_measured_doppler = D[d], m.sat_clock_err = CE[e], m.sat_clock_err_rate = CR[r];
              k = m;
              ld f = sid_to_carr_freq(m.sid);
              double a = nav_meas_cor_sat_clk_on_pseudorange(&m), b = nav_meas_cor_sat_clk_on_measured_doppler(&m), q = nav_meas_cor_sat_clk_on_carrier_phase(&m);
              mc_calls(3);
              MC_POINT("code %d clock error %g rate %g pseudorange %g phase %g Doppler %g", c, MC_D(CE[e]), MC_D(CR[r]), MC_D(R[i]), MC_D(P[p]), MC_D(D[d]));
              MC_CHECK(fabsl(a - ((ld)R[i] + 299792458.0L * CE[e])) < 1e-7L, "clk-pseudorange", "pseudorange %.12g", a);
              MC_CHECK(fabsl(b - ((ld)D[d] + f * CR[r])) < 1e-9L, "clk-doppler", "Doppler %.12g", b);
              MC_CHECK(fabsl(q - ((ld)P[p] + f * CE[e])) < 5e-7L, "clk-phase", "phase %.12g", q);
              MC_CHECK(!memcmp(&m, &k, sizeof m), "clk-input", "the record was modified");
              mc_outcome(mc_hash(&a, sizeof a));
            }
}
#include <swiftnav/glo_map.h>
static void lk(void) {}
static void clocks_glo(void) {
  if (!mc_mine()) return;
  glo_map_init(lk, lk);
  for (int slot = 1; slot <= 28; slot++)
    for (int fcn = GLO_MIN_FCN; fcn <= GLO_MAX_FCN; fcn++) {
      glo_map_set_slot_id((u16)fcn, (u16)slot);
      for (int c = 0; c < 2; c++)
        for (int e = 0; e < 4; e++) {
          static const code_t C[] = {CODE_GLO_L1OF, CODE_GLO_L2OF};
          static const double CE[] = {0, 1e-9, -1.9e-3, 4.4e-5};
          navigation_measurement_t m;
          memset(&m, 0, sizeof m);
          m.sid = construct_sid(C[c], (u16)slot);
          m.raw_carrier_phase = 1e8, m.raw_measured_doppler = -321.5, m.sat_clock_err = CE[e], m.sat_clock_err_rate = CE[e] / 1000;
          int k = fcn - 8;
          ld f = c & 1 ? 1246e6L + 437500.0L * k : 1602e6L + 562500.0L * k;
          MC_POINT("GLONASS code %d slot %d channel %d clock error %g", c, slot, k, MC_D(CE[e]));
          double b = nav_meas_cor_sat_clk_on_measured_doppler(&m), q = nav_meas_cor_sat_clk_on_carrier_phase(&m);
          mc_calls(2);
          MC_CHECK(fabsl(b - (-321.5L + f * m.sat_clock_err_rate)) < 1e-9L, "clk-doppler", "Doppler %.12g", b);
          MC_CHECK(fabsl(q - (1e8L + f * CE[e])) < 5e-7L, "clk-phase", "phase %.12g", q);
        }
    }
}
/* each call alternates with the same call with one member changed */
static navigation_measurement_t N;
static double ft, fr;
static void near_lock(void) { lock_one(ft); }
static void near_unlock(void) {
  int i = (int)fr & 15;
  double t = decode_lock_time((u8)fr);
  mc_calls(1);
  MC_CHECK(fabs(t - (i ? (16 << i) / 1000. : 0)) < 1e-9, "decode", "code %d decodes to %.9g s", (int)fr, t);
}
static void near_clk(void) {
  ld f = N.sid.code == CODE_GLO_L1OF ? 1602e6L + 562500.0L * (N.sid.sat == 3 ? -4 : 5) : N.sid.code == CODE_GAL_E7I ? 1207.14e6L : N.sid.code == CODE_GPS_L2CM ? 1227.6e6L : 1575.42e6L;
  MC_POINT("code %d satellite %d clock error %g rate %g pseudorange %g phase %g Doppler %g, after a call that differs in one of them", N.sid.code, N.sid.sat, MC_D(N.sat_clock_err), MC_D(N.sat_clock_err_rate),
           MC_D(N.raw_pseudorange), MC_D(N.raw_carrier_phase), MC_D(N.raw_measured_doppler));
  double a = nav_meas_cor_sat_clk_on_pseudorange(&N), b = nav_meas_cor_sat_clk_on_measured_doppler(&N), q = nav_meas_cor_sat_clk_on_carrier_phase(&N);
  mc_calls(3);
  MC_CHECK(fabsl(a - (N.raw_pseudorange + 299792458.0L * N.sat_clock_err)) < 1e-7L, "clk-pseudorange", "pseudorange %.12g", a);
  MC_CHECK(fabsl(b - (N.raw_measured_doppler + f * N.sat_clock_err_rate)) < 1e-8L, "clk-doppler", "Doppler %.12g", b);
  MC_CHECK(fabsl(q - (N.raw_carrier_phase + f * N.sat_clock_err)) < 5e-7L, "clk-phase", "phase %.12g", q);
}
static void near_args(void) {
  glo_map_init(lk, lk);
  glo_map_set_slot_id(4, 3);
  glo_map_set_slot_id(13, 8);
  static const double D[] = {1e-6, 1e-4, 4e-4, 9e-4, 1e-2, 0.3};
  for (int i = 0; i < 18; i++)
    for (int k = 0; k < 8; k++) {
      if (!mc_mine()) continue;
      double t = i == 0 ? 0.016 : (32u << (i - 1)) / 1000.;
      t += k == 0 ? 0 : k == 1 ? 5e-4 : k == 2 ? -5e-4 : t * (k - 5) / 7;
      ft = t, near_lock();
      for (int d = 0; d < 6; d++)
        for (int g = -1; g <= 1; g += 2) {
          if (t + g * D[d] < 0) continue;
          ft = t + g * D[d], near_lock();
          ft = t, near_lock();
        }
      mc_history();
    }
  for (int a = 0; a < 256; a++) {
    if (!mc_mine()) continue;
    for (int b = 0; b < 256; b++) {
      MC_POINT("lock time code %d, then %d, then %d", a, b, a);
      fr = a, near_unlock();
      fr = b, near_unlock();
      ft = b * 0.01, near_lock();
      fr = a, near_unlock();
      mc_history();
    }
  }
  static const struct { code_t c; u16 s; } S[] = {{CODE_GPS_L1CA, 1}, {CODE_GPS_L2CM, 1}, {CODE_GPS_L1CA, 32}, {CODE_GAL_E7I, 4}, {CODE_GLO_L1OF, 3}, {CODE_GLO_L1OF, 8}};
  for (int a = 0; a < 6; a++)
    for (int v = 0; v < 8; v++) {
      if (!mc_mine()) continue;
      memset(&N, 0, sizeof N);
      N.raw_pseudorange = v & 1 ? 2.1e7 : 3.9e7, N.raw_carrier_phase = v & 2 ? 1.1e8 : -2.2e7, N.raw_measured_doppler = v & 4 ? -2345.5 : 511.25, N.sat_clock_err = v & 1 ? 4.4e-4 : -1.2e-5, N.sat_clock_err_rate = 2.2e-11;
      N.sid = construct_sid(S[a].c, S[a].s);
      static double *const p[] = {&N.raw_pseudorange, &N.raw_carrier_phase, &N.raw_measured_doppler, &N.sat_clock_err, &N.sat_clock_err_rate};
      static const double sc[] = {1e6, 1e6, 1000, 1e-3, 1e-9};
      near_each(p, sc, 5, near_clk);
      for (int b = 0; b < 6; b++) N.sid = construct_sid(S[b].c, S[b].s), near_clk(), N.sid = construct_sid(S[a].c, S[a].s), near_clk();
      mc_history();
    }
}
MC_SPACES({"lock-time", "all 256 codes; every millisecond up to 600 s, every binary exponent with 8 mantissas and neighbours", lock, 0},
          {"flags", "all 65536 flag words", flags, 0},
          {"equality", "3 records x every member x 14 changes; every pair of members changed oppositely or swapped", equality, 0},
          {"std-equality", "2 records x every member x 14 changes", stds, 0},
          {"order", "all pairs of codes x 13 x 13 satellites", order, 0},
          {"clock", "every code x 7 clock errors x 5 rates x 60 observations", clocks, 0},
          {"clock-glonass", "28 slots x 14 channels x 2 codes x 4 clock errors", clocks_glo, 0},
          {"near", "lock times around every boundary, every pair of lock time codes, 6 signals x 8 measurements: each call alternating with itself with one element changed", near_args, 0})
