/* C14: GPS time arithmetic.
 * MC-lang: cxx
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <swiftnav/gnss_time.h>

typedef long double ld;
#define W 604800
static ld tot(const gps_time_t &t) { return (ld)t.wn * W + (ld)t.tow; }
/* exact to 1e-13 s even for the largest weeks */
static ld dif(const gps_time_t &a, const gps_time_t &b) { return (ld)(a.wn - b.wn) * W + ((ld)a.tow - (ld)b.tow); }
static gps_time_t G(int wn, double tow) {
  gps_time_t t;
  memset(&t, 0x77, sizeof t);
  t.tow = tow;
  t.wn = (s16)wn;
  return t;
}
static const int WN[] = {0, 1, 2, 834, 1023, 1024, 1025, 1876, 2047, 2048, 2294, 2899, 4096, 32766, 32767};
static const int NWN = sizeof WN / sizeof WN[0];
static double TOW[32];
static int NTOW;
static void setup(void) {
  NTOW = 0;
  static const double b[] = {0, 1e-12, 1e-9, 0.1, 0.5, 1, 17, 86399.999, 86400, 302399.9999999, 302400, 302400.0000001, 345600.25, 518400,
                             604799, 604799.5, 604799.999999999};
  for (unsigned i = 0; i < sizeof b / sizeof b[0]; i++) TOW[NTOW++] = b[i];
  TOW[NTOW++] = nextafter(604800., 0);
  TOW[NTOW++] = nextafter(302400., 0);
  TOW[NTOW++] = nextafter(302400., 1e9);
}
static const double OFF[] = {0, 1e-9, 1e-3, 0.5, 1, 17.25, 3600, 86400, 302399.5, 302400, 302400.5, 604799.999999, 604800, 604800.5, 1209600, 3 * 604800. + 1, 20 * 604800. - 0.125, 1e8};
static const int NOFF = sizeof OFF / sizeof OFF[0];

static void arith(void) {
  setup();
  for (int w = 0; w < NWN; w++)
    for (int i = 0; i < NTOW; i++) {
      if (!mc_mine()) continue;
      for (int o = 0; o < NOFF; o++)
        for (int s = -1; s <= 1; s += 2) {
          double d = s * OFF[o];
          gps_time_t t = G(WN[w], TOW[i]), u = t;
          ld want = tot(t) + (ld)d;
          if (want < 1e-6 || want > (ld)32768 * W - 1e-6) continue; /* the sum must be a representable time */
          MC_POINT("time %d %g plus %g", WN[w], MC_D(TOW[i]), MC_D(d));
          add_secs(&u, d);
          ld err = (ld)(u.wn - WN[w]) * W + ((ld)u.tow - (ld)TOW[i]) - (ld)d;
          MC_CHECK(gps_time_valid(&u) && u.tow >= 0 && u.tow < W && u.wn >= 0, "add-normal", "sum is %d %.17g", u.wn, u.tow);
          MC_CHECK(fabsl(err) < 1e-9 * (fabs(d) > 1e7 ? 20 : 1), "add-value", "sum is %d %.17g, off by %Lg s", u.wn, u.tow, err);
          double back = gpsdifftime(&u, &t), back2 = gpsdifftime(&t, &u);
          MC_CHECK(mc_close(back, d, 1e-9 + fabs(d) * 1e-15, 0) && back2 == -back, "add-diff", "difference after adding is %.17g and %.17g", back, back2);
          gps_time_t v = t + d, x = d + t, y = t - (-d), z = t, q = t;
          z += d;
          q -= -d;
          MC_CHECK(v.wn == u.wn && v.tow == u.tow && x.wn == u.wn && x.tow == u.tow && y.wn == u.wn && y.tow == u.tow && z.wn == u.wn &&
                       z.tow == u.tow && q.wn == u.wn && q.tow == u.tow, "operators", "operators + - += -= disagree with add_secs");
          mc_calls(8);
          mc_outcome((uint64_t)u.wn * 5000000 + (uint64_t)(u.tow * 8));
        }
    }
}
static void diff(void) {
  setup();
  int n = NWN * NTOW;
  for (int a = 0; a < n; a++) {
    if (!mc_mine()) continue;
    gps_time_t A = G(WN[a / NTOW], TOW[a % NTOW]);
    for (int b = 0; b < n; b++) {
      gps_time_t B = G(WN[b / NTOW], TOW[b % NTOW]);
      MC_POINT("difference of %d %g and %d %g", A.wn, MC_D(A.tow), B.wn, MC_D(B.tow));
      ld w = dif(A, B);
      double tol = 1e-9 + (double)fabsl(w) * 1e-15, d = gpsdifftime(&A, &B);
      MC_CHECK(fabsl((ld)d - w) < tol, "diff", "difference %.17g, expected %.17Lg", d, w);
      MC_CHECK(gpsdifftime(&B, &A) == -d, "diff-anti", "not antisymmetric");
      MC_CHECK(A - B == d, "diff-op", "operator -");
      /* comparisons follow the sign of the difference */
      if (fabsl(w) > 1e-9 || w == 0) {
        int s = (w > 0) - (w < 0);
        MC_CHECK((A < B) == (s < 0) && (A > B) == (s > 0) && (A == B) == (s == 0) && (A <= B) == (s <= 0) && (A >= B) == (s >= 0), "compare",
                 "comparison operators, sign %d", s);
      }
      gps_time_duration_t du;
      memset(&du, 0x33, sizeof du);
      bool ok = gpsdifftime_week_second(&A, &B, &du);
      MC_CHECK(ok && fabsl((ld)(du.weeks - (A.wn - B.wn)) * W + du.seconds - ((ld)A.tow - (ld)B.tow)) < 1e-9, "duration", "duration %d weeks %.17g s", du.weeks, du.seconds);
      MC_CHECK((fabs(du.seconds) < W || (fabs(du.seconds) == W && fmodl((ld)A.tow - (ld)B.tow, W) != 0)) && !(du.weeks > 0 && du.seconds < 0) && !(du.weeks < 0 && du.seconds > 0), "duration-normal",
               "duration %d weeks %.17g s", du.weeks, du.seconds);
      /* intervals */
      for (int c = 0; c < n; c += 7) {
        gps_time_t C = G(WN[c / NTOW], TOW[c % NTOW]);
        bool in = dif(C, B) >= 0 && dif(C, A) <= 0;
        if (fabsl(dif(C, A)) < 2e-5 || fabsl(dif(C, B)) < 2e-5) {
          if (c != a && c != b) continue;
        }
        MC_CHECK(gpstime_in_range(&B, &A, &C) == in, "range", "%d %.17g in range: expected %d", C.wn, C.tow, in);
        double e = gpsdifftime(&A, &C) + gpsdifftime(&C, &B);
        MC_CHECK(mc_close(e, d, 1e-5, 1e-15), "diff-additive", "difference through %d %.17g is %.17g, direct %.17g", C.wn, C.tow, e, d);
      }
      /* unknown week: nearest by time of week */
      gps_time_t Au = A, Bu = B;
      Au.wn = WN_UNKNOWN;
      double dt = A.tow - B.tow;
      if (fabs(fabs(dt) - W / 2) > 1e-6) {
        double wu = dt > W / 2 ? dt - W : dt < -W / 2 ? dt + W : dt;
        MC_CHECK(fabs(gpsdifftime(&Au, &B) - wu) < 1e-9 && fabs(gpsdifftime(&B, &Au) + wu) < 1e-9, "diff-unknown", "difference with one unknown week");
        Bu.wn = WN_UNKNOWN;
        MC_CHECK(fabs(gpsdifftime(&Au, &Bu) - wu) < 1e-9 && fabs(gpsdifftime(&A, &Bu) - wu) < 1e-9, "diff-unknown", "difference with unknown weeks");
      }
      MC_CHECK(!(Au == B) && !(B == Au), "equal-unknown", "a time with unknown week equals one with a known week");
      mc_calls(12);
    }
  }
}
static void valid(void) {
  static const int wn[] = {-32768, -2, -1, 0, 1, 100, 1875, 1876, 1877, 2898, 2899, 2900, 32767};
  static const double tw[] = {-1e300, -604800, -1, -1e-300, 0, 1, 302400, 604799.9999999999, 604800, 604800.5, 1e9, 1e300};
  for (int i = 0; i < 13; i++)
    for (int j = 0; j < 12 + 4; j++) {
      if (!mc_mine()) continue;
      double t = j < 12 ? tw[j] : j == 12 ? NAN : j == 13 ? INFINITY : j == 14 ? -INFINITY : -0.;
      gps_time_t g = G(wn[i], t);
      MC_POINT("validity of %d %g", wn[i], MC_D(t));
      bool w = wn[i] >= 0 && t >= 0 && t < W;
      MC_CHECK(gps_time_valid(&g) == w, "valid", "expected %d", w);
      MC_CHECK(gps_current_time_valid(&g) == (w && wn[i] >= 1876 && wn[i] < 1876 + 1023), "current", "current time validity");
      for (int ref = 0; ref <= 65535; ref += ref < 4000 ? 1 : 501)
        MC_CHECK(gps_current_time_valid_with_wn_ref(&g, (u16)ref) == (w && wn[i] >= ref && wn[i] < ref + 1023), "current-ref", "current time validity with reference %d", ref);
      gps_time_duration_t du;
      gps_time_t ok = G(100, 5);
      MC_CHECK(gpsdifftime_week_second(&g, &ok, &du) == w && gpsdifftime_week_second(&ok, &g, &du) == w, "duration-valid", "duration of an invalid time");
      if (!w) MC_CHECK(du.weeks == 0 && du.seconds == 0, "duration-zero", "duration of an invalid time is not zero");
      mc_calls(4000);
    }
  for (int ref = 0; ref <= 65535; ref++)
    for (int d = -2; d <= 2; d++) {
      if (!mc_mine()) continue;
      time_t t = (time_t)ref * W + 315964800 + d;
      MC_POINT("unix time %d, reference week %d", (long long)t, ref);
      MC_CHECK(unix_time_valid_with_wn_ref(&t, (u16)ref) == (d > 0), "unix-valid", "validity");
      mc_calls(1);
    }
}
typedef struct { gps_time_t t; int which; gps_time_duration_t du; } job_t;
static void job(void *p) {
  job_t *j = (job_t *)p;
  if (j->which == 0) normalize_gps_time_safe(&j->t);
  else if (j->which == 1) unsafe_normalize_gps_time(&j->t);
  else if (j->which == 2) add_secs(&j->t, 1);
  else normalize_gps_time_duration(&j->du);
}
static void norm(void) {
  setup();
  static const int wn[] = {-32768, -2, -1, 0, 1, 5, 1024, 2048, 32760, 32767};
  for (int i = 0; i < 10; i++)
    for (int k = -12; k <= 12; k++)
      for (int j = 0; j < NTOW; j++) {
        if (!mc_mine()) continue;
        double tow = TOW[j] + (double)k * W;
        gps_time_t t = G(wn[i], tow), u = t;
        ld want = tot(t);
        MC_POINT("normalise %d %g", wn[i], MC_D(tow));
        bool r = normalize_gps_time_safe(&u);
        mc_calls(1);
        mc_outcome((uint64_t)((wn[i] * 64 + k) * 2 + r));
        if (wn[i] < -1) {
          MC_CHECK(!r, "norm-bad-week", "week %d accepted", wn[i]);
          continue;
        }
        if (wn[i] == -1) {
          double m = fmod(tow, W);
          if (m < 0) m += W;
          double e = fabs(u.tow - m);
          MC_CHECK(r && u.wn == -1 && u.tow >= 0 && u.tow < W && (e < 1e-8 || e > W - 1e-8), "norm-unknown", "unknown week: %d %.17g", u.wn, u.tow);
          continue;
        }
        if (want > -1e-6 && want < 1e-6 && want != 0) continue; /* rounding may fall on either side of time zero */
        double top = (32768. - wn[i]) * W;
        if (tow < top && tow > top - 1e-6) continue;
        bool w = want >= 0 && tow < top;
        MC_CHECK(r == w, "norm-result", "result %d, expected %d", r, w);
        if (w) {
          MC_CHECK(u.tow >= 0 && u.tow < W && fabsl((ld)(u.wn - wn[i]) * W + ((ld)u.tow - (ld)tow)) < 2e-8, "norm-value", "normalised to %d %.17g", u.wn, u.tow);
          gps_time_t v = t;
          unsafe_normalize_gps_time(&v);
          MC_CHECK(v.wn == u.wn && v.tow == u.tow, "norm-unsafe", "unsafe variant gives %d %.17g", v.wn, v.tow);
          v = t;
          normalize_gps_time(&v);
          MC_CHECK(v.wn == u.wn && v.tow == u.tow, "norm-assert", "asserting variant gives %d %.17g", v.wn, v.tow);
          v = u;
          MC_CHECK(normalize_gps_time_safe(&v) && v.wn == u.wn && v.tow == u.tow, "norm-idem", "not idempotent");
          mc_calls(3);
        }
      }
  /* durations */
  for (int wk = -40; wk <= 40; wk++)
    for (int k = -12; k <= 12; k++)
      for (int j = 0; j < NTOW; j++)
        for (int s = -1; s <= 1; s += 2) {
          if (!mc_mine()) continue;
          gps_time_duration_t d;
          d.weeks = (s16)wk;
          d.seconds = s * TOW[j] + (double)k * W;
          ld want = (ld)d.weeks * W + d.seconds;
          MC_POINT("normalise duration %d weeks %g s", wk, MC_D(d.seconds));
          normalize_gps_time_duration(&d);
          MC_CHECK(fabsl((ld)d.weeks * W + d.seconds - want) < 2e-8, "dur-value", "%d weeks %.17g s", d.weeks, d.seconds);
          /* a whole week in the seconds only where rounding makes it of something less */
          MC_CHECK((fabs(d.seconds) < W || (fabs(d.seconds) == W && fmodl(want, W) != 0)) && !(d.weeks > 0 && d.seconds < 0) && !(d.weeks < 0 && d.seconds > 0), "dur-normal", "%d weeks %.17g s", d.weeks, d.seconds);
          mc_calls(1);
        }
  /* values that no number of weeks can normalise: the call must return */
  static const double big[] = {INFINITY, -INFINITY, 1e300, -1e300, 1e17, -1e17};
  for (int i = 0; i < 6; i++)
    for (int which = 0; which < 4; which++)
      for (int w = -1; w <= 2000; w += 2001) {
        if (!mc_mine()) continue;
        job_t j;
        j.t = G(w, big[i]);
        j.which = which;
        j.du.weeks = 3;
        j.du.seconds = big[i];
        MC_POINT("normalise %d %g with routine %d", w, MC_D(big[i]), which);
        int r = mc_isolate(job, &j, 1000);
        MC_CHECK(r == MC_ISO_OK, "norm-endless", "the call did not return normally (%d)", r);
        mc_calls(1);
      }
}
static void grid(void) {
  setup();
  static const double f[] = {0.1, 1 / 60., 0.2, 1 / 3., 0.7, 0.5, 1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 50, 64, 100, 128, 200, 500, 1000};
  for (unsigned i = 0; i < sizeof f / sizeof f[0]; i++)
    for (int w = 1; w < NWN - 1; w++) {
      if (!mc_mine()) continue;
      /* around grid points k/f at the start, middle and end of the week */
      for (int k = -40; k <= 40; k++)
        for (int base = 0; base < 4; base++)
          for (int fr = 0; fr < 11; fr++) {
            static const double frac[] = {0, 1e-3, 0.25, 0.49, 0.499999, 0.500001, 0.51, 0.75, 0.999, 1e-5, 0.99999};
            double b = base == 0 ? 0 : base == 1 ? 302400 : base == 2 ? 123480 : 604800;
            double tow = b + (k + frac[fr]) / f[i];
            if (tow < 0 || tow >= W) continue;
            gps_time_t t = G(WN[w], tow);
            MC_POINT("epoch of %d %g at %g Hz", WN[w], MC_D(tow), MC_D(f[i]));
            gps_time_t r = round_to_epoch(&t, f[i]), fl = floor_to_epoch(&t, f[i]);
            double slack = 1e-7 / f[i] + 1e-9;
            double gr = r.tow * f[i], gf = fl.tow * f[i];
            MC_CHECK(gps_time_valid(&r) && gps_time_valid(&fl), "grid-valid", "%d %.17g and %d %.17g", r.wn, r.tow, fl.wn, fl.tow);
            MC_CHECK(fabs(gr - round(gr)) < 1e-6 && fabs(gf - round(gf)) < 1e-6, "grid-on", "rounded %.17g floored %.17g not on the grid", r.tow, fl.tow);
            ld dr = dif(r, t), df = dif(t, fl);
            MC_CHECK(fabsl(dr) <= 0.5 / f[i] + slack, "grid-round", "rounded to %d %.17g", r.wn, r.tow);
            MC_CHECK(df >= -slack && df < 1 / f[i] + slack, "grid-floor", "floored to %d %.17g", fl.wn, fl.tow);
            if (frac[fr] > 0 && frac[fr] < 1) {
              ld g = (ld)b + k / (ld)f[i];
              if (g >= 0) {
                MC_CHECK(fabsl((ld)(fl.wn - WN[w]) * W + fl.tow - g) < slack, "grid-floor-value", "floored to %d %.17g", fl.wn, fl.tow);
                MC_CHECK(fabsl((ld)(r.wn - WN[w]) * W + r.tow - (g + (frac[fr] > 0.5 ? 1 / (ld)f[i] : 0))) < slack, "grid-round-value", "rounded to %d %.17g", r.wn, r.tow);
              }
            }
            mc_calls(2);
          }
      mc_outcome(i * 64 + (unsigned)w);
    }
}
/* unix time in the GPS scale */
static void unixt(void) {
  for (int wn = 1877; wn <= 32767; wn++)
    for (int i = 0; i < 5; i++) {
      if (!mc_mine()) continue;
      static const int tw[] = {0, 1, 302400, 604798, 604799};
      time_t t = (time_t)wn * W + 315964800 + tw[i];
      MC_POINT("unix time %d", (long long)t);
      gps_time_t g = time2gps_t(t);
      MC_CHECK(g.wn == wn && g.tow == tw[i], "unix", "week %d tow %.17g, expected %d %d", g.wn, g.tow, wn, tw[i]);
      /* the other direction uses UTC: 18 leap seconds since 2017 */
      gps_time_t u = G(wn, tw[i]);
      time_t b = gps2time(&u);
      MC_CHECK(b == t - ((wn > 1930 || (wn == 1930 && tw[i] >= 18)) ? 18 : 17), "unix-back", "unix time %lld", (long long)b);
      mc_calls(2);
    }
}
MC_SPACES({"add", "boundary weeks x boundary times of week x boundary offsets of both signs, all operators", arith, 0},
          {"difference", "all pairs of boundary times (and triples with a stride of 7) including unknown weeks: difference, duration, order, interval", diff, 0},
          {"validity", "boundary weeks x boundary and special times of week x reference weeks; every reference week for unix times", valid, 0},
          {"normalise", "boundary weeks x times of week up to 12 weeks out on both sides; durations; infinite and huge values", norm, 0},
          {"epoch-grid", "23 rates x weeks x 80 grid points at four places of the week x 11 fractions", grid, 0},
          {"unix", "every week up to the largest x 5 times of week", unixt, 0})
