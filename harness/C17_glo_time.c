/* C17: GLONASS time.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/gnss_time.h>

static long days_civil(long y, int m, int d) {
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400), doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1), doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long)doe - 719468;
}
#define GPSDAY 3657
static const int LEAP[][3] = {{1981, 7, 1}, {1982, 7, 1}, {1983, 7, 1}, {1985, 7, 1}, {1988, 1, 1}, {1990, 1, 1}, {1991, 1, 1}, {1992, 7, 1}, {1993, 7, 1},
                              {1994, 7, 1}, {1996, 1, 1}, {1997, 7, 1}, {1999, 1, 1}, {2006, 1, 1}, {2009, 1, 1}, {2012, 7, 1}, {2015, 7, 1}, {2017, 1, 1}};
#define NL 18
/* UTC midnight (seconds since the GPS epoch, no leap seconds) at which leap second i has just ended */
static long long lmid(int i) { return (long long)(days_civil(LEAP[i][0], LEAP[i][1], LEAP[i][2]) - GPSDAY) * 86400; }
static int leaps_at(double utc, int nl, long long extra) {
  int n = 0;
  for (int i = 0; i < nl; i++) n += utc >= lmid(i);
  if (extra) n += utc >= extra;
  return n;
}
typedef struct { int n4, nt, h, m; double s; } G;
/* the instant of a GLONASS time as GPS seconds; the leap second itself is labelled 02:59:60 Moscow time */
static double instant(G g, long long extra) {
  long day = days_civil(1996 + 4 * (g.n4 - 1), 1, 1) - GPSDAY + g.nt - 1;
  double s = g.s;
  int lp = s >= 60;
  if (lp) s -= 1;
  double utc = (double)day * 86400 + g.h * 3600. + g.m * 60. + s - 3 * 3600.;
  return utc + leaps_at(utc, NL, extra) + lp;
}
static void one(G g, const utc_params_t *p, long long extra, const char *what) {
  glo_time_t t;
  memset(&t, 0x5b, sizeof t);
  t.n4 = (u8)g.n4;
  t.nt = (u16)g.nt;
  t.h = (u8)g.h;
  t.m = (u8)g.m;
  t.s = g.s;
  double want = instant(g, extra);
  MC_POINT("GLONASS cycle %d day %d %d:%d:%g parameters %d", g.n4, g.nt, g.h, g.m, MC_D(g.s), p != NULL);
  gps_time_t r = glo2gps(&t, p);
  double got = r.wn * 604800. + r.tow;
  MC_CHECK(gps_time_valid(&r) && fabs(got - want) < 1e-5, what, "GPS time %d %.9f, off by %.9g s", r.wn, r.tow, got - want);
  gps_time_t q;
  memset(&q, 0, sizeof q);
  q.wn = (s16)floor(want / 604800);
  q.tow = want - q.wn * 604800.;
  mc_calls(1);
  if (want < 835 * 604800. - 10800 + 11) return; /* before GLONASS time began */
  glo_time_t b = gps2glo(&q, p);
  double sg = b.h * 3600. + b.m * 60. + b.s, sw = g.h * 3600. + g.m * 60. + g.s;
  MC_CHECK(b.n4 == g.n4 && b.nt == g.nt && b.h == g.h && b.m == g.m && fabs(sg - sw) < 1e-5 && b.s >= 0 && b.s < 61, what, "back to cycle %d day %d %d:%d:%.9g", b.n4, b.nt, b.h, b.m, b.s);
  gps_time_t rr = glo2gps(&b, p);
  MC_CHECK(fabs(gpsdifftime(&rr, &q)) < 1e-5, what, "round trip ends at %d %.9f", rr.wn, rr.tow);
  mc_calls(2);
}
static void calendar(void) {
  mc_quiet();
  static const G tod[] = {{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0.5}, {0, 0, 2, 59, 59.5}, {0, 0, 3, 0, 0}, {0, 0, 12, 34, 56.75}, {0, 0, 20, 59, 59}, {0, 0, 21, 0, 0}, {0, 0, 23, 59, 59.9375}};
  for (int n4 = 1; n4 <= 31; n4++)
    for (int nt = 1; nt <= 1461; nt++) {
      if (!mc_mine()) continue;
      if (n4 == 27 && nt > 1460) continue; /* 2100 is no leap year: the last day number of its cycle is the first of the next */
      for (int i = 0; i < 8; i++) {
        G g = tod[i];
        g.n4 = n4;
        g.nt = nt;
        one(g, NULL, 0, "calendar");
      }
      mc_outcome((uint64_t)n4 * 2000 + (uint64_t)nt);
    }
}
static G label(double utc, int lp) { /* GLONASS fields of a UTC instant; lp: the leap second just before midnight utc */
  if (lp) utc -= 1;
  double msk = utc + 10800;
  long day = (long)floor(msk / 86400);
  double sod = msk - (double)day * 86400;
  G g;
  long d0 = day + GPSDAY;
  int y = 1996;
  while (days_civil(y + 4, 1, 1) <= d0) y += 4;
  g.n4 = (y - 1996) / 4 + 1;
  g.nt = (int)(d0 - days_civil(y, 1, 1)) + 1;
  g.h = (int)(sod / 3600);
  g.m = (int)(sod / 60) % 60;
  g.s = sod - g.h * 3600 - g.m * 60 + lp;
  return g;
}
static void leap(void) {
  mc_quiet();
  for (int i = 11; i < NL; i++)
    for (int k = -400; k <= 400; k++) {
      if (!mc_mine()) continue;
      one(label((double)lmid(i) + k * 0.125, 0), NULL, 0, "leap");
      if (k >= 0 && k < 8) one(label((double)lmid(i) + k * 0.125, 1), NULL, 0, "leap-60");
    }
  /* events announced by UTC parameters */
  static const int ev[][3] = {{2024, 1, 1}, {2024, 7, 1}, {2027, 1, 1}, {2028, 7, 1}, {2030, 1, 1}, {2033, 1, 1}};
  static const double a0[] = {0, 1e-7, -1e-7, 5e-6};
  for (int e = 0; e < 6; e++)
    for (int a = 0; a < 4; a++)
      for (int add = 0; add < 2; add++)
        for (int k = -120; k <= 120; k++) {
          if (!mc_mine()) continue;
          utc_params_t p;
          memset(&p, 0, sizeof p);
          long long mid = (long long)(days_civil(ev[e][0], ev[e][1], ev[e][2]) - GPSDAY) * 86400;
          p.a0 = a0[a];
          p.dt_ls = 18;
          p.dt_lsf = (s8)(18 + add);
          p.tot.wn = (s16)(mid / 604800);
          p.tot.tow = 147456;
          p.t_lse.wn = (s16)(mid / 604800);
          p.t_lse.tow = (double)(mid % 604800) + 18 + p.a0;
          double off = a ? 0.0625 : 0; /* keep away from field boundaries when the labels are shifted by a0 */
          one(label((double)mid + k * 0.25 + off, 0), &p, add ? mid : 0, "leap-params");
          if (add && k >= 0 && k < 4) one(label((double)mid + k * 0.25 + off, 1), &p, mid, "leap-params-60");
        }
}
static void hours(void) {
  mc_quiet();
  static const int nt[] = {1, 59, 60, 61, 366, 367, 731, 732, 1096, 1097, 1461};
  for (int n4 = 1; n4 <= 31; n4 += 1)
    for (int d = 0; d < 11 - (n4 == 27); d++)
      for (int mi = 0; mi < 1440; mi++) {
        if (!mc_mine()) continue;
        G g = {n4, nt[d], mi / 60, mi % 60, (mi % 7) * 8.5};
        one(g, NULL, 0, "minute");
      }
}
static void invalid(void) {
  mc_quiet();
  for (int n4 = 0; n4 < 256; n4++)
    for (int k = 0; k < 1500 + 40; k++) {
      if (!mc_mine()) continue;
      int nt = k < 1500 ? k : k < 1539 ? 1500 + (k - 1500) * 1640 : 65535;
      if (n4 >= 1 && n4 <= 31 && nt >= 1 && nt <= 1461) continue;
      glo_time_t t;
      memset(&t, 0, sizeof t);
      t.n4 = (u8)n4;
      t.nt = (u16)nt;
      t.h = 5;
      MC_POINT("invalid GLONASS cycle %d day %d", n4, nt);
      gps_time_t r = glo2gps(&t, NULL);
      MC_CHECK(r.wn == WN_UNKNOWN && r.tow == TOW_UNKNOWN, "invalid", "accepted as %d %.9g", r.wn, r.tow);
      mc_calls(1);
    }
}
MC_SPACES({"calendar", "every day of every four-year cycle x 8 times of day, there and back", calendar, 0},
          {"leap-seconds", "every leap second since 1997 and 48 announced ones, fractions of a second around each", leap, 0},
          {"minutes", "every minute of 11 boundary days of 31 cycles", hours, 0},
          {"invalid", "every cycle number x day numbers outside the range", invalid, 0})
