/* C16: GPS, UTC and calendar conversions.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include <swiftnav/gnss_time.h>

typedef long double ld;
/* proleptic Gregorian calendar: days since 1970-01-01 (Hinnant) */
static long days_civil(long y, int m, int d) {
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400), doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1), doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long)doe - 719468;
}
static void civil(long z, int *y, int *m, int *d) {
  z += 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  *d = (int)(doy - (153 * mp + 2) / 5 + 1);
  *m = (int)(mp < 10 ? mp + 3 : mp - 9);
  *y = (int)((long)yoe + era * 400 + (*m <= 2));
}
static int leap_year(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
#define GPSDAY 3657 /* 1980-01-06 */
#define MJD0 40587  /* 1970-01-01 */
/* UTC dates at whose start a leap second had just been inserted */
static const int LEAP[][3] = {{1981, 7, 1}, {1982, 7, 1}, {1983, 7, 1}, {1985, 7, 1}, {1988, 1, 1}, {1990, 1, 1}, {1991, 1, 1}, {1992, 7, 1}, {1993, 7, 1},
                              {1994, 7, 1}, {1996, 1, 1}, {1997, 7, 1}, {1999, 1, 1}, {2006, 1, 1}, {2009, 1, 1}, {2012, 7, 1}, {2015, 7, 1}, {2017, 1, 1}};
#define NL 18
/* GPS second (since GPS epoch) at which leap second i begins */
static long long lse(int i) { return (long long)(days_civil(LEAP[i][0], LEAP[i][1], LEAP[i][2]) - GPSDAY) * 86400 + i; }
/* offset in force at a GPS time given in whole seconds and a fraction */
static int offset(long long s, int *in_leap) {
  int n = 0;
  *in_leap = 0;
  for (int i = 0; i < NL; i++) {
    if (s >= lse(i) + 1) n = i + 1;
    else if (s >= lse(i)) *in_leap = 1;
  }
  return n;
}
typedef struct { int y, mo, d, h, mi, s, wd, yd; } ymd;
static ymd brkdown(long long utc_s, int leap) { /* utc seconds since the GPS epoch, with leap = 1 for second 60 of the day just ending */
  ymd r;
  if (leap) utc_s--;
  long day = (long)(utc_s >= 0 ? utc_s / 86400 : -((-utc_s + 86399) / 86400));
  int sod = (int)(utc_s - (long long)day * 86400);
  civil(day + GPSDAY, &r.y, &r.mo, &r.d);
  r.h = sod / 3600;
  r.mi = sod / 60 % 60;
  r.s = sod % 60 + leap;
  long wd = (day + 6) % 7; /* GPS epoch is a Sunday; Monday = 1 */
  if (wd < 0) wd += 7;
  r.wd = (int)wd + 1;
  r.yd = (int)(day + GPSDAY - days_civil(r.y, 1, 1)) + 1;
  return r;
}
static void expect(const utc_tm *u, ymd w, double frac, double tol, const char *key) {
  MC_CHECK(u->year == w.y && u->month == w.mo && u->month_day == w.d && u->year_day == w.yd && u->week_day == w.wd, key,
           "date %d-%d-%d day %d weekday %d, expected %d-%d-%d day %d weekday %d", u->year, u->month, u->month_day, u->year_day, u->week_day, w.y, w.mo, w.d, w.yd, w.wd);
  MC_CHECK(u->hour == w.h && u->minute == w.mi && u->second_int == w.s && fabs(u->second_frac - frac) <= tol && u->second_frac >= 0 && u->second_frac < 1, key,
           "time %d:%d:%d +%.12g, expected %d:%d:%d +%.12g", u->hour, u->minute, u->second_int, u->second_frac, w.h, w.mi, w.s, frac);
}
static gps_time_t G(long long s, double f) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  t.wn = (s16)(s / 604800);
  t.tow = (double)(s % 604800) + f;
  return t;
}
static void days(void) {
  static const double sod[] = {0, 0.5, 1, 59, 59.999, 60, 3599, 3600, 43199.75, 43200, 86399, 86399.999999, 7199.99999999};
  for (long day = 0; day < 32768L * 7; day++) {
    if (!mc_mine()) continue;
    for (int i = 0; i < 13; i++) {
      MC_POINT("day %d of GPS time, second %g", day, MC_D(sod[i]));
      gps_time_t t;
      memset(&t, 0, sizeof t);
      t.wn = (s16)(day / 7);
      t.tow = (double)(day % 7) * 86400 + sod[i];
      long long ws = (long long)floor(sod[i]);
      utc_tm u;
      memset(&u, 0x5a, sizeof u);
      make_utc_tm(&t, &u);
      expect(&u, brkdown(day * 86400LL + ws, 0), t.tow - floor(t.tow), 1e-9, "make-utc");
      mc_calls(1);
      if (day == 0 && i < 2) continue;
      /* with the leap seconds in force */
      int lp;
      long long s = day * 86400LL + ws;
      int off = offset(s, &lp);
      memset(&u, 0x5a, sizeof u);
      gps2utc(&t, &u, NULL);
      ymd w = brkdown(s - off, lp);
      expect(&u, w, t.tow - floor(t.tow), 1e-9, "gps2utc");
      MC_CHECK(get_gps_utc_offset(&t, NULL) == off && is_leap_second_event(&t, NULL) == lp, "offset", "offset %g leap %d, expected %d %d", get_gps_utc_offset(&t, NULL),
               is_leap_second_event(&t, NULL), off, lp);
      MC_CHECK(gps2doy(&t) == w.yd - 1, "doy", "day of year %d, expected %d", gps2doy(&t), w.yd - 1);
      s32 y, mo, d, h, mi;
      double se;
      gps2date(&t, &y, &mo, &d, &h, &mi, &se);
      MC_CHECK(y == w.y && mo == w.mo && d == w.d && h == w.h && mi == w.mi && fabs(se - (w.s + (t.tow - floor(t.tow)))) < 1e-9, "gps2date", "%d-%d-%d %d:%d:%.9g", y, mo, d, h, mi, se);
      double mjd = gps2mjd(&t);
      ld wm = MJD0 + GPSDAY + ((ld)(s - off) + (ld)(t.tow - floor(t.tow))) / 86400;
      MC_CHECK(fabsl(mjd - wm) < 1e-10, "gps2mjd", "MJD %.17g, expected %.17Lg", mjd, wm);
      /* and back */
      double tol = day < 365L * 140 ? 2e-6 : 1.2e-5;
      gps_time_t b;
      utc2gps(&u, &b, NULL);
      MC_CHECK(gps_time_valid(&b) && fabs(gpsdifftime(&b, &t)) < tol, "utc2gps", "back to %d %.9f", b.wn, b.tow);
      b = date2gps(y, mo, d, h, mi, se);
      MC_CHECK(gps_time_valid(&b) && fabs(gpsdifftime(&b, &t) - lp) < tol, "date2gps", "back to %d %.9f", b.wn, b.tow);
      b = mjd2gps(mjd);
      MC_CHECK(gps_time_valid(&b) && fabs(gpsdifftime(&b, &t) - lp) < tol, "mjd2gps", "back to %d %.9f", b.wn, b.tow);
      if (!lp) {
        time_t ut = gps2time(&t);
        MC_CHECK(ut == (time_t)(s - off) + 315964800, "gps2time", "unix time %lld", (long long)ut);
      }
      mc_calls(10);
      mc_outcome((uint64_t)off);
    }
  }
}
/* every quarter second near each leap event, and the instants next to the event */
static void leaps(void) {
  for (int i = 0; i < NL; i++) {
    if (!mc_mine()) continue;
    int n60 = 0;
    double last = -1;
    for (int k = -80; k <= 80 + 5; k++) {
      long long s = lse(i);
      double f = k <= 80 ? k * 0.25 : k == 81 ? -1e-9 : k == 82 ? 1e-9 : k == 83 ? 1 - 1e-9 : k == 84 ? 0.999 : 1 + 1e-9;
      long long ws = s + (long long)floor(f);
      gps_time_t t = G(ws, f - floor(f));
      int lp, off = offset(ws, &lp);
      MC_POINT("leap second %d, %g s after it begins", i, MC_D(f));
      utc_tm u;
      memset(&u, 0x5a, sizeof u);
      gps2utc(&t, &u, NULL);
      expect(&u, brkdown(ws - off, lp), t.tow - floor(t.tow), 1e-9, "leap-utc");
      utc_params_t none; /* all zero: the table is used */
      memset(&none, 0, sizeof none);
      none.dt_ls = 5;
      none.dt_lsf = 6;
      none.t_lse.tow = t.tow;
      MC_CHECK(get_gps_utc_offset(&t, &none) == off && get_utc_gps_offset(&t, &none) == get_utc_gps_offset(&t, NULL) && is_leap_second_event(&t, &none) == lp, "no-params",
               "parameters without an event week are used");
      if (k <= 80) {
        n60 += u.second_int == 60;
        double o = get_gps_utc_offset(&t, NULL);
        if (last >= 0) MC_CHECK(o == last || (o == last + 1 && f == 1), "leap-offset", "offset changes from %g to %g here", last, o);
        last = o;
      }
      gps_time_t b;
      utc2gps(&u, &b, NULL);
      /* an MJD is a double, so instants less than a microsecond before the event are indistinguishable from it */
      if (!(f < 0 && f > -1e-6)) MC_CHECK(fabs(gpsdifftime(&b, &t)) < 2e-6, "leap-back", "back to %d %.9f", b.wn, b.tow);
      mc_calls(3);
    }
    MC_CHECK(n60 == 4, "leap-60", "second 60 was shown at %d quarter seconds, not 4", n60);
  }
}
/* leap events from broadcast parameters */
static void params(void) {
  mc_quiet();
  static const double A0[] = {0, 1e-9, -1e-9, 1.23456789e-7, -9.876e-7, 9.313225746154785e-10, 1e-3, -1e-3, 0.4, -0.4};
  static const double A1[] = {0, 8.881784197001252e-16, 1e-12, -1e-12, 7.45e-9, -7.45e-9};
  static const double A2[] = {0, 2.1684043449710089e-19, -1e-15};
  static const int LS[] = {17, 18, 19, 0, 1, 60};
  static const int WK[] = {1900, 1930, 2085, 2187, 2300};
  for (int a0 = 0; a0 < 10; a0++)
    for (int a1 = 0; a1 < 6 * 3; a1++)
      for (int l = 0; l < 6; l++)
        for (int add = 0; add < 2; add++)
          for (int w = 0; w < 5; w++)
            for (int dn = 1; dn <= 7; dn++) {
              if (!mc_mine()) continue;
              utc_params_t p;
              memset(&p, 0, sizeof p);
              p.a0 = A0[a0];
              p.a1 = A1[a1 % 6];
              p.a2 = A2[a1 / 6];
              p.dt_ls = (s8)LS[l];
              p.dt_lsf = (s8)(LS[l] + add);
              p.tot.wn = (s16)(WK[w] - (dn & 1));
              p.tot.tow = 4096. * (dn * 20);
              gps_time_t day0;
              memset(&day0, 0, sizeof day0);
              day0.wn = (s16)WK[w];
              day0.tow = dn * 86400.;
              if (dn == 7) { day0.wn++; day0.tow = 0; }
              p.t_lse = day0;
              add_secs(&p.t_lse, p.dt_ls + p.a0 + p.a1 * gpsdifftime(&day0, &p.tot) + p.a2 * gpsdifftime(&day0, &p.tot) * gpsdifftime(&day0, &p.tot));
              ld tl = (ld)day0.wn * 604800 + day0.tow; /* UTC midnight */
              double last = -1000;
              int n60 = 0;
              for (int k = -80; k <= 80 + 8; k++) {
                static const double sp[] = {-1e-9, 1e-9, 1 - 1e-9, 1 + 1e-9, 1e-6, 0.999999, -1e-6, 1.000001};
                double f = k <= 80 ? k * 0.25 : sp[k - 81];
                gps_time_t t = p.t_lse;
                add_secs(&t, f);
                if (!gps_time_valid(&t)) continue;
                MC_POINT("a0 %g a1 %g a2 %g leap seconds %d to %d, event at the end of day %d of week %d, %g s after it", MC_D(p.a0), MC_D(p.a1), MC_D(p.a2), p.dt_ls, p.dt_lsf, dn, WK[w], MC_D(f));
                double dt = gpsdifftime(&t, &p.t_lse);
                /* on an end of the leap second that no double holds exactly either side is right */
                if (k <= 80 && p.t_lse.tow * 1024 != floor(p.t_lse.tow * 1024) && (fabs(dt) < 1e-9 || fabs(dt - 1) < 1e-9)) {
                  n60 += k == 0 && add;
                  continue;
                }
                int after = dt >= 1;
                int lp = add && dt >= 0 && dt < 1;
                ld poly = (ld)p.a0 + (ld)p.a1 * gpsdifftime(&t, &p.tot) + (ld)p.a2 * gpsdifftime(&t, &p.tot) * gpsdifftime(&t, &p.tot);
                ld off = poly + (after ? p.dt_lsf : p.dt_ls);
                if (!add && dt >= 0) off = poly + p.dt_ls;
                MC_CHECK(fabsl(get_gps_utc_offset(&t, &p) - off) < 1e-9, "param-offset", "offset %.17g, expected %.17Lg", get_gps_utc_offset(&t, &p), off);
                utc_tm u;
                memset(&u, 0x5a, sizeof u);
                gps2utc(&t, &u, &p);
                /* the label, as seconds after the UTC midnight at which the event ends */
                ld lab = ((ld)t.wn * 604800 + t.tow) - off - tl;
                ld got = (ld)(days_civil(u.year, u.month, u.month_day) - GPSDAY) * 86400 + u.hour * 3600 + u.minute * 60 + u.second_int + (ld)u.second_frac - tl;
                MC_CHECK(u.second_int <= 60 && u.second_frac >= 0 && u.second_frac < 1 && u.minute < 60 && u.hour < 24, "param-range", "%d:%d:%d + %g", u.hour, u.minute, u.second_int, u.second_frac);
                /* second 60 of the old day has the same number of seconds as second 0 of the next */
                MC_CHECK(fabsl(got - lab) < 3e-6, "param-label", "%d-%d-%d %d:%d:%d + %.9g is %.9Lg s after midnight, expected %.9Lg", u.year, u.month, u.month_day, u.hour, u.minute,
                         u.second_int, u.second_frac, got, lab);
                if (fabs(dt) > 2e-8 && fabs(dt - 1) > 2e-8)
                  MC_CHECK((u.second_int == 60) == lp, "param-60", "second %d, leap second %s", u.second_int, lp ? "in progress" : "not in progress");
                n60 += k <= 80 && u.second_int == 60;
                (void)last;
                gps_time_t b;
                utc2gps(&u, &b, &p);
                if (!(f < 0 && f > -3e-6)) MC_CHECK(fabs(gpsdifftime(&b, &t)) < 5e-6, "param-back", "back to %d %.9f from %d %.9f", b.wn, b.tow, t.wn, t.tow);
                s32 y, mo, d, h, mi;
                double se;
                gps2date_params(&t, &y, &mo, &d, &h, &mi, &se, &p);
                MC_CHECK(y == u.year && mo == u.month && d == u.month_day && h == u.hour && mi == u.minute && fabs(se - (u.second_int + u.second_frac)) < 1e-9, "param-gps2date", "%d-%d-%d %d:%d:%.9g", y, mo, d,
                         h, mi, se);
                double mj = gps2mjd_params(&t, &p);
                ld wm = MJD0 + GPSDAY + (tl + lab) / 86400;
                MC_CHECK(fabsl(mj - wm) < 1e-10, "param-gps2mjd", "MJD %.17g, expected %.17Lg", mj, wm);
                /* a calendar date or MJD in second 60 stands for the second after it */
                if (!(f < 0 && f > -3e-6)) {
                  b = date2gps_params(y, mo, d, h, mi, se, &p);
                  MC_CHECK(fabs(gpsdifftime(&b, &t) - (u.second_int == 60)) < 5e-6, "param-date2gps", "back to %d %.9f from %d %.9f", b.wn, b.tow, t.wn, t.tow);
                  b = mjd2gps_params(mj, &p);
                  MC_CHECK(fabs(gpsdifftime(&b, &t) - (u.second_int == 60)) < 5e-6, "param-mjd2gps", "back to %d %.9f from %d %.9f", b.wn, b.tow, t.wn, t.tow);
                }
                mc_calls(8);
              }
              MC_CHECK(add ? n60 >= 3 && n60 <= 5 : n60 == 0, "param-60-count", "second 60 was shown at %d quarter seconds", n60);
            }
}
static void mjd(void) {
  for (long day = days_civil(1601, 1, 1); day <= days_civil(3000, 12, 31); day++) {
    if (!mc_mine()) continue;
    int y, m, d;
    civil(day, &y, &m, &d);
    double w = (double)(day + MJD0);
    MC_POINT("calendar day %d-%d-%d", y, m, d);
    MC_CHECK(date2mjd(y, m, d, 0, 0, 0) == w, "date2mjd", "MJD %.17g, expected %.17g", date2mjd(y, m, d, 0, 0, 0), w);
    mc_calls(1);
    if (w < 0) continue;
    s32 yy, mm, dd, h, mi;
    double s;
    for (int k = 0; k < 11; k++) {
      static const int hh[] = {0, 0, 0, 6, 12, 15, 18, 23, 23, 23, 0}, mn[] = {0, 0, 30, 0, 0, 45, 1, 0, 59, 59, 0};
      static const double ss[] = {0, 1, 0, 0, 0, 30.5, 59, 0.25, 59.5, 59.9999, 1e-4};
      double mj = date2mjd(y, m, d, hh[k], mn[k], ss[k]);
      double wf = (hh[k] * 3600 + mn[k] * 60 + ss[k]) / 86400.;
      MC_CHECK(fabs(mj - (w + wf)) < 1.3e-10, "date2mjd-time", "MJD %.17g, expected %.17g", mj, w + wf);
      mjd2date(mj, &yy, &mm, &dd, &h, &mi, &s);
      double tot = (double)(days_civil(yy, mm, dd) - day) * 86400 + h * 3600. + mi * 60. + s;
      MC_CHECK(fabs(tot - wf * 86400) < 1.2e-5, "mjd2date", "%d-%d-%d %d:%d:%.9g", yy, mm, dd, h, mi, s);
      MC_CHECK(mm >= 1 && mm <= 12 && dd >= 1 && dd <= 31 && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= -1.2e-5 && s < 60 + 1.2e-5, "mjd2date-range", "%d-%d-%d %d:%d:%.9g", yy, mm, dd, h, mi, s);
      mc_calls(2);
      if (day >= GPSDAY && y < 2600) {
        utc_tm u = mjd2utc(mj), v = date2utc(y, m, d, hh[k], mn[k], ss[k]);
        double tu = (double)(days_civil(u.year, u.month, u.month_day) - day) * 86400 + u.hour * 3600. + u.minute * 60. + u.second_int + u.second_frac;
        MC_CHECK(fabs(tu - wf * 86400) < 1.2e-5 && u.second_int < 60 && u.second_frac >= 0 && u.second_frac < 1 && u.month >= 1 && u.month <= 12, "mjd2utc", "%d-%d-%d %d:%d:%d + %.9g",
                 u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac);
        double tv = (double)(days_civil(v.year, v.month, v.month_day) - day) * 86400 + v.hour * 3600. + v.minute * 60. + v.second_int + v.second_frac;
        MC_CHECK(fabs(tv - wf * 86400) < 1.2e-5 && v.second_int < 60 && v.second_frac >= 0 && v.second_frac < 1 && v.month >= 1 && v.month <= 12, "date2utc", "%d-%d-%d %d:%d:%d + %.9g",
                 v.year, v.month, v.month_day, v.hour, v.minute, v.second_int, v.second_frac);
        MC_CHECK(fabs(utc2mjd(&u) - mj) < 1.3e-10, "utc2mjd", "MJD %.17g, expected %.17g", utc2mjd(&u), mj);
        utc2date(&u, &yy, &mm, &dd, &h, &mi, &s);
        MC_CHECK(yy == u.year && mm == u.month && dd == u.month_day && h == u.hour && mi == u.minute && s == u.second_int + u.second_frac, "utc2date", "fields differ");
        /* sidereal time, IAU 1982 */
        double ut1 = (k - 4) * 0.2;
        double T = (mj + ut1 / 86400 - 51544.5) / 36525;
        double g = fmod(67310.54841 + fmod((876600. * 3600 + 8640184.812866) * T, 86400) + 0.093104 * T * T - 6.2e-6 * T * T * T, 86400);
        double gm = utc2gmst(u, ut1) / (2 * M_PI) * 86400, dg = fmod(gm - g, 86400);
        if (dg > 43200) dg -= 86400;
        if (dg < -43200) dg += 86400;
        MC_CHECK(fabs(dg) < 1e-4, "gmst", "sidereal time off by %g s", dg);
        mc_calls(5);
      }
    }
  }
  for (int y = 1; y <= 4000; y++) {
    if (!mc_mine()) continue;
    MC_POINT("year %d", y);
    for (int m = 1; m <= 12; m++) {
      long a = days_civil(y, m, 1), b = m == 12 ? days_civil(y + 1, 1, 1) : days_civil(y, m + 1, 1);
      MC_CHECK(days_in_month((u16)y, (u8)m) == b - a, "month-days", "month %d has %d days", m, days_in_month((u16)y, (u8)m));
    }
    MC_CHECK(is_leap_year(y) == leap_year(y), "leap-year", "leap year %d", is_leap_year(y));
    mc_calls(13);
  }
}
/* every second of some days: the minute and second fields roll over together */
static void seconds(void) {
  static const int dy[] = {44244, 50000, 57753, 57754, 60000, 70000};
  for (int i = 0; i < 6; i++)
    for (int s = 0; s < 86400; s++) {
      if (!mc_mine()) continue;
      MC_POINT("second %d of MJD %d", s, dy[i]);
      int y, m, d;
      civil(dy[i] - MJD0, &y, &m, &d);
      double mj = date2mjd(y, m, d, s / 3600, s / 60 % 60, s % 60 + 0.25);
      s32 yy, mm, dd, h, mi;
      double se;
      mjd2date(mj, &yy, &mm, &dd, &h, &mi, &se);
      MC_CHECK(yy == y && mm == m && dd == d && h == s / 3600 && mi == s / 60 % 60 && fabs(se - (s % 60 + 0.25)) < 2e-6, "mjd2date-second", "%d-%d-%d %d:%d:%.9g", yy, mm, dd, h, mi, se);
      utc_tm u = mjd2utc(mj);
      MC_CHECK(u.hour == s / 3600 && u.minute == s / 60 % 60 && u.second_int == s % 60 && fabs(u.second_frac - 0.25) < 2e-6, "mjd2utc-second", "%d:%d:%d", u.hour, u.minute, u.second_int);
      gps_time_t t = mjd2gps(mj);
      utc_tm v;
      gps2utc(&t, &v, NULL);
      MC_CHECK(v.year == y && v.month == m && v.month_day == d && v.hour == s / 3600 && v.minute == s / 60 % 60 && v.second_int == s % 60, "mjd2gps-second", "%d-%d-%d %d:%d:%d", v.year, v.month,
               v.month_day, v.hour, v.minute, v.second_int);
      mc_calls(5);
    }
}
/* what a call says must not depend on the instants and parameters of the calls before it */
static void instant(long long s, double f) {
  gps_time_t t = G(s, f);
  int lp, off = offset(s, &lp);
  utc_tm u;
  memset(&u, 0x5a, sizeof u);
  gps2utc(&t, &u, NULL);
  ymd w = brkdown(s - off, lp);
  expect(&u, w, f, 1e-9, "pair-utc");
  gps_time_t ut = G(s - off, f), back; /* in second 60 the same label as in the second after it */
  MC_CHECK(get_gps_utc_offset(&t, NULL) == off && is_leap_second_event(&t, NULL) == lp, "pair-offset", "offset %g", get_gps_utc_offset(&t, NULL));
  if (!lp) MC_CHECK(get_utc_gps_offset(&ut, NULL) == -off, "pair-utc-offset", "UTC offset %g, expected %d", get_utc_gps_offset(&ut, NULL), -off);
  MC_CHECK(gps2doy(&t) == w.yd - 1, "pair-doy", "day of year %d, expected %d", gps2doy(&t), w.yd - 1);
  utc2gps(&u, &back, NULL);
  MC_CHECK(fabs(gpsdifftime(&back, &t)) < 1.2e-5, "pair-back", "back to %d %.9f", back.wn, back.tow);
  mc_calls(6);
}
static void pairs(void) {
  mc_quiet();
  static const long long D[] = {-20000000, -86400, -2, -1, 0, 1, 2, 86400, 7000000};
  for (int a = 0; a < NL * 9; a++)
    for (int b = 0; b < NL * 9; b++) {
      if (!mc_mine()) continue;
      long long sa = lse(a / 9) + D[a % 9], sb = lse(b / 9) + D[b % 9];
      MC_POINT("%d s around leap second %d, then %d s around leap second %d, then the first again", (int)D[a % 9], a / 9, (int)D[b % 9], b / 9);
      instant(sa, 0.25);
      instant(sb, 0.25);
      instant(sa, 0.75);
      mc_history();
    }
}
static struct { utc_params_t p; gps_time_t t; } N;
static void near_call(void) {
  const utc_params_t *p = &N.p;
  gps_time_t t = N.t;
  MC_POINT("a0 %g a1 %g a2 %g, tot %d %g, leap seconds %d to %d at %d %g, time %d %g, after a call that differs in one of them", MC_D(p->a0), MC_D(p->a1), MC_D(p->a2), p->tot.wn, MC_D(p->tot.tow),
           p->dt_ls, p->dt_lsf, p->t_lse.wn, MC_D(p->t_lse.tow), t.wn, MC_D(t.tow));
#define DIFF(x, y) (((ld)(x).wn - (y).wn) * 604800 + (ld)(x).tow - (y).tow)
  ld d = DIFF(t, p->tot), e = DIFF(t, p->t_lse), poly = p->a0 + p->a1 * d + p->a2 * d * d;
  int lp = p->dt_lsf > p->dt_ls && e >= 0 && e < 1;
  ld off = poly + (e >= 1 ? p->dt_lsf : p->dt_ls);
  double o = get_gps_utc_offset(&t, p);
  MC_CHECK(fabsl(o - off) < 1e-9L, "near-offset", "offset %.17g, expected %.17Lg", o, off);
  MC_CHECK(is_leap_second_event(&t, p) == lp, "near-event", "leap second %s", lp ? "not seen" : "seen");
  d += p->dt_ls; /* the same instant taken as UTC */
  poly = p->a0 + p->a1 * d + p->a2 * d * d;
  ld edge = e + p->dt_ls + poly;
  if (fabsl(edge) > 1e-4L) {
    o = get_utc_gps_offset(&t, p);
    off = -(poly + (edge > 0 ? p->dt_lsf : p->dt_ls));
    MC_CHECK(fabsl(o - off) < 1e-9L, "near-utc-offset", "UTC offset %.17g, expected %.17Lg", o, off);
  }
  mc_calls(3);
  if (lp) return; /* the moved event need not be at midnight */
  off = (ld)get_gps_utc_offset(&t, p);
  utc_tm u;
  memset(&u, 0x5a, sizeof u);
  gps2utc(&t, &u, p);
  ld want = ((ld)t.wn * 604800 + t.tow) - off, got = (ld)(days_civil(u.year, u.month, u.month_day) - GPSDAY) * 86400 + u.hour * 3600 + u.minute * 60 + u.second_int + (ld)u.second_frac;
  MC_CHECK(fabsl(got - want) < 1e-6L && u.second_int < 60, "near-utc", "%d-%d-%d %d:%d:%d + %.9g is %.9Lg s off", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac, got - want);
  mc_calls(2);
}
static void near_args(void) {
  mc_quiet();
  static const double AT[] = {-400000, -86400, -20.25, -18.5, -3.25, -0.5, 0.5, 1.5, 3.25, 86400, 400000};
  for (int l = 0; l < 3; l++)
    for (int add = 0; add < 2; add++)
      for (int a = 0; a < 3; a++)
        for (int k = 0; k < 11; k++) {
          if (!mc_mine()) continue;
          memset(&N, 0, sizeof N);
          utc_params_t *p = &N.p;
          p->a0 = a ? 3.7e-7 : 0, p->a1 = a ? -4.4e-12 : 0, p->a2 = a == 2 ? 2e-16 : 0;
          p->dt_ls = (s8)(l == 0 ? 18 : l == 1 ? 17 : 3), p->dt_lsf = (s8)(p->dt_ls + add);
          p->tot.wn = 2085, p->tot.tow = 405504;
          p->t_lse.wn = 2086, p->t_lse.tow = 259200 + p->dt_ls + 1.0 / 1024;
          N.t.wn = 2086, N.t.tow = 259200 + p->dt_ls + AT[k];
          normalize_gps_time(&N.t);
          static double *const el[] = {&N.t.tow, &N.p.a0, &N.p.a1, &N.p.a2, &N.p.tot.tow, &N.p.t_lse.tow};
          static const double sc[] = {-10, 1e-3, 1e-8, 1e-13, -1e6, -10};
          near_each(el, sc, 6, near_call);
          for (int i = 0; i < 10; i++) {
            s16 *w = i < 2 ? &N.t.wn : i < 4 ? &p->tot.wn : &p->t_lse.wn;
            int g = i % 2 ? 1 : -1;
            if (i < 6) *w = (s16)(*w + g);
            else if (i < 8) p->dt_ls = (s8)(p->dt_ls + g), p->dt_lsf = (s8)(p->dt_lsf + g);
            else if (i == 8) p->dt_lsf = (s8)(p->dt_ls + !add);
            else p->dt_ls = (s8)(p->dt_lsf - !add);
            near_call();
            if (i < 6) *w = (s16)(*w - g);
            else if (i < 8) p->dt_ls = (s8)(p->dt_ls - g), p->dt_lsf = (s8)(p->dt_lsf - g);
            else if (i == 8) p->dt_lsf = (s8)(p->dt_ls + add);
            else p->dt_ls = (s8)(p->dt_lsf - add);
            near_call();
            /* and with the table in between */
            instant(lse(i + 5) + 1000, 0.5);
            near_call();
          }
          mc_history();
        }
}
MC_SPACES({"days", "every day of GPS time up to the largest week x 13 times of day: calendar fields, leap-second table, day of year, dates, MJD and back", days, 0},
          {"leap-events", "every leap second of the table, quarter seconds +-20 s and the instants next to it", leaps, 0},
          {"parameters", "10 x 18 x 6 x 2 x 5 x 7 UTC parameter sets, quarter seconds +-20 s around the event", params, 0},
          {"mjd", "every day 1601 to 3000 x 11 times of day; every month of every year to 4000; sidereal time", mjd, 0},
          {"seconds", "every second of 6 days through MJD", seconds, 0},
          {"pairs", "every pair of 162 instants around the leap seconds of the table, the first one twice", pairs, 0},
          {"near", "18 UTC parameter sets x 11 instants, each call alternating with itself with one parameter or the time changed, and with the table", near_args, 0})
