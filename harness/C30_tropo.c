/* C30: tropospheric delay, UNB3m with the Niell mapping functions.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include <swiftnav/troposphere.h>

typedef long double ld;
#define PIL 3.14159265358979323846264338L
static const ld AVG[8][5] = {{1013.25L, 1017.25L, 1015.75L, 1011.75L, 1013.0L}, {299.65L, 294.15L, 283.15L, 272.15L, 263.65L}, {75, 80, 76, 77.5L, 82.5L}, {6.30L, 6.05L, 5.58L, 5.39L, 4.53L}, {2.77L, 3.15L, 2.57L, 1.81L, 1.55L},
                             {1.2769934e-3L, 1.2683230e-3L, 1.2465397e-3L, 1.2196049e-3L, 1.2045996e-3L}, {2.9153695e-3L, 2.9152299e-3L, 2.9288445e-3L, 2.9022565e-3L, 2.9024912e-3L}, {62.610505e-3L, 62.837393e-3L, 63.721774e-3L, 63.824265e-3L, 64.258455e-3L}};
static const ld AMP[8][5] = {{0, -3.75L, -2.25L, -1.75L, -0.5L}, {0, 7, 11, 15, 14.5L}, {0, 0, -1, -2.5L, 2.5L}, {0, 0.25L, 0.32L, 0.81L, 0.62L}, {0, 0.33L, 0.46L, 0.74L, 0.30L},
                             {0, 1.2709626e-5L, 2.6523662e-5L, 3.4000452e-5L, 4.1202191e-5L}, {0, 2.1414979e-5L, 3.0160779e-5L, 7.2562722e-5L, 11.723375e-5L}, {0, 9.0128400e-5L, 4.3497037e-5L, 84.795348e-5L, 170.37206e-5L}};
static const ld WET[3][5] = {{5.8021897e-4L, 5.6794847e-4L, 5.8118019e-4L, 5.9727542e-4L, 6.1641693e-4L}, {1.4275268e-3L, 1.5138625e-3L, 1.4572752e-3L, 1.5007428e-3L, 1.7599082e-3L}, {4.3472961e-2L, 4.6729510e-2L, 4.3908931e-2L, 4.4626982e-2L, 5.4736038e-2L}};
static ld interp(ld deg, const ld *t) {
  ld a = fabsl(deg);
  if (a <= 15) return t[0];
  if (a >= 75) return t[4];
  int i = (int)((a - 15) / 15);
  return t[i] + (t[i + 1] - t[i]) * (a - 15 - 15 * i) / 15;
}
static ld season(ld deg, ld doy, int k) { return interp(deg, AVG[k]) - interp(deg, AMP[k]) * cosl(2 * PIL * (doy + (deg < 0 ? 182.625L : 0) - 28) / 365.25L); }
static ld mapf(ld s, ld a, ld b, ld c) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
static ld ref(ld doy, ld lat, ld h, ld el) {
  ld deg = lat * 180 / PIL;
  if (h < 0) h = 0;
  ld P = season(deg, doy, 0), T0 = season(deg, doy, 1), RH = season(deg, doy, 2), be = season(deg, doy, 3) / 1000, la = season(deg, doy, 4) + 1;
  ld es = 0.01L * expl(1.2378847e-5L * T0 * T0 - 1.9121316e-2L * T0 + 33.93711047L - 6343.1645L / T0), tc = T0 - 273.15L, fw = 1.00062L + 3.14e-6L * P + 5.6e-7L * tc * tc, e0 = RH / 100 * es * fw;
  ld Rd = 8314.34L / 28.9644L, q = 1 - be * h / T0, ex = 9.80665L / 287.054L / be;
  ld k2 = 64.79L - 77.604L * 18.0152L / 28.9644L, psi = atanl((1 - 6.6943799901413e-3L) * tanl(lat)), dg = 1 - 2.66e-3L * cosl(2 * psi) - 2.8e-7L * h, gm = 9.784L * dg;
  ld T = T0 - be * h, p = P * powl(q, ex), e = e0 * powl(q, ex * la), Tm = T * (1 - be * Rd / (gm * la));
  ld zhd = 2.2768e-3L / dg * p, zwd = 1e-6L * (k2 + 377600 / Tm) * Rd * e / (gm * la), s = sinl(el);
  ld mh = mapf(s, season(deg, doy, 5), season(deg, doy, 6), season(deg, doy, 7)) + (1 / s - mapf(s, 2.53e-5L, 5.49e-3L, 1.14e-3L)) * h / 1000;
  return mh * zhd + mapf(s, interp(deg, WET[0]), interp(deg, WET[1]), interp(deg, WET[2])) * zwd;
}
static double call(double doy, double lat, double h, double el) {
  mc_calls(1);
  return calc_troposphere(doy, lat, h, el);
}
static const double D2R_ = 3.14159265358979323846 / 180;
static const double LAT[] = {-90, -89.999, -75.001, -75, -74.999, -67.5, -60, -45.0001, -45, -30, -15.001, -15, -14.999, -7, -0.001, 0, 0.001, 14.999, 15, 15.001, 22.5, 29.999, 30, 37.7, 44.999, 45, 45.001, 59.999, 60, 70, 74.999, 75, 75.001, 88, 90};
static const double H[] = {0, 1e-3, 1, 12.5, 100, 500, 1000, 1999.5, 3500, 5000, 8848, 10000, 10999.9};
static const double EL[] = {0.2, 0.5, 1, 2, 3, 5, 7.5, 10, 15, 20, 30, 45, 60, 75, 85, 89.9, 90};
static void model(void) {
  int nd = mc_thorough() ? 366 : 62;
  for (int d = 0; d < nd; d++)
    for (int la = 0; la < 35; la++) {
      if (!mc_mine()) continue;
      for (int h = 0; h < 13; h++) {
        double last = INFINITY;
        for (int e = 0; e < 17; e++) {
          double doy = mc_thorough() ? d + 0.37 : d * 6, lat = LAT[la] * D2R_, el = EL[e] * D2R_;
          MC_POINT("day %g latitude %g height %g elevation %g", MC_D(doy), MC_D(LAT[la]), MC_D(H[h]), MC_D(EL[e]));
          double g = call(doy, lat, H[h], el);
          ld w = ref(doy, lat, H[h], el);
          MC_CHECK(fabsl(g - w) <= 1e-5L * fabsl(w) + 1e-7L, "delay", "%.9g m, expected %.9Lg m", g, w);
          MC_CHECK(g > 0 && g < 200, "positive", "%g m", g);
          MC_CHECK(g < last, "elevation", "%.9g m, at the lower elevation %.9g m", g, last);
          last = g;
          mc_outcome(mc_hash(&g, 4) & 0xffff);
        }
      }
    }
}
/* falls with height; half a year and the other hemisphere give the same */
static void shape(void) {
  for (int d = 0; d < 74; d++)
    for (int la = 0; la < 35; la++) {
      if (!mc_mine()) continue;
      for (int e = 8; e < 17; e++) {
        double doy = d * 5, lat = LAT[la] * D2R_, el = EL[e] * D2R_, last = INFINITY;
        for (int h = 0; h < 13; h++) {
          MC_POINT("day %g latitude %g height %g elevation %g", MC_D(doy), MC_D(LAT[la]), MC_D(H[h]), MC_D(EL[e]));
          double g = call(doy, lat, H[h], el);
          MC_CHECK(g <= last * (1 + 2e-6), "height", "%.9g m, lower down %.9g m", g, last);
          last = g;
          double s = lat ? call(doy + 182.625, -lat, H[h], el) : g;
          MC_CHECK(fabs(s - g) <= 1e-6 * g + 1e-7, "hemisphere", "%.9g m here, %.9g m in the other hemisphere half a year apart", g, s);
          double y = call(doy + 365.25, lat, H[h], el);
          MC_CHECK(fabs(y - g) <= 1e-6 * g + 1e-7, "yearly", "%.9g m, a year later %.9g m", g, y);
        }
      }
      /* continuous in latitude and height */
      for (int h = 0; h < 12; h++) {
        double x = call(d * 5, LAT[la] * D2R_, H[h], 0.3), y = call(d * 5, (LAT[la] + (la < 34 ? 1e-7 : -1e-7)) * D2R_, H[h], 0.3), z = call(d * 5, LAT[la] * D2R_, H[h] + 1e-4, 0.3);
        MC_POINT("day %d latitude %g height %g: neighbours", d * 5, MC_D(LAT[la]), MC_D(H[h]));
        if (fabs(LAT[la]) > 1e-9) MC_CHECK(fabs(x - y) < 2e-5, "continuous", "%.9g m and %.9g m", x, y);
        MC_CHECK(fabs(x - z) < 2e-5, "continuous", "%.9g m and %.9g m", x, z);
      }
    }
}
/* outside the model */
static void bounds(void) {
  static const double E[] = {-90, -45, -10, -1, -0.1, -1e-9, 0, 1e-12, 1e-6, 1e-3, 0.05, 0.1, 0.15, 0.5, 90};
  static const double HH[] = {-1e9, -6.4e6, -10000, -500, -1, -1e-3, 0, 10999, 11000, 11000.1, 12000, 2e4, 1e5, 2e7, 1e30};
  for (int d = 0; d < 75; d++)
    for (int la = 0; la < 35; la++) {
      if (!mc_mine()) continue;
      for (int h = 0; h < 15; h++) {
        double at = INFINITY;
        for (int e = 0; e < 15; e++) {
          double g = call(d * 5, LAT[la] * D2R_, HH[h], E[e] * D2R_);
          MC_POINT("day %d latitude %g height %g elevation %g", d * 5, MC_D(LAT[la]), MC_D(HH[h]), MC_D(E[e]));
          MC_CHECK(g == g && g >= 0 && g < 1000, "bounded", "%g m", g);
          MC_CHECK(g <= at, "elevation", "%.9g m, at the lower elevation %.9g m", g, at);
          at = g;
          if (HH[h] > 11000) MC_CHECK(g == 0, "above", "%g m above the troposphere", g);
          if (HH[h] < 0) MC_CHECK(fabs(g - call(d * 5, LAT[la] * D2R_, 0, E[e] * D2R_)) < 1e-9, "below", "%g m, differs from height 0", g);
        }
      }
    }
}
/* a call between two that differ from it in one element */
static double na[4];
static void near_call(void) {
  MC_POINT("day %g latitude %g height %g elevation %g rad, after a call that differs in one of them", MC_D(na[0]), MC_D(na[1]), MC_D(na[2]), MC_D(na[3]));
  double g = call(na[0], na[1], na[2], na[3]);
  ld w = ref(na[0], na[1], na[2], na[3]);
  MC_CHECK(fabsl(g - w) <= 1e-5L * fabsl(w) + 1e-7L, "delay", "%.9g m, expected %.9Lg m", g, w);
}
static void near_args(void) {
  static double *const p[] = {&na[0], &na[1], &na[2], &na[3]};
  static const double sc[] = {-60, 0.3, -300, -0.3};
  for (int d = 0; d < 12; d++)
    for (int la = 0; la < 35; la++)
      for (int h = 4; h < 11; h++)
        for (int e = 0; e < 8; e++) {
          if (!mc_mine()) continue;
          if (fabs(LAT[la]) > 72) continue;
          na[0] = 20.5 + d * 31, na[1] = LAT[la] * D2R_, na[2] = H[h], na[3] = 0.11 + e * 0.16;
          near_each(p, sc, 4, near_call);
          mc_history();
        }
}
MC_SPACES({"model", "62 (366) days x 35 latitudes x 13 heights x 17 elevations", model, 0},
          {"shape", "74 days x 35 latitudes x 13 heights x 9 elevations: height order, hemispheres, years, neighbours", shape, 0},
          {"bounds", "75 days x 35 latitudes x 15 heights x 15 elevations outside the model", bounds, 0},
          {"near", "12 days x 25 latitudes x 7 heights x 8 elevations, each alternating with itself with one element changed by 12 amounts or in sign", near_args, 0})
