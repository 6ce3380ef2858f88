/* C31: coordinate transforms.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include <swiftnav/coord_system.h>

typedef long double ld;
#define PIL 3.14159265358979323846264338L
static const ld A_ = 6378137.0L, F_ = 1 / 298.257223563L;
static void l2e(const ld l[3], ld e[3]) {
  ld e2 = 2 * F_ - F_ * F_, s = sinl(l[0]), n = A_ / sqrtl(1 - e2 * s * s);
  e[0] = (n + l[2]) * cosl(l[0]) * cosl(l[1]);
  e[1] = (n + l[2]) * cosl(l[0]) * sinl(l[1]);
  e[2] = ((1 - e2) * n + l[2]) * s;
}
static const ld LAT[] = {-90, -89.99999999999L, -89.9999999L, -89.9999L, -89.5L, -75, -60.25L, -45, -30, -12.5L, -1, -1e-4L, -1e-9L, 0, 1e-12L, 1e-7L, 0.01L, 5, 23.5L, 37.77L, 44.9999L, 45.0001L, 51.4778L, 66.6L, 80, 88, 89.9L, 89.99999L, 89.99999999L, 89.9999999999L, 90};
#define NLA 31
static const ld LON[] = {-180, -179.9999999999L, -179.999L, -135, -122.4L, -90.0000001L, -90, -45, -1e-9L, 0, 1e-12L, 1e-6L, 30, 89.99999L, 90, 133.7L, 179.99L, 179.99999999999L, 180};
#define NLO 19
static const ld HT[] = {-5e6L, -1e6L, -11000, -500, -1, -1e-6L, 0, 1e-6L, 1, 100, 8848, 5e5L, 2.02e7L, 3.58e7L, 1e8L};
#define NH 15
/* ecef -> llh of any point: converting the answer back in extended precision gives the point */
static void inverse(const double e[3]) {
  double l[3], ke[3] = {e[0], e[1], e[2]};
  wgsecef2llh(e, l);
  mc_calls(1);
  MC_CHECK(!memcmp(ke, e, sizeof ke), "input", "the input was modified");
  ld ll[3] = {l[0], l[1], l[2]}, b[3];
  l2e(ll, b);
  ld r = sqrtl((ld)e[0] * e[0] + (ld)e[1] * e[1] + (ld)e[2] * e[2]), d = sqrtl((b[0] - e[0]) * (b[0] - e[0]) + (b[1] - e[1]) * (b[1] - e[1]) + (b[2] - e[2]) * (b[2] - e[2]));
  MC_CHECK(d <= 1e-6L + 1e-14L * r, "ecef2llh", "latitude %.15g longitude %.15g height %.9g is %.3Lg m away from the point", l[0], l[1], l[2], d);
  MC_CHECK(fabs(l[0]) <= M_PI / 2 && fabs(l[1]) <= M_PI && l[2] >= r - 6378137.0L - 1e-3L && l[2] <= r - 6356752.3L + 1e-3L, "range", "latitude %.15g longitude %.15g height %.9g out of range", l[0], l[1], l[2]);
  mc_outcome(mc_hash(l, 7));
}
static void geodetic(void) {
  for (int la = 0; la < NLA; la++)
    for (int lo = 0; lo < NLO; lo++)
      for (int h = 0; h < NH; h++) {
        if (!mc_mine()) continue;
        double l[3] = {(double)(LAT[la] * PIL / 180), (double)(LON[lo] * PIL / 180), (double)HT[h]}, e[3], kl[3] = {l[0], l[1], l[2]}, r[3];
        MC_POINT("latitude %g longitude %g height %g", MC_D(LAT[la]), MC_D(LON[lo]), MC_D(HT[h]));
        wgsllh2ecef(l, e);
        mc_calls(1);
        MC_CHECK(!memcmp(l, kl, sizeof l), "input", "the input was modified");
        ld ll[3] = {l[0], l[1], l[2]}, w[3];
        l2e(ll, w);
        ld tol = 1e-8L + 1e-15L * (6.4e6L + fabsl(HT[h])) * 4;
        for (int j = 0; j < 3; j++) MC_CHECK(fabsl(e[j] - w[j]) <= tol, "llh2ecef", "axis %d is %.12g, expected %.12Lg", j, e[j], w[j]);
        inverse(e);
        wgsecef2llh(e, r);
        ld rad = 6.4e6L + fabsl(HT[h]);
        MC_CHECK(fabsl((ld)r[0] - l[0]) * rad < 1e-6L * (HT[h] < -2e6L ? 100 : 1) + 1e-14L * rad, "roundtrip-lat", "latitude %.17g became %.17g", l[0], r[0]);
        ld dl = fabsl(remainderl((ld)r[1] - l[1], 2 * PIL)) * rad * cosl(l[0]);
        MC_CHECK(dl < 1e-6L + 1e-14L * rad, "roundtrip-lon", "longitude %.17g became %.17g", l[1], r[1]);
        MC_CHECK(fabsl((ld)r[2] - l[2]) < 1e-6L + 1e-14L * rad, "roundtrip-height", "height %.12g became %.12g", l[2], r[2]);
        double dg[3], back[3];
        llhrad2deg(l, dg);
        llhdeg2rad(dg, back);
        mc_calls(2);
        for (int j = 0; j < 2; j++) MC_CHECK(fabsl(dg[j] - (j ? LON[lo] : LAT[la])) < 1e-12L && fabs(back[j] - l[j]) < 1e-14, "degrees", "%d: %.17g degrees", j, dg[j]);
        MC_CHECK(dg[2] == l[2] && back[2] == l[2], "degrees", "the height changed");
      }
}
static void cart(void) {
  /* cartesian grid in signed octants, and points on and near the axis and the equator */
  static const double V[] = {0, 1e-12, 1e-9, 1e-6, 1e-3, 1, 1000, 6e5, 2.3e6, 4.51e6, 6356752.314, 6378137, 7e6, 2.66e7, 4.2164e7, 1e8};
  for (int x = 0; x < 16; x++)
    for (int y = 0; y < 16; y++)
      for (int z = 0; z < 16; z++)
        for (int s = 0; s < 8; s++) {
          if (!mc_mine()) continue;
          double e[3] = {s & 1 ? -V[x] : V[x], s & 2 ? -V[y] : V[y], s & 4 ? -V[z] : V[z]};
          if (sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]) < 1.2e6) continue;
          MC_POINT("point %g %g %g", MC_D(e[0]), MC_D(e[1]), MC_D(e[2]));
          inverse(e);
        }
  /* dense meridian */
  int n = mc_thorough() ? 40000 : 4000;
  for (int i = 0; i <= n; i++)
    for (int h = 0; h < 6; h++) {
      if (!mc_mine()) continue;
      static const double R[] = {1.3e6, 3e6, 6356000, 6371000, 2.6e7, 4.2e7};
      double t = M_PI * i / n - M_PI / 2, e[3] = {R[h] * cos(t) * 0.6, R[h] * cos(t) * -0.8, R[h] * sin(t)};
      MC_POINT("radius %g angle %g", MC_D(R[h]), MC_D(t));
      inverse(e);
    }
}
/* local frames */
static void ned_axes(ld lat, ld lon, ld m[3][3]) {
  ld sl = sinl(lat), cl = cosl(lat), so = sinl(lon), co = cosl(lon);
  ld q[3][3] = {{-sl * co, -sl * so, cl}, {-so, co, 0}, {-cl * co, -cl * so, -sl}};
  memcpy(m, q, sizeof q);
}
/* a vector and a point given in the local frame of a reference point, and back */
static void local(const double ref[3], const double nd[3], ld size) {
  double r[3];
  wgsecef2llh(ref, r);
  ld m[3][3];
  ned_axes(r[0], r[1], m);
  double M2[3][3], v[3], p[3], b[3], bd[3], A, E;
  ecef2ned_matrix(ref, M2);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) MC_CHECK(fabsl(M2[i][j] - m[i][j]) < 1e-15L, "matrix", "element %d,%d is %.15g, expected %.15Lg", i, j, M2[i][j], m[i][j]);
  wgsned2ecef(nd, ref, v);
  wgsned2ecef_d(nd, ref, p);
  wgsecef2ned(v, ref, b);
  wgsecef2ned_d(p, ref, bd);
  wgsecef2azel(p, ref, &A, &E);
  mc_calls(6);
  ld len = 0;
  for (int j = 0; j < 3; j++) {
    ld w = m[0][j] * nd[0] + m[1][j] * nd[1] + m[2][j] * nd[2];
    MC_CHECK(fabsl(v[j] - w) < 2e-15L * size, "ned2ecef", "axis %d is %.12g, expected %.12Lg", j, v[j], w);
    MC_CHECK(fabsl(p[j] - ref[j] - w) < 3e-9L + 2e-15L * size, "ned2ecef_d", "axis %d is %.12g, expected %.12Lg", j, p[j], ref[j] + w);
    MC_CHECK(fabs(b[j] - nd[j]) < 4e-15 * size && fabs(bd[j] - nd[j]) < 8e-9 + 4e-15 * size, "ecef2ned", "axis %d is %.12g and %.12g, expected %.12g", j, b[j], bd[j], nd[j]);
    len += (ld)v[j] * v[j];
  }
  MC_CHECK(fabsl(sqrtl(len) - size) < 4e-15L * size, "length", "length %.15Lg", sqrtl(len));
  /* azimuth and elevation of the point as stored */
  ld q[3] = {(ld)p[0] - ref[0], (ld)p[1] - ref[1], (ld)p[2] - ref[2]}, nn[3];
  for (int i = 0; i < 3; i++) nn[i] = m[i][0] * q[0] + m[i][1] * q[1] + m[i][2] * q[2];
  ld hz = sqrtl(nn[0] * nn[0] + nn[1] * nn[1]), we = atan2l(-nn[2], hz), wa = atan2l(nn[1], nn[0]);
  /* near the zenith an arc sine loses half the digits */
  ld te = fminl(1e-7L, 1e-15L / fmaxl(cosl(we), 1e-15L)) + 4e-9L / size * (size < 1e3 ? 1 : 0) + 1e-14L;
  MC_CHECK(fabsl(E - we) < te, "elevation", "elevation %.15g, expected %.15Lg", E, we);
  MC_CHECK(A >= 0 && A <= 2 * M_PI, "azimuth-range", "azimuth %.15g", A);
  if (hz > 1e-6L * size) MC_CHECK(fabsl(remainderl((ld)A - wa, 2 * PIL)) < 1e-14L + 4e-9L / hz, "azimuth", "azimuth %.15g, expected %.15Lg", A, wa);
}
static void frames(void) {
  static const double DR[] = {1e-3, 1, 2e4, 2.3e7};
  for (int la = 0; la < NLA; la++)
    for (int lo = 0; lo < NLO; lo++)
      for (int h = 0; h < 4; h++) {
        if (!mc_mine()) continue;
        static const double HH[] = {-400, 0, 9000, 5e5};
        double l[3] = {(double)(LAT[la] * PIL / 180), (double)(LON[lo] * PIL / 180), HH[h]}, ref[3];
        if (fabs(fabs(l[0]) - M_PI / 2) < 1e-6) { /* the longitude at the poles is a convention: frame consistency only */ }
        wgsllh2ecef(l, ref);
        double r[3];
        wgsecef2llh(ref, r);
        ld m[3][3];
        ned_axes(r[0], r[1], m);
        double M[3][3], M2[3][3];
        wgs_ecef2ned_matrix(r, M);
        ecef2ned_matrix(ref, M2);
        mc_calls(2);
        MC_POINT("reference latitude %g longitude %g height %g", MC_D(LAT[la]), MC_D(LON[lo]), MC_D(HH[h]));
        for (int i = 0; i < 3; i++)
          for (int j = 0; j < 3; j++) {
            MC_CHECK(fabsl(M[i][j] - m[i][j]) < 1e-15L && fabsl(M2[i][j] - m[i][j]) < 1e-15L, "matrix", "element %d,%d is %.15g and %.15g, expected %.15Lg", i, j, M[i][j], M2[i][j], m[i][j]);
            ld o = 0;
            for (int k = 0; k < 3; k++) o += (ld)M[i][k] * M[j][k];
            MC_CHECK(fabsl(o - (i == j)) < 1e-15L, "orthonormal", "rows %d and %d have product %.15Lg", i, j, o);
          }
        for (int d = 0; d < 4; d++)
          for (int az = 0; az < 17; az++)
            for (int el = -6; el <= 6; el++) {
              ld a = az * PIL / 8, e = el * PIL / 12, n[3] = {DR[d] * cosl(e) * cosl(a), DR[d] * cosl(e) * sinl(a), -DR[d] * sinl(e)};
              if (az == 16) a = n[1] = 0, n[0] = DR[d] * cosl(e);
              double nd[3] = {(double)n[0], (double)n[1], (double)n[2]};
              MC_POINT("reference latitude %g longitude %g height %g, %g m away at azimuth %d/8 pi, elevation %d/12 pi", MC_D(LAT[la]), MC_D(LON[lo]), MC_D(HH[h]), MC_D(DR[d]), az, el);
              local(ref, nd, sqrtl((ld)nd[0] * nd[0] + (ld)nd[1] * nd[1] + (ld)nd[2] * nd[2]));
            }
      }
}
/* a call between two that differ from it in one element */
static double na[6];
static void near_local(void) {
  MC_POINT("reference %g %g %g, %g %g %g m away, after a call that differs in one of them", MC_D(na[0]), MC_D(na[1]), MC_D(na[2]), MC_D(na[3]), MC_D(na[4]), MC_D(na[5]));
  local(na, na + 3, sqrtl((ld)na[3] * na[3] + (ld)na[4] * na[4] + (ld)na[5] * na[5]));
}
static void near_inverse(void) {
  MC_POINT("point %g %g %g, after a call that differs in one of them", MC_D(na[0]), MC_D(na[1]), MC_D(na[2]));
  inverse(na);
}
static void near_llh(void) {
  MC_POINT("latitude %g longitude %g rad height %g, after a call that differs in one of them", MC_D(na[0]), MC_D(na[1]), MC_D(na[2]));
  double e[3], dg[3], back[3], M[3][3];
  wgsllh2ecef(na, e);
  llhrad2deg(na, dg);
  llhdeg2rad(dg, back);
  wgs_ecef2ned_matrix(na, M);
  mc_calls(4);
  ld ll[3] = {na[0], na[1], na[2]}, w[3], m[3][3];
  l2e(ll, w);
  ned_axes(na[0], na[1], m);
  ld tol = 1e-8L + 1e-15L * (6.4e6L + fabsl(na[2])) * 4;
  for (int j = 0; j < 3; j++) {
    MC_CHECK(fabsl(e[j] - w[j]) <= tol, "llh2ecef", "axis %d is %.12g, expected %.12Lg", j, e[j], w[j]);
    MC_CHECK(fabsl(dg[j] - (j < 2 ? na[j] * 180 / PIL : na[j])) < 1e-12L && fabs(back[j] - na[j]) < 1e-14 * (1 + fabs(na[j])), "degrees", "%d: %.17g degrees", j, dg[j]);
    for (int k = 0; k < 3; k++) MC_CHECK(fabsl(M[j][k] - m[j][k]) < 1e-15L, "matrix", "element %d,%d is %.15g, expected %.15Lg", j, k, M[j][k], m[j][k]);
  }
}
static void near_args(void) {
  static double *const p[] = {&na[0], &na[1], &na[2], &na[3], &na[4], &na[5]};
  static const double S1[] = {0.5, 2, -5000}, S2[] = {1e6, 1e6, 1e6, 1e4, 1e4, 1e4};
  for (int la = 0; la < NLA; la++)
    for (int lo = 0; lo < NLO; lo++)
      for (int h = 0; h < 3; h++) {
        if (!mc_mine()) continue;
        static const double HH[] = {-400, 1234.5, 5e5};
        double l[3] = {(double)(LAT[la] * PIL / 180) * 0.6, (double)(LON[lo] * PIL / 180) * 0.8, HH[h]};
        memcpy(na, l, sizeof l);
        near_each(p, S1, 3, near_llh);
        wgsllh2ecef(l, na);
        near_each(p, S2, 3, near_inverse);
        na[3] = 300.5, na[4] = -4000.25 + h, na[5] = 77.125;
        near_each(p, S2, 6, near_local);
        mc_history();
      }
}
MC_SPACES({"geodetic", "31 latitudes x 19 longitudes x 15 heights, poles, equator, antimeridian and their neighbours included", geodetic, 0},
          {"cartesian", "16^3 coordinate magnitudes x 8 octants, dense meridians at 6 radii", cart, 0},
          {"frames", "31 x 19 x 4 reference points x 4 distances x 17 azimuths x 13 elevations", frames, 0},
          {"near", "31 x 19 x 3 points, every transform alternating with itself with one element of its arguments changed by 12 amounts or in sign", near_args, 0})
