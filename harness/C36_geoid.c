/* C36: geoid heights.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include "egm2008.h"
#include <swiftnav/geoid_model.h>

#define RAD(d) ((d) * (3.14159265358979323846 / 180))
#define TOL 2e-3 /* the library works in float degrees: 3e-5 degrees of arc */
static double node(int x, int y) { return EGM[((x % 360) + 360) % 360][y] * 1e-6; }
static double cr(double a, double b, double c, double d, double t) {
  /* cubic convolution (Keys, a = -1/2) written with its kernel weights */
  double u = 1 - t, w0 = -0.5 * t * u * u, w3 = -0.5 * u * t * t, w1 = 1 + t * t * (1.5 * t - 2.5), w2 = 1 + u * u * (1.5 * u - 2.5);
  return w0 * a + w1 * b + w2 * c + w3 * d;
}
static double bicubic(int x, int y, double fx, double fy) {
  double r[4];
  for (int i = 0; i < 4; i++) r[i] = cr(node(x - 1, y - 1 + i), node(x, y - 1 + i), node(x + 1, y - 1 + i), node(x + 2, y - 1 + i), fx);
  return cr(r[0], r[1], r[2], r[3], fy);
}
static double bilinear(int x, int y, double fx, double fy) {
  double s = node(x, y) + fx * (node(x + 1, y) - node(x, y)), n = node(x, y + 1) + fx * (node(x + 1, y + 1) - node(x, y + 1));
  return s + fy * (n - s);
}
/* latitude and longitude in degrees, longitude in [0, 360) */
static double ref(double lat, double lon) {
  int y = (int)floor(lat + 90), x = (int)floor(lon);
  if (y > 179) y = 179;
  double fy = lat + 90 - y, fx = lon - x;
  int outer = y == 0 || y == 179;
  return outer ? bilinear(x, y, fx, fy) : bicubic(x, y, fx, fy);
}
static float ask(double lat, double lon) {
  mc_calls(1);
  return get_geoid_offset(lat, lon);
}
/* every node, in both longitude conventions */
static void nodes(void) {
  mc_quiet();
  for (int x = -360; x <= 360; x++) {
    if (!mc_mine()) continue;
    for (int y = 0; y <= 180; y++) {
      MC_POINT("node longitude %d latitude %d", x, y - 90);
      float g = ask(RAD(y - 90.), RAD((double)x));
      MC_CHECK(fabs(g - node(x, y)) < TOL, "node", "%g m, the model has %g m", (double)g, node(x, y));
      mc_outcome(mc_hash(&g, 4));
    }
  }
}
/* every cell, a lattice of interior points and both conventions */
static void cells(void) {
  mc_quiet();
  static const double FQ[] = {0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875}, FT[] = {0, 1 / 16., 2 / 16., 3 / 16., 4 / 16., 5 / 16., 6 / 16., 7 / 16., 8 / 16., 9 / 16., 10 / 16., 11 / 16., 12 / 16., 13 / 16., 14 / 16., 15 / 16.};
  const double *F = mc_thorough() ? FT : FQ;
  int n = mc_thorough() ? 16 : 8;
  for (int x = 0; x < 360; x++) {
    if (!mc_mine()) continue;
    for (int y = 0; y < 180; y++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          double lon = x + F[i], lat = y - 90 + F[j];
          MC_POINT("cell longitude %g latitude %g", MC_D(lon), MC_D(lat));
          float g = ask(RAD(lat), RAD(lon));
          double w = ref(lat, lon);
          /* on the edge between the two formulas a rounded latitude may choose either */
          MC_CHECK(fabs(g - w) < TOL || ((lat == 89 || lat == -89) && fabs(g - bilinear(x, lat > 0 ? 179 : 0, F[i], lat > 0 ? 0 : 1)) < TOL), "cell", "%g m, interpolation gives %g m", (double)g, w);
          float h = ask(RAD(lat), RAD(lon - 360));
          MC_CHECK(fabs(g - h) < TOL, "longitude", "%g m at %g degrees but %g m a turn away", (double)g, lon, (double)h);
        }
    mc_outcome(x);
  }
}
/* the height does not jump: floating neighbours across every cell edge */
static void edges(void) {
  mc_quiet();
  static const double D[] = {1e-12, 1e-7, 1e-5, 4e-5, 2e-4};
  for (int x = -360; x <= 360; x++) {
    if (!mc_mine()) continue;
    for (int y = -90; y <= 90; y++)
      for (int k = 0; k < 5; k++)
        for (int half = 0; half < 2; half++) {
          double e = D[k], lon = x, lat = y;
          MC_POINT("edges near longitude %d latitude %d: step %g degrees, half %d", x, y, MC_D(e), half);
          if (y == -90 || y == 90) e = 0;
          else {
            /* across a parallel */
            double l2 = half && x < 360 ? lon + 0.5 : lon;
            float a = ask(RAD(lat - e), RAD(l2)), b = ask(RAD(lat + e), RAD(l2));
            /* bilinear and bicubic rows meet at 89 degrees with a small step */
            double lim = 0.004 + 60 * e + ((y == 89 || y == -89) && half ? 0.05 : 0);
            MC_CHECK(fabs(a - b) < lim, "jump-lat", "%g m and %g m", (double)a, (double)b);
          }
          e = D[k];
          double la2 = half && y < 90 ? lat + 0.5 : lat;
          double lo1 = lon - e, lo2 = lon + e;
          if (lo1 < -360) lo1 += 360;
          if (lo2 > 360) lo2 -= 360;
          float a = ask(RAD(la2), RAD(lo1)), b = ask(RAD(la2), RAD(lo2));
          MC_CHECK(fabs(a - b) < 0.004 + 60 * e, "jump-lon", "%g m and %g m", (double)a, (double)b);
          mc_outcome(mc_hash(&b, 4));
        }
  }
}
/* corners of the domain, exact and nearby, and outside it */
static void domain(void) {
  mc_quiet();
  double P2 = 1.57079632679489661923, P = 3.14159265358979323846;
  double LA[64], LO[256];
  int na = 0, no = 0;
  const double B[] = {-P2, P2, 0, -P2 + RAD(1), P2 - RAD(1), P2 - RAD(2)};
  for (int i = 0; i < 6; i++) {
    double u = B[i], d = B[i];
    LA[na++] = B[i];
    for (int k = 0; k < 3; k++) {
      u = nextafter(u, 9), d = nextafter(d, -9);
      if (i != 1) LA[na++] = u;
      if (i != 0) LA[na++] = d;
    }
  }
  const double C[] = {-2 * P, 2 * P, 0, -P, P, -RAD(1), RAD(1), RAD(359), -RAD(359)};
  for (int i = 0; i < 9; i++) {
    double u = C[i], d = C[i];
    LO[no++] = C[i];
    for (int k = 0; k < 3; k++) {
      u = nextafter(u, 9), d = nextafter(d, -9);
      if (i != 1) LO[no++] = u;
      if (i != 0) LO[no++] = d;
    }
    const double T[] = {1e-300, 1e-20, 1e-9, 1e-8, 5e-8, 2.6e-7, 3e-7};
    for (int k = 0; k < 7; k++) {
      if (i != 1) LO[no++] = C[i] + T[k];
      if (i != 0) LO[no++] = C[i] - T[k];
    }
  }
  for (int i = 0; i < na; i++)
    for (int j = 0; j < no; j++) {
      if (!mc_mine()) continue;
      MC_POINT("domain latitude %g rad longitude %g rad", MC_D(LA[i]), MC_D(LO[j]));
      float g = ask(LA[i], LO[j]);
      double lat = LA[i] * 180 / P, lon = fmod(LO[j] * 180 / P + 720, 360);
      if (lat > 90) lat = 90;
      if (lat < -90) lat = -90;
      double w = ref(lat, lon);
      MC_CHECK(fabs(g - w) < 0.006, "domain", "%g m, expected %g m", (double)g, w);
      mc_outcome(mc_hash(&g, 4));
    }
  static const double BADLA[] = {91, -91, 95, 180, -180, 360, 1e6, -1e6, 1e300, -1e300}, BADLO[] = {361, 365, -361, -365, 720, -720, 1e6, -1e6, 1e300, -1e300};
  for (int i = 0; i < 10; i++)
    for (int k = 0; k < 37; k++) {
      if (!mc_mine()) continue;
      MC_POINT("outside %d %d", i, k);
      float a = ask(RAD(BADLA[i]), RAD(-360. + 20 * k)), b = ask(RAD(-90. + 5 * k), RAD(BADLO[i]));
      MC_CHECK(a == 0 && b == 0, "outside", "%g m and %g m outside the map", (double)a, (double)b);
    }
  MC_CHECK(get_geoid_model() == GEOID_MODEL_EGM2008, "model", "model %d", (int)get_geoid_model());
}
/* a height between two that were asked for nearby places */
static double nq[2];
static void near_call(void) {
  double lat = nq[0] * 180 / 3.14159265358979323846, lon = fmod(nq[1] * 180 / 3.14159265358979323846 + 720, 360);
  if (fabs(lat) > 89.9 || fabs(nq[1]) > RAD(359.99)) return;
  MC_POINT("latitude %g longitude %g degrees, after a place close by", MC_D(lat), MC_D(lon));
  float g = ask(nq[0], nq[1]);
  double w = ref(lat, lon);
  MC_CHECK(fabs(g - w) < TOL || (fabs(fabs(lat) - 89) < 1e-4), "near", "%g m, interpolation gives %g m", (double)g, w);
}
static void near_args(void) {
  mc_quiet();
  static double *const p[] = {&nq[0], &nq[1]};
  static const double sc[] = {-0.02, -0.02}, big[] = {-0.2, -0.2};
  int st = mc_thorough() ? 1 : 3;
  for (int x = 0; x < 360; x += st)
    for (int y = 1; y < 179; y += st) {
      if (!mc_mine()) continue;
      nq[0] = RAD(y - 90 + 0.63), nq[1] = RAD(x - (y & 1 ? 360 : 0) + 0.31);
      near_each(p, sc, 2, near_call);
      near_each(p, big, 2, near_call);
      mc_history();
    }
}
MC_SPACES({"nodes", "every node of the one-degree grid, longitudes -360..360", nodes, 0}, {"cells", "every cell, a lattice of interior points, both longitude conventions", cells, 0},
          {"edges", "both sides of every cell edge", edges, 0}, {"domain", "ends of the domain, floating neighbours, points outside", domain, 0},
          {"near", "a place in every third (every) cell, alternating with 48 places 2 nanodegrees to 4 degrees away", near_args, 0})
