/* Broadcast orbit models in extended precision, from the interface documents,
 * with velocity and acceleration as numerical derivatives of the position. */
#ifndef ORBIT_H
#define ORBIT_H
#include <math.h>
typedef long double ld;
enum { OM_GPS, OM_GAL, OM_BDS, OM_GEO };
typedef struct { ld m0, ecc, sqrta, dn, omega0, omegadot, w, inc, inc_dot, cuc, cus, crc, crs, cic, cis, toe; } om_kepler;
#define OM_C 299792458.0L
static void om_pos(int sys, const om_kepler *k, ld tk, ld p[3], ld *sin_e) {
  ld gm = sys == OM_GPS ? 3.986005e14L : 3.986004418e14L;
  ld we = sys == OM_BDS || sys == OM_GEO ? 7.2921150e-5L : 7.2921151467e-5L;
  ld a = k->sqrta * k->sqrta, n = sqrtl(gm / (a * a * a)) + k->dn, m = k->m0 + n * tk, e = m;
  for (int i = 0; i < 60; i++) {
    ld d = (m - e + k->ecc * sinl(e)) / (1 - k->ecc * cosl(e));
    e += d;
    if (fabsl(d) < 1e-19L) break;
  }
  ld nu = atan2l(sqrtl(1 - k->ecc * k->ecc) * sinl(e), cosl(e) - k->ecc), phi = nu + k->w;
  ld s = sinl(2 * phi), c = cosl(2 * phi);
  ld u = phi + k->cus * s + k->cuc * c, r = a * (1 - k->ecc * cosl(e)) + k->crs * s + k->crc * c, i = k->inc + k->cis * s + k->cic * c + k->inc_dot * tk;
  ld x = r * cosl(u), y = r * sinl(u);
  ld om = k->omega0 + (k->omegadot - (sys == OM_GEO ? 0 : we)) * tk - we * k->toe;
  ld q[3] = {x * cosl(om) - y * cosl(i) * sinl(om), x * sinl(om) + y * cosl(i) * cosl(om), y * sinl(i)};
  if (sys == OM_GEO) { /* Rz(we tk) Rx(-5 degrees) */
    ld f = -5 * 3.14159265358979323846264338L / 180, g = we * tk;
    ld yy = cosl(f) * q[1] + sinl(f) * q[2], zz = -sinl(f) * q[1] + cosl(f) * q[2], xx = q[0];
    q[0] = cosl(g) * xx + sinl(g) * yy;
    q[1] = -sinl(g) * xx + cosl(g) * yy;
    q[2] = zz;
  }
  for (int j = 0; j < 3; j++) p[j] = q[j];
  if (sin_e) *sin_e = sinl(e);
}
/* position, velocity, acceleration (five point differences, two second spacing) */
static void om_state(int sys, const om_kepler *k, ld tk, ld p[3], ld v[3], ld a[3], ld *sin_e) {
  ld q[5][3], h = 2;
  for (int i = 0; i < 5; i++) om_pos(sys, k, tk + (i - 2) * h, q[i], i == 2 ? sin_e : (ld *)0);
  for (int j = 0; j < 3; j++) {
    p[j] = q[2][j];
    v[j] = (q[0][j] - 8 * q[1][j] + 8 * q[3][j] - q[4][j]) / (12 * h);
    a[j] = (-q[0][j] + 16 * q[1][j] - 30 * q[2][j] + 16 * q[3][j] - q[4][j]) / (12 * h * h);
  }
}
/* GLONASS equations of motion and their integration */
static void om_glo_rhs(const ld y[6], const ld ls[3], ld d[6]) {
  const ld mu = 3.986004418e14L, ae = 6378136.0L, j2 = 1.08262575e-3L, w = 7.292115e-5L;
  ld r = sqrtl(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), z2 = y[2] * y[2] / (r * r), m = mu / (r * r * r), g = 1.5L * j2 * m * ae * ae / (r * r);
  for (int i = 0; i < 3; i++) d[i] = y[3 + i];
  d[3] = -m * y[0] - g * y[0] * (1 - 5 * z2) + w * w * y[0] + 2 * w * y[4] + ls[0];
  d[4] = -m * y[1] - g * y[1] * (1 - 5 * z2) + w * w * y[1] - 2 * w * y[3] + ls[1];
  d[5] = -m * y[2] - g * y[2] * (3 - 5 * z2) + ls[2];
}
static void om_glo(ld y[6], const ld ls[3], ld dt) {
  int n = (int)ceill(fabsl(dt) / 10) + 1;
  ld h = dt / n;
  for (int s = 0; s < n; s++) {
    ld k[4][6], t[6];
    om_glo_rhs(y, ls, k[0]);
    for (int j = 0; j < 6; j++) t[j] = y[j] + h / 2 * k[0][j];
    om_glo_rhs(t, ls, k[1]);
    for (int j = 0; j < 6; j++) t[j] = y[j] + h / 2 * k[1][j];
    om_glo_rhs(t, ls, k[2]);
    for (int j = 0; j < 6; j++) t[j] = y[j] + h * k[2][j];
    om_glo_rhs(t, ls, k[3]);
    for (int j = 0; j < 6; j++) y[j] += h / 6 * (k[0][j] + 2 * k[1][j] + 2 * k[2][j] + k[3][j]);
  }
}
#endif
