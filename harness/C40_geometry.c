/* C40: azimuth, elevation and Doppler against the satellite geometry.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "orbit.h"
#include "near.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>

#define PIL 3.14159265358979323846264338L
enum { GLO = 90, SB };
static const struct { code_t code; u16 sat; int sys; satellite_orbit_type_t orb; ld mhz; } SYS[] = {
    {CODE_GPS_L1CA, 5, OM_GPS, MEO, 1575.42L}, {CODE_GPS_L2CM, 9, OM_GPS, MEO, 1227.60L}, {CODE_GAL_E1B, 11, OM_GAL, MEO, 1575.42L}, {CODE_GAL_E7I, 30, OM_GAL, MEO, 1207.14L},
    {CODE_BDS2_B1, 12, OM_BDS, MEO, 1561.098L}, {CODE_BDS2_B1, 3, OM_GEO, GEO, 1561.098L}, {CODE_BDS2_B2, 8, OM_BDS, IGSO, 1207.14L}, {CODE_BDS3_B3I, 38, OM_BDS, IGSO, 1268.52L},
    {CODE_QZS_L1CA, 194, OM_GPS, MEO, 1575.42L}, {CODE_GLO_L1OF, 4, GLO, MEO, 0}, {CODE_GLO_L2OF, 21, GLO, MEO, 0}, {CODE_SBAS_L1CA, 131, SB, GEO, 1575.42L}, {CODE_GPS_L5I, 2, OM_GPS, MEO, 1176.45L}};
#define NSYS 13
static const double RLAT[] = {-90, -67.5, -23, 0, 1e-4, 37.7, 52, 89.999, 90}, RLON[] = {-180, -122.4, -61, 0, 45, 90, 151, 179.9999}, RH[] = {-100, 0, 8848, 400000};
typedef struct { ld lat, lon; double p[3]; } rx_t;
static void place(rx_t *r, double lat, double lon, double h) {
  const ld a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f);
  r->lat = lat * PIL / 180, r->lon = lon * PIL / 180;
  ld n = a / sqrtl(1 - e2 * sinl(r->lat) * sinl(r->lat));
  r->p[0] = (double)((n + h) * cosl(r->lat) * cosl(r->lon));
  r->p[1] = (double)((n + h) * cosl(r->lat) * sinl(r->lon));
  r->p[2] = (double)((n * (1 - e2) + h) * sinl(r->lat));
}
/* compares one pair of angles; the satellite position is good to a few millimetres */
static void angles(const rx_t *r, const ld s[3], double az, double el) {
  ld d[3] = {s[0] - r->p[0], s[1] - r->p[1], s[2] - r->p[2]};
  ld sl = sinl(r->lat), cl = cosl(r->lat), so = sinl(r->lon), co = cosl(r->lon);
  ld e = -so * d[0] + co * d[1], n = -sl * co * d[0] - sl * so * d[1] + cl * d[2], u = cl * co * d[0] + cl * so * d[1] + sl * d[2];
  ld we = atan2l(u, sqrtl(e * e + n * n)), wa = atan2l(e, n), dist = sqrtl(e * e + n * n + u * u);
  MC_CHECK(az >= 0 && az <= 6.2831853071795866, "azimuth-range", "azimuth %.17g", az);
  MC_CHECK(el >= -1.5707963267948968 && el <= 1.5707963267948968, "elevation-range", "elevation %.17g", el);
  /* near the zenith the arc sine in the library costs half the digits */
  MC_CHECK(fabsl(el - we) < 2e-8L + (fabsl(we) > 1.55L ? 1e-7L : 0), "elevation", "elevation %.12g, expected %.12Lg", el, we);
  ld ph = sqrtl(e * e + n * n) / dist;
  if (ph < 1e-6L || cl < 1e-6L) return; /* direction of north undefined */
  ld da = fabsl(remainderl(az - wa, 2 * PIL));
  MC_CHECK(da * ph < 2e-8L, "azimuth", "azimuth %.12g, expected %.12Lg", az, wa < 0 ? wa + 2 * PIL : wa);
}
static ld rate(const double p[3], const double v[3], const ld s[3], const ld sv[3]) {
  ld d[3], n = 0, q = 0;
  for (int i = 0; i < 3; i++) d[i] = s[i] - p[i], n += d[i] * d[i], q += d[i] * (sv[i] - v[i]);
  return q / sqrtl(n);
}
typedef struct { ephemeris_t e; ld s[3], v[3]; gps_time_t t; ld hz; } sat_t;
/* a satellite of one system and its state at dt seconds after the reference time */
static void satellite(sat_t *x, int s, int m, int in, int node, double dt, int fcn) {
  ephemeris_t *e = &x->e;
  memset(e, 0, sizeof *e);
  e->sid = construct_sid(SYS[s].code, SYS[s].sat);
  e->valid = 1, e->ura = 2, e->fit_interval = 4 * 3600, e->toe.wn = 2100, e->toe.tow = 345600;
  x->t = e->toe;
  x->t.tow += dt;
  x->hz = SYS[s].mhz * 1000000;
  if (SYS[s].sys == SB) {
    ephemeris_xyz_t *k = &e->data.xyz;
    double lo = -3 + 0.75 * m;
    k->pos[0] = 4.2164e7 * cos(lo), k->pos[1] = 4.2164e7 * sin(lo), k->pos[2] = 1e4 * (in - 1);
    k->vel[0] = 3.1 * in, k->vel[1] = -2.2, k->vel[2] = 0.7 * node, k->acc[0] = 1e-4, k->acc[2] = -2e-4;
    ld tk = dt;
    for (int j = 0; j < 3; j++) x->s[j] = k->pos[j] + k->vel[j] * tk + k->acc[j] * tk * tk / 2, x->v[j] = k->vel[j] + k->acc[j] * tk;
  } else if (SYS[s].sys == GLO) {
    e->fit_interval = 4200;
    ephemeris_glo_t *g = &e->data.glo;
    glo_map_set_slot_id((u16)(fcn + 8), SYS[s].sat);
    x->hz = SYS[s].code == CODE_GLO_L1OF ? 1602000000 + 562500.L * fcn : 1246000000 + 437500.L * fcn;
    g->fcn = (u16)(fcn + 8);
    double r = 2.5508e7, la = -1.1 + 0.275 * m, lo = 1.3 * in + 0.7 * node, az = 0.9 * m;
    double u[3] = {cos(la) * cos(lo), cos(la) * sin(lo), sin(la)}, n[3] = {-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)}, ea[3] = {-sin(lo), cos(lo), 0};
    double v = sqrt(3.986004418e14 / r), vi[3];
    for (int j = 0; j < 3; j++) g->pos[j] = r * u[j], vi[j] = v * (cos(az) * n[j] + sin(az) * ea[j]);
    g->vel[0] = vi[0] + 7.292115e-5 * g->pos[1], g->vel[1] = vi[1] - 7.292115e-5 * g->pos[0], g->vel[2] = vi[2];
    g->acc[1] = 1.8e-6;
    ld y[6], ls[3] = {0, g->acc[1], 0};
    for (int j = 0; j < 3; j++) y[j] = g->pos[j], y[3 + j] = g->vel[j];
    dt = dt / 8; /* stay inside half an hour */
    x->t = e->toe;
    x->t.tow += dt;
    om_glo(y, ls, dt);
    for (int j = 0; j < 3; j++) x->s[j] = y[j], x->v[j] = y[3 + j];
  } else {
    ephemeris_kepler_t *k = &e->data.kepler;
    k->sqrta = SYS[s].orb != MEO ? 6493.4 : s == 8 ? 6493.1 : SYS[s].sys == OM_GAL ? 5440.6 : SYS[s].sys == OM_BDS ? 5282.6 : 5153.7;
    k->iode = k->iodc = 33, k->toc = e->toe;
    e->source = SYS[s].sys == OM_GAL ? EPH_SOURCE_GAL_INAV : SYS[s].sys == OM_GPS ? EPH_SOURCE_GPS_LNAV : EPH_SOURCE_BDS_D1_D2_NAV;
    if (SYS[s].sys == OM_GAL) x->t.tow += 7200;
    if (SYS[s].sys == OM_BDS || SYS[s].sys == OM_GEO) x->t.tow += 7200;
    k->ecc = 0.004 * in, k->inc = 0.3 + 0.45 * in, k->m0 = -3.1 + 0.775 * m, k->omega0 = -2.5 + 1.7 * node, k->w = 0.6, k->omegadot = -8e-9, k->dn = 4.5e-9, k->inc_dot = 1e-10;
    k->cuc = -1.8e-6, k->cus = 7.7e-6, k->crc = 231.5, k->crs = -31.25, k->cic = 9.1e-8, k->cis = -5.4e-8;
    om_kepler mm = {k->m0, k->ecc, k->sqrta, k->dn, k->omega0, k->omegadot, k->w, k->inc, k->inc_dot, k->cuc, k->cus, k->crc, k->crs, k->cic, k->cis, (ld)e->toe.tow - (SYS[s].sys == OM_BDS || SYS[s].sys == OM_GEO ? 14 : 0)};
    ld acc[3], se;
    om_state(SYS[s].sys, &mm, (ld)x->t.tow - e->toe.tow, x->s, x->v, acc, &se);
  }
}
static const double VEL[][3] = {{0, 0, 0}, {100, 0, 0}, {0, -250, 0}, {0, 0, 330}, {-3000, 4000, 5500}, {1e-3, 1e-3, -1e-3}};
static void eph_all(void) {
  mc_quiet();
  static const double DT[] = {-7199, -3600, -1, 0, 0.5, 900, 7199};
  int nm = 9, nn = mc_thorough() ? 5 : 2, nh = mc_thorough() ? 4 : 2;
  for (int s = 0; s < NSYS; s++)
    for (int m = 0; m < nm; m++)
      for (int in = 0; in < 3; in++)
        for (int node = 0; node < nn; node++) {
          if (!mc_mine()) continue;
          for (int d = 0; d < 7; d++) {
            sat_t x;
            int fcn = (m * 5 + in * 3 + node) % 14 - 7;
            satellite(&x, s, m, in, node, SYS[s].sys == SB ? DT[d] / 70 : DT[d], fcn);
            for (int la = 0; la < 9; la++)
              for (int lo = 0; lo < 8; lo++)
                for (int h = 0; h < nh; h++) {
                  rx_t r;
                  place(&r, RLAT[la], RLON[lo], RH[mc_thorough() ? h : 1 + h * 2]);
                  MC_POINT("system %d orbit %d %d %d at %g s, receiver %g %g height %d", s, m, in, node, MC_D(DT[d]), MC_D(RLAT[la]), MC_D(RLON[lo]), h);
                  ephemeris_t keep = x.e;
                  double az = NAN, el = NAN, az2 = NAN, el2 = NAN, keepp[3];
                  memcpy(keepp, r.p, sizeof keepp);
                  s8 a = calc_sat_az_el(&x.e, &x.t, r.p, SYS[s].orb, &az, &el, true), b = calc_sat_az_el(&x.e, &x.t, r.p, SYS[s].orb, &az2, &el2, false);
                  mc_calls(2);
                  MC_CHECK(a == 0 && b == 0, "return", "returned %d and %d", a, b);
                  if (a || b) continue;
                  angles(&r, x.s, az, el);
                  MC_CHECK(az == az2 && el == el2, "check-flag", "the check changed the angles");
                  for (int v = 0; v < 6; v++) {
                    double f = NAN;
                    s8 c = calc_sat_doppler(&x.e, &x.t, r.p, VEL[v], SYS[s].orb, &f);
                    mc_calls(1);
                    ld w = rate(r.p, VEL[v], x.s, x.v) * x.hz / OM_C;
                    MC_CHECK(c == 0 && fabsl(f - w) < 2e-4L, "doppler", "velocity %d: returned %d, %.9g Hz, range rate gives %.9Lg Hz", v, c, f, w);
                  }
                  MC_CHECK(!memcmp(&keep, &x.e, sizeof keep) && !memcmp(keepp, r.p, sizeof keepp), "input", "an argument was modified");
                  mc_outcome((uint64_t)(int64_t)(az * 8) * 100 + (uint64_t)(int64_t)(el * 8 + 50));
                }
          }
        }
}
/* receivers around the point straight below the satellite */
static void zenith(void) {
  mc_quiet();
  static const double OFF[] = {0, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 1};
  for (int s = 0; s < NSYS; s++)
    for (int m = 0; m < 9; m++)
      for (int in = 0; in < 3; in++)
        for (int o = 0; o < 7; o++)
          for (int dir = 0; dir < 8; dir++) {
            if (!mc_mine()) continue;
            sat_t x;
            satellite(&x, s, m, in, 1, SYS[s].sys == SB ? 0 : -1800, 2);
            /* geodetic foot point by fixed point iteration */
            const ld a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f);
            ld p = hypotl(x.s[0], x.s[1]), la = atan2l(x.s[2], p);
            for (int i = 0; i < 50; i++) la = atan2l(x.s[2] + e2 * a / sqrtl(1 - e2 * sinl(la) * sinl(la)) * sinl(la), p);
            double lat = (double)(la * 180 / PIL) + OFF[o] * ((dir & 1) - (dir >> 1 & 1)), lon = (double)(atan2l(x.s[1], x.s[0]) * 180 / PIL) + OFF[o] * ((dir >> 2) * 2 - 1);
            rx_t r, q;
            place(&r, lat, lon, 10);
            place(&q, -lat, lon + 180, 10);
            double az = NAN, el = NAN;
            MC_POINT("system %d orbit %d %d, %g degrees from below the satellite towards %d", s, m, in, MC_D(OFF[o]), dir);
            s8 ret = calc_sat_az_el(&x.e, &x.t, r.p, SYS[s].orb, &az, &el, true);
            MC_CHECK(ret == 0, "return", "returned %d", ret);
            angles(&r, x.s, az, el);
            ret = calc_sat_az_el(&x.e, &x.t, q.p, SYS[s].orb, &az, &el, true);
            MC_CHECK(ret == 0, "return", "returned %d", ret);
            angles(&q, x.s, az, el);
            mc_calls(2);
            mc_outcome((uint64_t)(int64_t)(az * 8));
          }
}
/* GPS almanacs (and SBAS ones) */
static void alm_all(void) {
  mc_quiet();
  static const double DT[] = {-250000, -86400, -3600, 0, 1, 43200, 250000};
  for (int m = 0; m < 16; m++)
    for (int in = 0; in < 3; in++)
      for (int node = 0; node < 3; node++)
        for (int sb = 0; sb < 2; sb++) {
          if (!mc_mine()) continue;
          for (int d = 0; d < 7; d++) {
            almanac_t a;
            memset(&a, 0, sizeof a);
            a.valid = 1, a.fit_interval = 140 * 3600, a.ura = 900, a.toa.wn = 2100, a.toa.tow = 319488;
            gps_time_t t = a.toa;
            double dt = sb ? DT[d] / 1000 : DT[d];
            ld s[3], v[3];
            if (sb) {
              a.sid = construct_sid(CODE_SBAS_L1CA, 120);
              double lo = -3 + 0.4 * m;
              a.data.xyz.pos[0] = 4.2164e7 * cos(lo), a.data.xyz.pos[1] = 4.2164e7 * sin(lo), a.data.xyz.pos[2] = 26000 * (in - 1), a.data.xyz.vel[1] = 3 * node, a.data.xyz.acc[0] = 1e-4;
              for (int j = 0; j < 3; j++) s[j] = a.data.xyz.pos[j] + a.data.xyz.vel[j] * (ld)dt + a.data.xyz.acc[j] * (ld)dt * dt / 2, v[j] = a.data.xyz.vel[j] + a.data.xyz.acc[j] * (ld)dt;
            } else {
              a.sid = construct_sid(CODE_GPS_L1CA, (u16)(1 + m));
              almanac_kepler_t *k = &a.data.kepler;
              k->ecc = 0.007 * in, k->inc = 0.94 + 0.03 * in, k->omegadot = -7.9e-9, k->sqrta = 5153.6, k->omega0 = -2.9 + node, k->w = 0.4, k->m0 = -3 + 0.4 * m, k->af0 = 0;
              om_kepler mm = {.m0 = k->m0, .ecc = k->ecc, .sqrta = k->sqrta, .omega0 = k->omega0, .omegadot = k->omegadot, .w = k->w, .inc = k->inc, .toe = a.toa.tow};
              ld ac[3], se;
              om_state(OM_GPS, &mm, dt, s, v, ac, &se);
            }
            t.tow += dt;
            normalize_gps_time(&t);
            for (int la = 0; la < 9; la++)
              for (int lo = 0; lo < 8; lo++) {
                rx_t r;
                place(&r, RLAT[la], RLON[lo], 150);
                MC_POINT("almanac %d orbit %d %d %d at %g s, receiver %g %g", sb, m, in, node, MC_D(dt), MC_D(RLAT[la]), MC_D(RLON[lo]));
                double az = NAN, el = NAN, f = NAN;
                almanac_t keep = a;
                s8 b = calc_sat_az_el_almanac(&a, &t, r.p, &az, &el), c = calc_sat_doppler_almanac(&a, &t, r.p, &f);
                mc_calls(2);
                MC_CHECK(b == 0 && c == 0, "almanac-return", "returned %d and %d", b, c);
                if (b || c) continue;
                angles(&r, s, az, el);
                const double zero[3] = {0, 0, 0};
                ld w = rate(r.p, zero, s, v) * 1575420000 / OM_C;
                MC_CHECK(fabsl(f - w) < 2e-4L, "almanac-doppler", "%.9g Hz, range rate gives %.9Lg Hz", f, w);
                MC_CHECK(!memcmp(&keep, &a, sizeof a), "input", "the almanac was modified");
                mc_outcome((uint64_t)(int64_t)(f / 100));
              }
          }
        }
}
/* failures are reported */
static void refuse(void) {
  mc_quiet();
  for (int s = 0; s < NSYS; s++)
    for (int m = 0; m < 9; m++)
      for (int bad = 0; bad < 6; bad++) {
        if (!mc_mine()) continue;
        sat_t x;
        satellite(&x, s, m, 1, 0, 10, -3);
        if (bad == 1) x.e.valid = 0;
        if (bad == 2) x.e.toe.wn = 0, x.e.data.kepler.toc.wn = SYS[s].sys < GLO ? 0 : x.e.data.kepler.toc.wn;
        if (bad == 3) x.e.fit_interval = 0;
        if (bad == 4) x.e.health_bits = SYS[s].sys == GLO || SYS[s].sys == SB ? 1 : 0x3f;
        if (bad == 5) x.t.tow += 5 * 3600 + 10;
        if (bad == 5 && SYS[s].sys == SB) continue;
        if (bad == 4 && SYS[s].sys == SB) continue;
        rx_t r;
        place(&r, 37.7, -122.4, 60);
        MC_POINT("system %d orbit %d defect %d", s, m, bad);
        double az = NAN, el = NAN, f = NAN;
        s8 a = calc_sat_az_el(&x.e, &x.t, r.p, SYS[s].orb, &az, &el, true), b = calc_sat_doppler(&x.e, &x.t, r.p, VEL[4], SYS[s].orb, &f);
        mc_calls(2);
        MC_CHECK((a != 0) == (bad != 0) && (b != 0) == (bad != 0), "refusal", "returned %d and %d", a, b);
        if (bad == 1 || bad == 4) {
          s8 c = calc_sat_az_el(&x.e, &x.t, r.p, SYS[s].orb, &az, &el, false);
          MC_CHECK(c == 0, "unchecked", "returned %d", c);
          angles(&r, x.s, az, el);
        }
        mc_outcome((uint64_t)bad);
      }
  for (int m = 0; m < 16; m++)
    for (int bad = 0; bad < 6; bad++) {
      if (!mc_mine()) continue;
      almanac_t a;
      memset(&a, 0, sizeof a);
      a.sid = construct_sid(CODE_GPS_L1CA, (u16)(1 + m)), a.valid = bad != 1, a.fit_interval = bad == 3 ? 0 : 140 * 3600, a.toa.wn = bad == 2 ? 0 : 2100, a.toa.tow = 319488, a.health_bits = bad == 4 ? 0x1f : 0;
      a.data.kepler.sqrta = 5153.6, a.data.kepler.m0 = 0.3 * m, a.data.kepler.inc = 0.95;
      gps_time_t t = {.wn = 2100, .tow = bad == 5 ? 319488 + 252001. : 319488 + 60};
      rx_t r;
      place(&r, 37.7, -122.4, 60);
      MC_POINT("almanac orbit %d defect %d", m, bad);
      double az = NAN, el = NAN, f = NAN;
      s8 b = calc_sat_az_el_almanac(&a, &t, r.p, &az, &el), c = calc_sat_doppler_almanac(&a, &t, r.p, &f);
      mc_calls(2);
      MC_CHECK((b != 0) == (bad != 0) && (c != 0) == (bad != 0), "almanac-refusal", "returned %d and %d", b, c);
    }
}
/* a call alternates with the same call with one element of its arguments changed */
static struct { int s, alm; ephemeris_t e; almanac_t a; gps_time_t t; rx_t r; double v[3]; ld hz; } N;
static void near_call(void) {
  rx_t *r = &N.r;
  const ld a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f);
  ld rho = hypotl(r->p[0], r->p[1]);
  r->lon = atan2l(r->p[1], r->p[0]), r->lat = atan2l(r->p[2], rho);
  for (int i = 0; i < 60; i++) r->lat = atan2l(r->p[2] + e2 * a / sqrtl(1 - e2 * sinl(r->lat) * sinl(r->lat)) * sinl(r->lat), rho);
  ld s[3], v[3], dt = (ld)N.t.tow - (N.alm ? N.a.toa.tow : N.e.toe.tow);
  if (N.alm == 1) {
    const almanac_kepler_t *k = &N.a.data.kepler;
    om_kepler mm = {.m0 = k->m0, .ecc = k->ecc, .sqrta = k->sqrta, .omega0 = k->omega0, .omegadot = k->omegadot, .w = k->w, .inc = k->inc, .toe = N.a.toa.tow};
    ld ac[3], se;
    om_state(OM_GPS, &mm, dt, s, v, ac, &se);
  } else if (N.alm || SYS[N.s].sys == SB) {
    const double *p = N.alm ? N.a.data.xyz.pos : N.e.data.xyz.pos, *w = N.alm ? N.a.data.xyz.vel : N.e.data.xyz.vel, *c = N.alm ? N.a.data.xyz.acc : N.e.data.xyz.acc;
    for (int j = 0; j < 3; j++) s[j] = p[j] + w[j] * dt + c[j] * dt * dt / 2, v[j] = w[j] + c[j] * dt;
  } else if (SYS[N.s].sys == GLO) {
    const ephemeris_glo_t *g = &N.e.data.glo;
    ld y[6], ls[3];
    for (int j = 0; j < 3; j++) y[j] = g->pos[j], y[3 + j] = g->vel[j], ls[j] = g->acc[j];
    om_glo(y, ls, dt);
    for (int j = 0; j < 3; j++) s[j] = y[j], v[j] = y[3 + j];
  } else {
    const ephemeris_kepler_t *k = &N.e.data.kepler;
    om_kepler mm = {k->m0, k->ecc, k->sqrta, k->dn, k->omega0, k->omegadot, k->w, k->inc, k->inc_dot, k->cuc, k->cus, k->crc, k->crs, k->cic, k->cis, (ld)N.e.toe.tow - (SYS[N.s].sys == OM_BDS || SYS[N.s].sys == OM_GEO ? 14 : 0)};
    ld ac[3], se;
    om_state(SYS[N.s].sys, &mm, dt, s, v, ac, &se);
  }
  double az = NAN, el = NAN, az2 = NAN, el2 = NAN, dop = NAN;
  s8 b, c, d = 0;
  if (N.alm) {
    b = calc_sat_az_el_almanac(&N.a, &N.t, r->p, &az, &el);
    c = calc_sat_doppler_almanac(&N.a, &N.t, r->p, &dop);
  } else {
    b = calc_sat_az_el(&N.e, &N.t, r->p, SYS[N.s].orb, &az, &el, true);
    d = calc_sat_az_el(&N.e, &N.t, r->p, SYS[N.s].orb, &az2, &el2, false);
    c = calc_sat_doppler(&N.e, &N.t, r->p, N.v, SYS[N.s].orb, &dop);
    mc_calls(1);
  }
  mc_calls(2);
  MC_CHECK(b == 0 && c == 0 && d == 0, "near-return", "returned %d, %d and %d", b, c, d);
  if (b || c || d) return;
  angles(r, s, az, el);
  if (!N.alm) angles(r, s, az2, el2);
  const double zero[3] = {0, 0, 0};
  ld w = rate(r->p, N.alm ? zero : N.v, s, v) * N.hz / OM_C;
  MC_CHECK(fabsl(dop - w) < 5e-4L, "near-doppler", "%.9g Hz, range rate gives %.9Lg Hz, after a call that differs in one element", dop, w);
}
static void near_args(void) {
  mc_quiet();
  for (int s = 0; s < NSYS + 2; s++)
    for (int m = 0; m < 9; m += 2)
      for (int q = 0; q < 4; q++) {
        if (!mc_mine()) continue;
        memset(&N, 0, sizeof N);
        N.s = s, N.alm = s < NSYS ? 0 : s - NSYS + 1;
        place(&N.r, RLAT[1 + 2 * q], RLON[1 + (q + m) % 7], 900);
        N.v[0] = 120, N.v[1] = -80, N.v[2] = 45;
        double *p[40], sc[40];
        int n = 0;
#define EL(x, c) (p[n] = &(x), sc[n++] = (c))
        for (int j = 0; j < 3; j++) EL(N.r.p[j], 1e6), EL(N.v[j], 1000);
        EL(N.t.tow, -300);
        if (!N.alm) {
          sat_t x;
          satellite(&x, s, m, 1 + q % 2, q / 2, -600, q * 4 - 7);
          N.e = x.e, N.t = x.t, N.hz = x.hz;
          if (SYS[s].sys == SB) N.t.tow = N.e.toe.tow - 40;
        } else {
          almanac_t *a = &N.a;
          a->valid = 1, a->fit_interval = 140 * 3600, a->ura = 900, a->toa.wn = 2100, a->toa.tow = 319488, N.hz = 1575420000;
          N.t = a->toa;
          N.t.tow += 3000;
          if (N.alm == 1) {
            a->sid = construct_sid(CODE_GPS_L1CA, (u16)(1 + m));
            a->data.kepler.ecc = 0.01, a->data.kepler.inc = 0.95, a->data.kepler.omegadot = -7.9e-9, a->data.kepler.sqrta = 5153.6, a->data.kepler.omega0 = -2.9 + q, a->data.kepler.w = 0.4, a->data.kepler.m0 = -3 + 0.7 * m;
          } else {
            a->sid = construct_sid(CODE_SBAS_L1CA, 120);
            N.t.tow = a->toa.tow + 50;
            double lo = -3 + 0.7 * m;
            a->data.xyz.pos[0] = 4.2164e7 * cos(lo), a->data.xyz.pos[1] = 4.2164e7 * sin(lo), a->data.xyz.pos[2] = 26000, a->data.xyz.vel[0] = 2, a->data.xyz.vel[1] = -3, a->data.xyz.vel[2] = 1, a->data.xyz.acc[1] = 1e-4;
          }
        }
        if (N.alm == 1) {
          almanac_kepler_t *k = &N.a.data.kepler;
          EL(k->m0, 1), EL(k->ecc, -0.02), EL(k->sqrta, -50), EL(k->omega0, 1), EL(k->omegadot, 1e-8), EL(k->w, 1), EL(k->inc, -1), EL(N.a.toa.tow, -300);
        } else if (N.alm || SYS[s].sys == SB) {
          double *a = N.alm ? N.a.data.xyz.pos : N.e.data.xyz.pos, *b = N.alm ? N.a.data.xyz.vel : N.e.data.xyz.vel, *c = N.alm ? N.a.data.xyz.acc : N.e.data.xyz.acc;
          for (int j = 0; j < 3; j++) EL(a[j], -1e5), EL(b[j], 10), EL(c[j], 1e-3);
        } else if (SYS[s].sys == GLO) {
          for (int j = 0; j < 3; j++) EL(N.e.data.glo.pos[j], -1e5), EL(N.e.data.glo.vel[j], -100), EL(N.e.data.glo.acc[j], 1e-5);
        } else {
          ephemeris_kepler_t *k = &N.e.data.kepler;
          k->toc.tow += 300; /* stays in the validity interval when the time of ephemeris moves */
          EL(k->m0, 1), EL(k->ecc, -0.02), EL(k->sqrta, -50), EL(k->dn, 1e-8), EL(k->omega0, 1), EL(k->omegadot, 1e-8), EL(k->w, 1), EL(k->inc, -1), EL(k->inc_dot, 1e-9);
          EL(k->cuc, 1e-5), EL(k->cus, 1e-5), EL(k->crc, 300), EL(k->crs, 300), EL(k->cic, 1e-6), EL(k->cis, 1e-6), EL(N.e.toe.tow, -300);
        }
        MC_POINT("system %d orbit %d %d receiver %g %g: one element of the arguments changed", s, m, q, MC_D(RLAT[1 + 2 * q]), MC_D(RLON[1 + (q + m) % 7]));
        near_each(p, sc, n, near_call);
        mc_history();
      }
}
MC_SPACES({"ephemeris", "systems x orbits x instants x receivers x velocities", eph_all, 0}, {"zenith", "receivers below and opposite the satellite", zenith, 0}, {"almanac", "almanac orbits x instants x receivers", alm_all, 0},
          {"refuse", "each reason to refuse", refuse, 0},
          {"near", "13 satellites, 2 almanacs x 5 orbits x 4 receivers, each call alternating with itself with one element of its arguments changed", near_args, 0})
