/* C26: satellite states from ephemerides.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "near.h"
#include "orbit.h"
#include <swiftnav/ephemeris.h>

static const struct { code_t code; u16 sat; int sys; satellite_orbit_type_t orb; } SYS[] = {
    {CODE_GPS_L1CA, 5, OM_GPS, MEO}, {CODE_GAL_E1B, 11, OM_GAL, MEO}, {CODE_BDS2_B1, 12, OM_BDS, MEO}, {CODE_BDS2_B1, 3, OM_GEO, GEO},
    {CODE_QZS_L1CA, 194, OM_GPS, MEO}, {CODE_GPS_L2CM, 9, OM_GPS, MEO}, {CODE_GAL_E7I, 30, OM_GAL, MEO}, {CODE_BDS2_B2, 8, OM_BDS, IGSO}, {CODE_BDS3_B3I, 60, OM_BDS, IGSO}};
#define NSYS 9
/* worst differences seen, for the evidence (DESIGN.md quotes them) */
static void compare(const ephemeris_t *e, int sysi, const gps_time_t *t, ld dtoe, ld dtoc) {
  const ephemeris_kepler_t *k = &e->data.kepler;
  int sys = SYS[sysi].sys;
  double pos[3], vel[3], acc[3], ce, cr;
  memset(pos, 0x7f, sizeof pos), memset(vel, 0x7f, sizeof vel), memset(acc, 0x7f, sizeof acc);
  ephemeris_t keep = *e;
  s8 ret = calc_sat_state_n(e, t, SYS[sysi].orb, pos, vel, acc, &ce, &cr);
  mc_calls(1);
  MC_CHECK(ret == 0, "return", "returned %d", ret);
  MC_CHECK(!memcmp(&keep, e, sizeof keep), "input", "the ephemeris was modified");
  if (ret) return;
  float tgd = 0;
  (void)get_tgd_correction(e, &e->sid, &tgd);
  ld clk = (ld)k->af0 + (ld)k->af1 * dtoc + (ld)k->af2 * dtoc * dtoc - (ld)tgd;
  om_kepler m = {k->m0, k->ecc, k->sqrta, k->dn, k->omega0, k->omegadot, k->w, k->inc, k->inc_dot, k->cuc, k->cus, k->crc, k->crs, k->cic, k->cis,
                 (ld)e->toe.tow - (sys == OM_BDS || sys == OM_GEO ? 14 : 0)};
  /* the ICD's t_oe counts from the start of the BDT week, 14 s after GPS's */
  if (m.toe < 0) m.toe += 604800;
  ld p[3], v[3], a[3], se;
  om_state(sys, &m, dtoe - clk, p, v, a, &se);
  ld dp = 0, dv = 0, da = 0;
  for (int j = 0; j < 3; j++) {
    dp = fmaxl(dp, fabsl(pos[j] - p[j]));
    dv = fmaxl(dv, fabsl(vel[j] - v[j]));
    da = fmaxl(da, fabsl(acc[j] - a[j]));
    if (!(pos[j] == pos[j]) || !(vel[j] == vel[j]) || !(acc[j] == acc[j])) dp = INFINITY;
  }
  MC_CHECK(dp < 1e-3L, "position", "position off by %.3Lg m", dp);
  MC_CHECK(dv < 1e-5L, "velocity", "velocity off by %.3Lg m/s", dv);
  MC_CHECK(da < 1e-7L, "acceleration", "acceleration off by %.3Lg m/s^2", da);
  ld rel1 = -2 * (p[0] * v[0] + p[1] * v[1] + p[2] * v[2]) / (OM_C * OM_C);
  ld rel2 = -2 * sqrtl(sys == OM_GPS ? 3.986005e14L : 3.986004418e14L) / (OM_C * OM_C) * k->ecc * k->sqrta * se;
  MC_CHECK(fabsl(ce - (clk + rel1)) < 2e-13L || fabsl(ce - (clk + rel2)) < 2e-13L, "clock", "clock error %.15g, expected %.15Lg", ce, clk + rel1);
  ld crw = (ld)k->af1 + 2 * (ld)k->af2 * dtoc;
  MC_CHECK(fabsl(cr - crw) <= 1e-14L * fabsl(crw) + 1e-20L, "clock-rate", "clock rate %.15g, expected %.15Lg", cr, crw);
  mc_outcome(mc_hash(pos, 2));
}
static void setup(ephemeris_t *e, int s) {
  memset(e, 0, sizeof *e);
  e->sid = construct_sid(SYS[s].code, SYS[s].sat);
  e->valid = 1;
  e->ura = 2;
  e->fit_interval = 4 * 3600;
  e->source = SYS[s].sys >= OM_BDS ? EPH_SOURCE_BDS_D1_D2_NAV : SYS[s].sys == OM_GAL ? EPH_SOURCE_GAL_INAV : EPH_SOURCE_GPS_LNAV;
  ephemeris_kepler_t *k = &e->data.kepler;
  k->sqrta = SYS[s].orb != MEO ? 6493.4 : s == 4 ? 6493.1 : SYS[s].sys == OM_GAL ? 5440.6 : SYS[s].sys == OM_BDS ? 5282.6 : 5153.7;
  k->tgd.gps_s[0] = -1.1e-8f;
  k->tgd.gps_s[1] = 5.6e-9f;
  k->iode = k->iodc = 33;
}
static void times(ephemeris_t *e, gps_time_t *t, s16 wn, double toe, double dtoc, double dt) {
  memset(t, 0, sizeof *t);
  e->toe.wn = wn;
  e->toe.tow = toe;
  e->data.kepler.toc = e->toe;
  e->data.kepler.toc.tow += dtoc;
  normalize_gps_time(&e->data.kepler.toc);
  *t = e->toe;
  t->tow += dt;
  normalize_gps_time(t);
}
static const double DT[] = {-7200, -7199.999, -3600.5, -1800, -301, -0.001, 0, 0.001, 1, 77.25, 900, 1801, 3600, 7199.5, 7200, 14400};
#define NDT 16
/* orbit shape: full product */
static void shape(void) {
  static const double EC[] = {0, 1e-8, 0.0007, 0.013, 0.08, 0.3}, INC[] = {0.001, 0.3, 0.9599, 1.5707963, 1.92}, W[] = {-3.1, -0.9, 0, 1.7, 3.14159};
  static const double TOE[] = {0, 6, 14, 302400, 604784};
  int nm = mc_thorough() ? 36 : 9;
  for (int s = 0; s < NSYS; s++)
    for (int ec = 0; ec < 6; ec++)
      for (int m = 0; m < nm; m++)
        for (int in = 0; in < 5; in++)
          for (int w = 0; w < 5; w++)
            for (int to = 0; to < 5; to++) {
              if (!mc_mine()) continue;
              for (int d = 0; d < NDT; d++) {
                ephemeris_t e;
                gps_time_t t;
                setup(&e, s);
                ephemeris_kepler_t *k = &e.data.kepler;
                k->ecc = EC[ec], k->inc = INC[in], k->w = W[w], k->m0 = -3.14159 + m * 6.28318 / (nm - 1);
                k->omega0 = 0.7 * (m - 4), k->omegadot = -8.2e-9, k->dn = 4.6e-9, k->inc_dot = 3.1e-10;
                k->cuc = -1.8e-6, k->cus = 7.7e-6, k->crc = 231.5, k->crs = -31.25, k->cic = 9.1e-8, k->cis = -5.4e-8;
                k->af0 = -4.4e-4, k->af1 = 2.2e-12, k->af2 = 0;
                times(&e, &t, (s16)(to == 3 ? 1 : 2100 + m), TOE[to], 0, DT[d]);
                MC_POINT("system %d eccentricity %g m0 %g inclination %g w %g toe %g, %g s after it", s, MC_D(EC[ec]), MC_D(k->m0), MC_D(INC[in]), MC_D(W[w]), MC_D(TOE[to]), MC_D(DT[d]));
                compare(&e, s, &t, DT[d], DT[d]);
              }
            }
}
/* every parameter alone and every pair of parameters at extreme values */
#define NP 17
static void set(ephemeris_kepler_t *k, int i, int v) {
  static const struct { double a, b, c; } X[NP] = {
      {-3.14159, 0.5, 3.1}, {1e-6, 0.02, 0.45}, {5000, 5700, 8191}, {3.7e-9, -3.7e-9, 1.1e-8}, {-3.1415, 1.1, 3.1415}, {-9.5e-7, 9.5e-7, -8e-9}, {-3.14, 0.01, 3.14},
      {-0.9, 1.0, 3.0}, {2.9e-9, -2.9e-9, 1e-10}, {6.1e-5, -6.1e-5, 1e-9}, {6.1e-5, -6.1e-5, 1e-9}, {1023.97, -1023.97, 0.03}, {1023.97, -1023.97, 0.03},
      {6.1e-5, -6.1e-5, 1e-9}, {6.1e-5, -6.1e-5, 1e-9}, {9.7e-4, -9.7e-4, 0}, {3.7e-9, -3.7e-9, 0}};
  double x = v == 0 ? X[i].a : v == 1 ? X[i].b : X[i].c;
  double *f[NP] = {&k->m0, &k->ecc, &k->sqrta, &k->dn, &k->omega0, &k->omegadot, &k->w, &k->inc, &k->inc_dot, &k->cuc, &k->cus, &k->crc, &k->crs, &k->cic, &k->cis, &k->af0, &k->af1};
  *f[i] = x;
}
static void pairs(void) {
  static const double QT[] = {-7200, -1234.5, 0, 333.25, 7200, 14400};
  for (int s = 0; s < NSYS; s++)
    for (int full = 0; full < 2; full++)
      for (int i = 0; i < NP; i++)
        for (int j = i; j < NP; j++)
          for (int vi = 0; vi < 3; vi++)
            for (int vj = 0; vj < 3; vj++) {
              if ((i == j && vi != vj) || !mc_mine()) continue;
              for (int d = 0; d < 6; d++)
                for (int dc = 0; dc < 3; dc++) {
                  ephemeris_t e;
                  gps_time_t t;
                  setup(&e, s);
                  ephemeris_kepler_t *k = &e.data.kepler;
                  if (full) {
                    k->ecc = 0.011, k->inc = 0.97, k->w = 0.8, k->m0 = -1.2, k->omega0 = 2.2, k->omegadot = -8.2e-9, k->dn = 4.6e-9, k->inc_dot = 3.1e-10;
                    k->cuc = -1.8e-6, k->cus = 7.7e-6, k->crc = 231.5, k->crs = -31.25, k->cic = 9.1e-8, k->cis = -5.4e-8, k->af0 = 1e-4, k->af1 = -3e-12, k->af2 = 1.1e-16;
                  } else k->ecc = 1e-6, k->inc = 0.9;
                  set(k, i, vi);
                  set(k, j, vj);
                  double dtoc = dc == 0 ? 0 : dc == 1 ? -7184 : 16;
                  times(&e, &t, 2222, 1600., dtoc, QT[d]);
                  MC_POINT("system %d, %d: parameter %d value %d, parameter %d value %d, toc %g s after toe, %g s after toe", s, full, i, vi, j, vj, MC_D(dtoc), MC_D(QT[d]));
                  compare(&e, s, &t, QT[d], QT[d] - dtoc);
                }
            }
}
/* GLONASS: integration from the reference state */
static void glo_check(const ephemeris_t *e, const gps_time_t *t, ld q, int l2) {
  const ephemeris_glo_t *g = &e->data.glo;
  ld y[6], clk = -(ld)g->tau + (ld)g->gamma * q - (l2 ? (ld)(float)g->d_tau : 0), lsa[3] = {g->acc[0], g->acc[1], g->acc[2]}, d[6];
  for (int j = 0; j < 3; j++) y[j] = g->pos[j], y[3 + j] = g->vel[j];
  om_glo(y, lsa, q - clk);
  om_glo_rhs(y, lsa, d);
  double pos[3], vel[3], acc[3], ce, cr;
  s8 ret = calc_sat_state_n(e, t, MEO, pos, vel, acc, &ce, &cr);
  mc_calls(1);
  MC_CHECK(ret == 0, "return", "returned %d", ret);
  ld dp = 0, dv = 0, da = 0;
  for (int j = 0; j < 3; j++) {
    dp = fmaxl(dp, fabsl(pos[j] - y[j])), dv = fmaxl(dv, fabsl(vel[j] - y[3 + j])), da = fmaxl(da, fabsl(acc[j] - d[3 + j]));
    if (pos[j] != pos[j] || vel[j] != vel[j] || acc[j] != acc[j]) dp = INFINITY;
  }
  MC_CHECK(dp < 0.005L, "glo-position", "position off by %.3Lg m", dp);
  MC_CHECK(dv < 1e-5L, "glo-velocity", "velocity off by %.3Lg m/s", dv);
  MC_CHECK(da < 1e-8L, "glo-acceleration", "acceleration off by %.3Lg m/s^2", da);
  MC_CHECK(fabsl(ce - clk) < 1e-15L, "glo-clock", "clock error %.15g, expected %.15Lg", ce, clk);
  MC_CHECK(cr == g->gamma, "glo-clock-rate", "clock rate %.15g", cr);
}
static void glo(void) {
  static const double R[] = {2.4e7, 2.5508e7, 2.65e7}, LS[] = {0, 2.8e-6, -5.6e-6}, SP[] = {0.97, 1.0, 1.04};
  static const double Q[] = {-2100, -2099.5, -1800, -931, -900, -899, -301, -30.5, -30, -29.5, -1, -1e-3, 0, 1e-3, 1, 29.5, 30, 30.5, 60, 61, 450, 899.5, 900, 901, 1200, 1799, 2100};
  int nl = mc_thorough() ? 12 : 5;
  for (int r = 0; r < 3; r++)
    for (int sp = 0; sp < 3; sp++)
      for (int lat = 0; lat < nl; lat++)
        for (int lon = 0; lon < nl; lon++)
          for (int az = 0; az < nl; az++)
            for (int ls = 0; ls < 3; ls++)
              for (int cl = 0; cl < 3; cl++) {
                if (!mc_mine()) continue;
                double la = -1.13 + 2.26 * lat / (nl - 1), lo = -3 + 6. * lon / (nl - 1), az_ = 6.28318 * az / nl;
                ephemeris_t e;
                memset(&e, 0, sizeof e);
                e.sid = construct_sid(cl == 1 ? CODE_GLO_L2OF : CODE_GLO_L1OF, 4);
                e.valid = 1, e.fit_interval = 4200, e.toe.wn = 2100, e.toe.tow = lon == 1 ? 900 - 18 : lon == 2 ? 604800 - 900 + 18 : 345618;
                ephemeris_glo_t *g = &e.data.glo;
                double u[3] = {cos(la) * cos(lo), cos(la) * sin(lo), sin(la)}, n[3] = {-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)}, ea[3] = {-sin(lo), cos(lo), 0};
                double v = SP[sp] * sqrt(3.986004418e14 / R[r]), vi[3];
                for (int j = 0; j < 3; j++) g->pos[j] = R[r] * u[j], vi[j] = v * (cos(az_) * n[j] + sin(az_) * ea[j]);
                g->vel[0] = vi[0] + 7.292115e-5 * g->pos[1], g->vel[1] = vi[1] - 7.292115e-5 * g->pos[0], g->vel[2] = vi[2];
                g->acc[0] = LS[ls], g->acc[1] = LS[(ls + 1) % 3], g->acc[2] = LS[(ls + 2) % 3];
                g->tau = cl == 0 ? 0 : cl == 1 ? -1.9e-3 : 4.4e-5, g->gamma = cl == 0 ? 0 : cl == 1 ? 9.3e-10 : -1.8e-12, g->d_tau = 1.3e-8;
                for (unsigned q = 0; q < sizeof Q / sizeof *Q; q++) {
                  gps_time_t t = e.toe;
                  t.tow += Q[q];
                  normalize_gps_time(&t);
                  MC_POINT("GLONASS radius %g speed %g latitude %g longitude %g azimuth %g, %d %d, %g s after toe", MC_D(R[r]), MC_D(SP[sp]), MC_D(la), MC_D(lo), MC_D(az_), ls, cl, MC_D(Q[q]));
                  glo_check(&e, &t, Q[q], cl == 1);
                }
              }
}
/* SBAS: quadratic motion */
static void sbas_check(const ephemeris_t *e, const gps_time_t *t, ld q) {
  const ephemeris_xyz_t *x = &e->data.xyz;
  double pos[3], vel[3], acc[3], ce, cr;
  s8 ret = calc_sat_state_n(e, t, GEO, pos, vel, acc, &ce, &cr);
  mc_calls(1);
  ld clk = (ld)x->a_gf0 + (ld)x->a_gf1 * q, dt = q - clk;
  MC_CHECK(ret == 0 && fabsl(ce - clk) < 1e-16L + 1e-15L * fabsl(clk) && cr == x->a_gf1, "sbas-clock", "returned %d, clock %.15g rate %.15g", ret, ce, cr);
  for (int j = 0; j < 3; j++) {
    ld p = x->pos[j] + (ld)x->vel[j] * dt + (ld)x->acc[j] * dt * dt / 2, vv = x->vel[j] + (ld)x->acc[j] * dt;
    MC_CHECK(fabsl(pos[j] - p) < 1e-6L + 1e-14L * fabsl(p) && fabsl(vel[j] - vv) < 1e-9L && acc[j] == x->acc[j], "sbas-state", "axis %d: %.12g %.12g %.12g, expected %.12Lg %.12Lg", j, pos[j], vel[j], acc[j], p, vv);
  }
}
static void sbas(void) {
  static const double V[] = {0, 40.96 / 2, -0.000625, 3.2}, A[] = {0, 0.0064, -0.0000125}, CL[] = {0, 9.5e-7, -1.1e-4}, CRt[] = {0, 1.1e-10, -1.16e-9};
  static const double Q[] = {-600, -240, -1, -0.25, 0, 0.25, 16, 240, 604800. / 2 - 1, 700000};
  for (int v = 0; v < 4; v++)
    for (int a = 0; a < 3; a++)
      for (int c = 0; c < 3; c++)
        for (int r = 0; r < 3; r++)
          for (int q = 0; q < 10; q++)
            for (int pl = 0; pl < 8; pl++) {
              if (!mc_mine()) continue;
              ephemeris_t e;
              memset(&e, 0, sizeof e);
              e.sid = construct_sid(pl & 1 ? CODE_SBAS_L1CA : CODE_SBAS_L5I, 131);
              e.valid = 1, e.fit_interval = 240, e.toe.wn = 2100, e.toe.tow = pl * 86400.;
              ephemeris_xyz_t *x = &e.data.xyz;
              for (int j = 0; j < 3; j++) x->pos[j] = (j == 2 ? 1e4 : 2.98e7) * (pl >> j & 1 ? -1 : 1) + 11.5 * j, x->vel[j] = V[(v + j) % 4], x->acc[j] = A[(a + j) % 3];
              x->a_gf0 = CL[c], x->a_gf1 = CRt[r];
              gps_time_t t = e.toe;
              t.tow += Q[q];
              normalize_gps_time(&t);
              MC_POINT("SBAS velocity %d acceleration %d clock %d rate %d place %d, %g s after the reference time", v, a, c, r, pl, MC_D(Q[q]));
              sbas_check(&e, &t, Q[q]);
            }
}
/* the checked entry points agree with the unchecked one exactly when the ephemeris is usable */
static void gate(void) {
  mc_quiet();
  for (int s = 0; s < NSYS; s++)
    for (int c = 0; c < 6; c++)
      for (int d = 0; d < NDT; d++)
        for (int o = 0; o < 3; o++) {
          if (!mc_mine()) continue;
          ephemeris_t e;
          gps_time_t t;
          setup(&e, s);
          e.data.kepler.ecc = 0.01, e.data.kepler.inc = 0.9;
          times(&e, &t, 2100, 7200, 0, DT[d]);
          if (c == 1) e.valid = 0;
          if (c == 2) e.fit_interval = 0;
          if (c == 3) e.health_bits = 0x3F;
          if (c == 4) e.data.kepler.iode = 34;
          if (c == 5) e.fit_interval = 120;
          MC_POINT("system %d, case %d, orbit type %d, %g s after toe", s, c, o, MC_D(DT[d]));
          double a[3][3], b[3][3], g[3][3], x[2], y[2], z[2];
          s8 r1 = calc_sat_state_orbit_type(&e, &t, (satellite_orbit_type_t)o, a[0], a[1], a[2], &x[0], &x[1]);
          s8 r2 = calc_sat_state_n(&e, &t, (satellite_orbit_type_t)o, b[0], b[1], b[2], &y[0], &y[1]);
          s8 r3 = calc_sat_state(&e, &t, g[0], g[1], g[2], &z[0], &z[1]);
          int ok = ephemeris_valid(&e, &t);
          mc_calls(4);
          MC_CHECK(r2 == 0, "gate-n", "returned %d", r2);
          MC_CHECK(ok ? r1 == 0 && r3 == 0 : r1 == -1 && r3 == -1, "gate", "ephemeris %s, returned %d and %d", ok ? "usable" : "not usable", r1, r3);
          if (ok) MC_CHECK(!memcmp(a, b, sizeof a) && !memcmp(x, y, sizeof x), "gate-same", "checked and unchecked results differ");
          if (ok && o == 2) MC_CHECK(!memcmp(g, b, sizeof a) && !memcmp(z, y, sizeof x), "gate-meo", "calc_sat_state differs");
        }
}
/* a call between two that differ from it in one element */
static ephemeris_t ne;
static gps_time_t nt;
static int nsys;
static ld from(const gps_time_t *r) { return (ld)(nt.wn - r->wn) * 604800 + ((ld)nt.tow - (ld)r->tow); }
static void near_call(void) {
  MC_POINT("system %d, %g s of the week, after a call that differs in one element", nsys, MC_D(nt.tow));
  if (nsys < NSYS) compare(&ne, nsys, &nt, from(&ne.toe), from(&ne.data.kepler.toc));
  else if (nsys < NSYS + 2) glo_check(&ne, &nt, from(&ne.toe), nsys == NSYS + 1);
  else sbas_check(&ne, &nt, from(&ne.toe));
}
static void near_args(void) {
  for (int s = 0; s < NSYS + 3; s++)
    for (int m = 0; m < 24; m++) {
      if (!mc_mine()) continue;
      static const double Q[] = {-3600.5, -77, 33.25, 1800, 7000.125};
      nsys = s;
      if (s < NSYS) {
        setup(&ne, s);
        ephemeris_kepler_t *k = &ne.data.kepler;
        k->ecc = 0.011 + 0.01 * (m % 5), k->inc = 0.97 - 0.03 * (m % 7), k->w = 0.8 + m * 0.1, k->m0 = -1.2 + m * 0.1, k->omega0 = 2.2, k->omegadot = -8.2e-9, k->dn = 4.6e-9, k->inc_dot = 3.1e-10;
        k->cuc = -1.8e-6, k->cus = 7.7e-6, k->crc = 231.5, k->crs = -31.25, k->cic = 9.1e-8, k->cis = -5.4e-8, k->af0 = 1e-4, k->af1 = -3e-12, k->af2 = 1.1e-16;
        times(&ne, &nt, 2222, 100000., 16, Q[m % 5]);
        double *const p[] = {&k->m0, &k->ecc, &k->sqrta, &k->dn, &k->omega0, &k->omegadot, &k->w, &k->inc, &k->inc_dot, &k->cuc, &k->cus, &k->crc, &k->crs, &k->cic, &k->cis, &k->af0, &k->af1, &k->af2, &ne.toe.tow, &k->toc.tow, &nt.tow};
        static const double sc[] = {3, -0.03, -300, 1e-8, 3, 9e-7, 3, -0.9, 3e-9, 6e-5, 6e-5, 1000, 1000, 6e-5, 6e-5, 1e-3, 4e-9, 1e-15, -2000, -2000, -2000};
        near_each(p, sc, 21, near_call);
        /* the same numbers for another system, and for another satellite of the same */
        for (int o = 0; o < NSYS; o++) {
          nsys = o;
          ne.sid = construct_sid(SYS[o].code, SYS[o].sat);
          near_call();
          nsys = s;
          ne.sid = construct_sid(SYS[s].code, SYS[s].sat);
          near_call();
        }
        for (int g = 0; g < 2; g++) {
          float was = k->tgd.gps_s[g];
          k->tgd.gps_s[g] = 3e-8f;
          near_call();
          k->tgd.gps_s[g] = was;
          near_call();
        }
        s16 wn = 2222;
        for (int d = -1; d <= 1; d++) { /* week numbers together */
          ne.toe.wn = k->toc.wn = nt.wn = (s16)(wn + d * 100);
          near_call();
        }
      } else {
        memset(&ne, 0, sizeof ne);
        ne.valid = 1, ne.fit_interval = 4200, ne.toe.wn = 2100, ne.toe.tow = 345618;
        nt = ne.toe;
        if (s < NSYS + 2) {
          ne.sid = construct_sid(s == NSYS ? CODE_GLO_L1OF : CODE_GLO_L2OF, (u16)(1 + m));
          nt.tow += Q[m % 5] / 8;
          ephemeris_glo_t *g = &ne.data.glo;
          static const double P[3] = {1.2e7, -1.3e7, 1.86e7}, V[3] = {1500, 2400, 700};
          for (int j = 0; j < 3; j++) g->pos[j] = P[(j + m) % 3], g->vel[j] = V[(j + m) % 3], g->acc[j] = (j - 1) * 2.8e-6;
          g->tau = 4.4e-5, g->gamma = -1.8e-12, g->d_tau = 1.3e-8;
          double *const p[] = {&g->pos[0], &g->pos[1], &g->pos[2], &g->vel[0], &g->vel[1], &g->vel[2], &g->acc[0], &g->acc[1], &g->acc[2], &g->tau, &g->gamma, &g->d_tau, &ne.toe.tow, &nt.tow};
          static const double sc[] = {1e6, 1e6, 1e6, 1e3, 1e3, 1e3, 3e-6, 3e-6, 3e-6, 1e-3, 9e-10, 2e-8, -600, -600};
          near_each(p, sc, 14, near_call);
          for (int o = 0; o < 2; o++) {
            nsys = NSYS + o;
            ne.sid = construct_sid(o ? CODE_GLO_L2OF : CODE_GLO_L1OF, (u16)(1 + m));
            near_call();
            ne.sid.sat = (u16)(24 - m);
            near_call();
          }
        } else {
          ne.sid = construct_sid(CODE_SBAS_L1CA, 131);
          nt.tow += Q[m % 5] / 8;
          ephemeris_xyz_t *x = &ne.data.xyz;
          for (int j = 0; j < 3; j++) x->pos[j] = 2.4e7 - 1.1e7 * ((j + m) % 3), x->vel[j] = 3.2 - j - m % 4, x->acc[j] = 0.0064 - 0.003 * j;
          x->a_gf0 = 9.5e-7, x->a_gf1 = 1.1e-10;
          double *const p[] = {&x->pos[0], &x->pos[1], &x->pos[2], &x->vel[0], &x->vel[1], &x->vel[2], &x->acc[0], &x->acc[1], &x->acc[2], &x->a_gf0, &x->a_gf1, &ne.toe.tow, &nt.tow};
          static const double sc[] = {1e6, 1e6, 1e6, 30, 30, 30, 0.006, 0.006, 0.006, 1e-4, 1e-9, -600, -600};
          near_each(p, sc, 13, near_call);
        }
      }
      mc_history();
    }
}
MC_SPACES({"orbit-shape", "9 satellites x 6 eccentricities x 9 (36) anomalies x 5 inclinations x 5 perigees x 4 reference times x 16 instants", shape, 0},
          {"parameters", "9 satellites x 2 backgrounds x every pair of 17 parameters at 3 extreme values x 6 instants x 3 clock times", pairs, 0},
          {"glonass", "3 radii x 3 speeds x 5^3 (12^3) directions x 3 lunisolar terms x 3 clocks x 27 instants", glo, 0},
          {"sbas", "4 x 3 x 3 x 3 motions and clocks x 8 places x 10 instants", sbas, 0},
          {"gate", "9 satellites x 6 usability cases x 16 instants x 3 orbit types", gate, 0},
          {"near", "12 satellites x 24 orbits, each alternating with itself with one element changed by 12 amounts or in sign, and with the other systems", near_args, 0})
