/* Calls over the whole interface, as operations with three sets of arguments each: what each gives
 * is recorded in the context OC points to (several may be active in C44). */
#ifndef OPS_H
#define OPS_H
#include "glo_str.h"
#include "pvt.h"
#include <swiftnav/fifo_byte.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/almanac.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/set.h>
#include <swiftnav/shm.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/troposphere.h>

/* results of the running operation */
#define OUTMAX 2048
typedef struct {
  struct { uint64_t w[OUTMAX]; int n; } r;
  struct { const void *p; size_t n; u8 was[16384]; } k[4];
  int nk, changed, tweak, tweaks;
  int dirt; /* what output buffers hold before the call */
  bool norv;
  utc_params_t utc;
} opctx_t;
static opctx_t OC0 = {.tweak = -1}, *OC = &OC0;
#define R (OC->r)
#define K (OC->k)
#define nk (OC->nk)
#define inputs_changed (OC->changed)
#define tweak (OC->tweak)
#define tweaks (OC->tweaks)
#define dirt (OC->dirt)
#define pvt_norv (OC->norv)
static void pu(uint64_t v) { if (R.n < OUTMAX) R.w[R.n++] = v; }
static void pd(double d) {
  uint64_t u;
  if (d != d) u = 0x7ff8000000000000ull; else if (d == 0) u = 0; else memcpy(&u, &d, 8);
  pu(u);
}
static void pdn(const double *d, int n) { for (int i = 0; i < n; i++) pd(d[i]); }
static void pb(const void *p, size_t n) { for (size_t i = 0; i < n; i++) pu(((const u8 *)p)[i]); }
static void pt(const gps_time_t *t) { pu((uint64_t)t->wn); pd(t->tow); }
static void ptm(const utc_tm *u) { pu(u->year); pu(u->month); pu(u->month_day); pu(u->week_day); pu(u->hour); pu(u->minute); pu(u->second_int); pd(u->second_frac); pu(u->year_day); }
/* arguments must come back as they went in */
static void keep(const void *p, size_t n) { if (nk < 4 && n <= sizeof K[0].was) { K[nk].p = p; K[nk].n = n; memcpy(K[nk].was, p, n); nk++; } }
static void kept(void) { for (int i = 0; i < nk; i++) if (memcmp(K[i].p, K[i].was, K[i].n)) inputs_changed = 1; nk = 0; }
/* the tweak-th argument element an operation asks for comes slightly changed */
static bool hit(void) { return tweaks++ == tweak; }
static double xd(double x) { return hit() ? (x == 0 ? 1e-9 : x * (1 + 1e-4)) : x; }
static s64 xi(s64 x) { return hit() ? x + 1 : x; }
static void xdn(double *p, int n) { for (int i = 0; i < n; i++) p[i] = xd(p[i]); }
#define DIRTY(x) memset(&(x), dirt, sizeof(x))
static uint64_t rnd(uint64_t *s) { *s = *s * 6364136223846793005ull + 1442695040888963407ull; return *s >> 24; }

static gps_time_t T(int v) { static const gps_time_t t[3] = {{259200.25, 2000}, {604799.75, 2100}, {3.5, 1356}}; gps_time_t r = t[v]; if (hit()) r.tow -= 1.5; r.wn = (s16)xi(r.wn); return r; }
static const utc_params_t *U(int v) {
  OC->utc = (utc_params_t){.a0 = xd(1e-8), .a1 = xd(1e-14), .tot = {xd(100000), 2000}, .t_lse = {18, (s16)xi(1930)}, .dt_ls = (s8)xi(17), .dt_lsf = (s8)xi(18)};
  return v == 1 ? &OC->utc : NULL;
}
static void xyz(int v, double p[3]) { static const double x[3][3] = {{2e6, -4.5e6, 4.1e6}, {-3e6, 5.1e6, -2.2e6}, {6.3e6, 1e5, -4e5}}; memcpy(p, x[v], 24); xdn(p, 3); }
static void eph_make(ephemeris_t *e, int sys, int v) {
  static const code_t c[5] = {CODE_GPS_L1CA, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GLO_L1OF, CODE_SBAS_L1CA};
  memset(e, 0, sizeof *e);
  static const u16 sat[5] = {7, 9, 11, 3, 131};
  e->sid = construct_sid(c[sys], (u16)(sys == 2 && v == 2 ? 3 : sat[sys] + v));
  if (sys == 4) e->sid.sat = v ? 133 : 131;
  if (hit()) e->sid.sat++;
  e->toe = T(v);
  e->ura = (float)xd(2);
  e->fit_interval = (u32)xi(14400);
  e->valid = 1;
  if (sys < 3) {
    ephemeris_kepler_t *k = &e->data.kepler;
    k->crc = xd(200 + v); k->crs = xd(-30); k->cuc = xd(1e-6); k->cus = xd(5e-6); k->cic = xd(1e-7); k->cis = xd(-1e-7); k->dn = xd(4e-9); k->m0 = xd(1.1 * (v - 1)); k->ecc = xd(0.004 + 0.01 * v);
    k->sqrta = xd(sys == 2 && v == 2 ? 6493.4 : 5153.6); k->omega0 = xd(0.7 + v); k->omegadot = xd(-8e-9); k->w = xd(0.3); k->inc = xd(0.95); k->inc_dot = xd(1e-10); k->af0 = xd(1e-4); k->af1 = xd(1e-12); k->af2 = xd(1e-20);
    k->toc = e->toe; k->iode = k->iodc = (u16)(17 + v);
    k->tgd.gps_s[0] = (float)xd(1e-8); k->tgd.gps_s[1] = (float)xd(2e-8);
    if (hit()) k->toc.tow -= 16;
    if (hit()) k->iode++, k->iodc++;
    if (hit()) e->health_bits = 1;
  } else if (sys == 3) {
    static const double p[3] = {1.2e7, -1.3e7, 1.9e7}, s[3] = {1500, 2400, 700};
    memcpy(e->data.glo.pos, p, 24);
    memcpy(e->data.glo.vel, s, 24);
    xdn(e->data.glo.pos, 3);
    xdn(e->data.glo.vel, 3);
    e->data.glo.acc[0] = xd(1e-6); e->data.glo.gamma = xd(1e-12); e->data.glo.tau = xd(1e-5); e->data.glo.fcn = 9; e->fit_interval = 2400; e->data.glo.iod = 4;
  } else {
    e->data.xyz.pos[0] = xd(4.2e7); e->data.xyz.vel[1] = xd(0.3); e->data.xyz.a_gf0 = xd(1e-7); e->fit_interval = 240;
  }
}
static void alm_make(almanac_t *a, int v) {
  memset(a, 0, sizeof *a);
  a->sid = construct_sid(CODE_GPS_L1CA, (u16)(4 + v));
  a->toa = T(v); a->ura = 100; a->fit_interval = 6 * 86400; a->valid = 1;
  almanac_kepler_t *k = &a->data.kepler;
  k->m0 = xd(0.5 * v); k->ecc = xd(0.01); k->sqrta = xd(5153.6); k->omega0 = xd(1); k->omegadot = xd(-8e-9); k->w = xd(0.4); k->inc = xd(0.96); k->af0 = xd(1e-5); k->af1 = xd(1e-11);
}
static void words(u32 *w, int n, int v) { uint64_t s = 77 + (uint64_t)v * 13; for (int i = 0; i < n; i++) { w[i] = (u32)rnd(&s) & 0x3fffffff; if (hit()) w[i] ^= 0x10400; } }
static void p_eph(const ephemeris_t *e) {
  pu(e->sid.sat); pu((uint64_t)e->sid.code); pt(&e->toe); pd(e->ura); pu(e->fit_interval); pu(e->health_bits);
  const ephemeris_kepler_t *k = &e->data.kepler;
  double d[] = {k->crc, k->crs, k->cuc, k->cus, k->cic, k->cis, k->dn, k->m0, k->ecc, k->sqrta, k->omega0, k->omegadot, k->w, k->inc, k->inc_dot, k->af0, k->af1, k->af2};
  pdn(d, 18); pt(&k->toc); pu(k->iode); pu(k->iodc); pd(k->tgd.gps_s[0]); 
}
static void meas(navigation_measurement_t *m, int n, int v) {
  rx_t r;
  rx_make(&r, v, 1, 2);
  for (int i = 0; i < n; i++) meas_make(&m[i], &r, RX[v].lat, RX[v].lon, slot_sid(v * 2, i), POOL[i][0], POOL[i][1], 26.5e6, i);
  for (int i = 0; i < n; i++) {
    m[i].raw_pseudorange = xd(m[i].raw_pseudorange);
    if (hit()) m[i].raw_measured_doppler += 3;
    if (hit()) m[i].sat_pos[i % 3] += 5;
    if (hit()) m[i].sat_vel[i % 3] += 2;
    m[i].sat_clock_err += xd(0);
    if (hit()) m[i].cn0 -= 7;
    if (hit()) m[i].elevation -= 20;
    if (hit()) m[i].lock_time = 0;
    if (hit()) m[i].flags &= (nav_meas_flags_t)~NAV_MEAS_FLAG_PHASE_VALID;
  }
}
/* ---- the operations ---- */
#define OP(name) static void name(int v)
OP(o_norm) { gps_time_t t = T(v); t.tow += 604800.0 * (v - 1); normalize_gps_time(&t); pt(&t); gps_time_t q = T(v); q.tow = -1e-9; pu(normalize_gps_time_safe(&q)); pt(&q); q = T(v); q.tow = 7e5; unsafe_normalize_gps_time(&q); pt(&q); }
OP(o_diff) { gps_time_t a = T(v), b = T((v + 1) % 3); gps_time_duration_t d; DIRTY(d); keep(&a, sizeof a); keep(&b, sizeof b); pd(gpsdifftime(&a, &b)); pu(gpsdifftime_week_second(&a, &b, &d)); pd(d.seconds); pu((uint64_t)d.weeks); normalize_gps_time_duration(&d); pd(d.seconds); pu(gpstime_in_range(&a, &b, &a)); kept(); }
OP(o_add) { gps_time_t a = T(v); add_secs(&a, xd(1e6 * (v - 1) + 0.5)); pt(&a); }
OP(o_match) { gps_time_t a = {T(v).tow, WN_UNKNOWN}, b = T((v + 1) % 3); gps_time_match_weeks(&a, &b); pt(&a); a.wn = WN_UNKNOWN; pu(gps_time_match_weeks_safe(&a, &b)); pt(&a); }
OP(o_week) { pu(gps_adjust_week_cycle((u16)xi(13 + 300 * v), (u16)xi(2000 + v * 100))); pu(gps_adjust_week_cycle256((u16)xi(13 + 80 * v), (u16)xi(2000 + v * 100))); }
OP(o_valid) { gps_time_t a = T(v); time_t u = xi(1500000000 + v); pu(gps_time_valid(&a)); pu(gps_current_time_valid(&a)); pu(gps_current_time_valid_with_wn_ref(&a, 2000)); pu(unix_time_valid(&u)); pu(unix_time_valid_with_wn_ref(&u, 2000)); }
OP(o_unix) { gps_time_t a = T(v); pu((uint64_t)gps2time(&a)); gps_time_t b = time2gps_t(xi(1500000000 + v * 86400 * 300)); pt(&b); }
OP(o_utc) { gps_time_t a = T(v), b; utc_tm u; DIRTY(u); DIRTY(b); keep(&a, sizeof a); gps2utc(&a, &u, U(v)); ptm(&u); utc2gps(&u, &b, U(v)); pt(&b); kept(); }
OP(o_mkutc) { gps_time_t a = T(v); utc_tm u; DIRTY(u); make_utc_tm(&a, &u); ptm(&u); pd(utc2gmst(u, 0.1 * v)); pu(gps2doy(&a)); }
OP(o_offset) { gps_time_t a = T(v); pd(get_gps_utc_offset(&a, U(v))); pd(get_utc_gps_offset(&a, U(v))); pu(is_leap_second_event(&a, U(v))); }
OP(o_glot) { gps_time_t a = T(v); glo_time_t g; DIRTY(g); g = gps2glo(&a, U(v)); pu(g.nt); pu(g.n4); pu(g.h); pu(g.m); pd(g.s); gps_time_t b = glo2gps(&g, U(v)); pt(&b); }
OP(o_mjd) { double m = 57000.75 + 500.5 * v; if (hit()) m += 0.001; if (hit()) m += 400; utc_tm u = mjd2utc(m); ptm(&u); pd(utc2mjd(&u)); gps_time_t g = mjd2gps(m); pt(&g); g = mjd2gps_params(m, U(v)); pt(&g); pd(gps2mjd(&g)); pd(gps2mjd_params(&g, U(v))); }
OP(o_date) { s32 y, mo, d, h, mi; double s; DIRTY(y); DIRTY(s); mjd2date(58000.3 + v + (hit() ? 1e-3 : 0), &y, &mo, &d, &h, &mi, &s); pu((uint64_t)y); pu((uint64_t)mo); pu((uint64_t)d); pu((uint64_t)h); pu((uint64_t)mi); pd(s); pd(date2mjd(2016 + v, (s32)xi(2), (s32)xi(28), (s32)xi(3), (s32)xi(4), xd(5.5))); utc_tm u = date2utc((s32)xi(2016 + v), 12, 31, 23, 59, xd(58.25)); ptm(&u); utc2date(&u, &y, &mo, &d, &h, &mi, &s); pu((uint64_t)d); pd(s); }
OP(o_gdate) { gps_time_t g = date2gps((s32)xi(2015 + v), 6, 30, 23, 59, xd(30.5)); pt(&g); g = date2gps_params(2015 + v, 6, 30, 23, 59, 30.5, U(v)); pt(&g); s32 y, mo, d, h, mi; double s; gps2date(&g, &y, &mo, &d, &h, &mi, &s); pu((uint64_t)mi); pd(s); gps2date_params(&g, &y, &mo, &d, &h, &mi, &s, U(v)); pu((uint64_t)h); pd(s); }
OP(o_epoch) { gps_time_t a = T(v); gps_time_t r = round_to_epoch(&a, 1 + v), f = floor_to_epoch(&a, 2 + v); pt(&r); pt(&f); }
OP(o_utcp) { u32 w[8]; words(w, 8, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22); keep(w, sizeof w); utc_params_t u; DIRTY(u); bool ok = decode_utc_parameters_with_wn_ref(w, &u, 2000); pu(ok); if (ok) { pd(u.a0); pd(u.a1); pt(&u.tot); pt(&u.t_lse); pu((uint64_t)u.dt_ls); pu((uint64_t)u.dt_lsf); } kept(); }
OP(o_coord) { double p[3], l[3], q[3], n[3], m[3][3]; xyz(v, p); keep(p, sizeof p); DIRTY(l); DIRTY(q); DIRTY(n); DIRTY(m); wgsecef2llh(p, l); pdn(l, 3); wgsllh2ecef(l, q); pdn(q, 3); q[0] += xd(1000); q[1] += xd(10); q[2] -= xd(10); wgsecef2ned_d(q, p, n); pdn(n, 3); wgsned2ecef_d(n, p, q); pdn(q, 3); wgsecef2ned(q, p, n); pdn(n, 3); wgsned2ecef(n, p, q); pdn(q, 3); ecef2ned_matrix(p, m); pdn(m[0], 9); wgs_ecef2ned_matrix(l, m); pdn(m[0], 9); kept(); }
OP(o_azel) { double p[3], q[3] = {xd(2.6e7), xd(3e6), xd(1e6)}, a, e; xyz(v, p); DIRTY(a); DIRTY(e); wgsecef2azel(q, p, &a, &e); pd(a); pd(e); double d[3], r[3]; llhrad2deg(p, d); llhdeg2rad(d, r); pdn(r, 3); }
OP(o_geoid) { pd(get_geoid_offset(xd(0.5 * (v - 1)), xd(1.1 * v))); pu(get_geoid_model()); }
OP(o_tropo) { pd(calc_troposphere(xd(10 + 100 * v), xd(0.4 * (v - 1)), xd(100 + 900 * v), xd(0.2 + 0.4 * v))); }
OP(o_iono) { gps_time_t t = T(v); ionosphere_t i; memset(&i, 0, sizeof i); i.a0 = xd(1e-8); i.a1 = xd(2e-8); i.a2 = xd(-6e-8); i.a3 = xd(-6e-8); i.b0 = xd(9e4); i.b1 = xd(1e5); i.b2 = xd(-6e4); i.b3 = xd(-6e4); keep(&i, sizeof i); pd(calc_ionosphere(&t, xd(0.3 * (v - 1)), xd(1.3), xd(0.4 * v), xd(0.7), &i)); kept(); }
OP(o_ionop) { u32 w[10]; words(w, 10, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22); ionosphere_t i; DIRTY(i); bool ok = decode_iono_parameters(w, &i); pu(ok); if (ok) { pd(i.a0); pd(i.a3); pd(i.b0); pd(i.b3); } decode_bds_d1_iono(w, &i); pd(i.a0); pd(i.a1); pd(i.a2); pd(i.a3); pd(i.b0); pd(i.b3); }
static void eph_op(int sys, int v) {
  ephemeris_t e, e2; eph_make(&e, sys, v); e2 = e; keep(&e, sizeof e);
  gps_time_t t = e.toe; add_secs(&t, xd(60 + v));
  double p[3], s[3], a[3], c, d, az, el, ref[3], dop, rv[3] = {xd(1), xd(2), xd(3)}; xyz(v, ref); DIRTY(p); DIRTY(s); DIRTY(a); DIRTY(c); DIRTY(d); DIRTY(az); DIRTY(el); DIRTY(dop);
  s8 r = calc_sat_state(&e, &t, p, s, a, &c, &d); pu((uint64_t)r); if (r == 0) { pdn(p, 3); pdn(s, 3); pdn(a, 3); pd(c); pd(d); }
  satellite_orbit_type_t o = sys == 4 || (sys == 2 && v == 2) ? GEO : MEO;
  r = calc_sat_state_orbit_type(&e, &t, o, p, s, a, &c, &d); pu((uint64_t)r); if (r == 0) pdn(p, 3);
  r = calc_sat_state_n(&e, &t, o, p, s, a, &c, &d); pu((uint64_t)r); if (r == 0) pdn(p, 3);
  r = calc_sat_az_el(&e, &t, ref, o, &az, &el, true); pu((uint64_t)r); if (r == 0) { pd(az); pd(el); }
  r = calc_sat_doppler(&e, &t, ref, rv, o, &dop); pu((uint64_t)r); if (r == 0) pd(dop);
  pu(get_ephemeris_status_t(&e)); pu(ephemeris_valid_detailed(&e, &t)); pu(ephemeris_valid(&e, &t)); pu(ephemeris_params_valid(&e.toe, &t, &e.toe, &t)); pu(ephemeris_equal(&e, &e2)); pu(ephemeris_healthy(&e, e.sid.code));
  float g; DIRTY(g); gnss_signal_t sid = e.sid; if (sys != 4) { r = get_tgd_correction(&e, &sid, &g); pu((uint64_t)r); if (r == 0) pd(g); } /* SBAS has none: asserted */
  if (sys == 2) pu(get_bds2_iod_crc(&e));
  kept();
}
OP(o_gps) { eph_op(0, v); }
OP(o_gal) { eph_op(1, v); }
OP(o_bds) { eph_op(2, v); }
OP(o_glo) { eph_op(3, v); }
OP(o_sbas) { eph_op(4, v); }
OP(o_dgps) { u32 w[3][8]; for (int i = 0; i < 3; i++) words(w[i], 8, v + i); keep(w, sizeof w); ephemeris_t e; memset(&e, 0, sizeof e); e.sid = construct_sid(CODE_GPS_L1CA, 5); decode_ephemeris_with_wn_ref((const u32(*)[8])w, &e, 100000 + v, 2000); p_eph(&e); kept(); }
OP(o_dbds) { u32 w[3][10]; for (int i = 0; i < 3; i++) words(w[i], 10, v + i); keep(w, sizeof w); ephemeris_t e; memset(&e, 0, sizeof e); decode_bds_d1_ephemeris((const u32(*)[10])w, construct_sid(CODE_BDS2_B1, 9), &e); p_eph(&e); kept(); }
OP(o_dgal) { u8 pg[5][GAL_INAV_CONTENT_BYTE]; uint64_t s = 5 + (uint64_t)v; for (int i = 0; i < 5; i++) for (int k = 0; k < GAL_INAV_CONTENT_BYTE; k++) { pg[i][k] = (u8)rnd(&s); if (hit()) pg[i][k] ^= 1; } setbitu(pg[4], 73, 12, 900); setbitu(pg[4], 85, 20, 100000); setbitu(pg[0], 16, 14, 100000 / 60); setbitu(pg[3], 54, 14, 100000 / 60); for (u32 i = 0; i < 5; i++) { setbitu(pg[i], 0, 6, i + 1); if (i < 4) setbitu(pg[i], 6, 10, 55u + (u32)v); } keep(pg, sizeof pg); ephemeris_t e; memset(&e, 0, sizeof e); bool ok = decode_gal_ephemeris_safe((const u8(*)[GAL_INAV_CONTENT_BYTE])pg, &e); pu(ok); if (ok) p_eph(&e); kept(); }
OP(o_dglo) {
  glo_string_t s[5]; memset(s, 0, sizeof s);
  for (int i = 0; i < 5; i++) { gs_put(&s[i], 81, 4, (uint64_t)i + 1); gs_put(&s[i], 20, 5, (uint64_t)(3 + v)); if (i < 3) gs_put(&s[i], 9, 20, 1000u * (unsigned)(v + 1)); }
  gs_put(&s[0], 72, 5, (uint64_t)xi(3)); gs_put(&s[1], 70, 7, (uint64_t)xi(20 + v)); gs_put(&s[3], 11, 5, 3); gs_put(&s[3], 16, 11, (uint64_t)xi(500 + v)); gs_put(&s[4], 32, 5, (uint64_t)xi(6)); for (int i = 0; i < 3; i++) { if (hit()) gs_put(&s[i], 9, 20, 77); if (hit()) gs_put(&s[i], 41, 20, 99); if (hit()) gs_put(&s[i], 36, 5, 1); }
  for (int i = 0; i < 5; i++) gs_seal(&s[i]);
  keep(s, sizeof s);
  ephemeris_t e; glo_time_t tk, toe; u8 age; float tg; memset(&e, 0, sizeof e); memset(&tk, 0, sizeof tk); memset(&toe, 0, sizeof toe); age = 0; tg = 0;
  e.sid = construct_sid(CODE_GLO_L1OF, 3);
  pu(decode_glo_string_1(&s[0], &e, &tk)); pu(decode_glo_string_2(&s[1], &e, &toe)); pu(decode_glo_string_3(&s[2], &e, &toe)); pu(decode_glo_string_4(&s[3], &e, &tk, &toe, &age)); pu(decode_glo_string_5(&s[4], &e, &tk, &toe, &tg));
  pdn(e.data.glo.pos, 3); pdn(e.data.glo.vel, 3); pd(e.data.glo.gamma); pd(e.data.glo.tau); pu(tk.h); pu(tk.nt); pu(toe.n4); pu(toe.h); pu(toe.m); pu(age); pd(tg); pu(e.health_bits); pu(e.data.glo.iod);
  gs_flip(&s[0], 30 + v); nk = 0; pu((uint64_t)error_detection_glo(&s[0])); pu(extract_word_glo(&s[1], 70, 7));
}
OP(o_alm) { almanac_t a, b; alm_make(&a, v); b = a; keep(&a, sizeof a); gps_time_t t = a.toa; add_secs(&t, xd(500)); double p[3], s[3], c[3], ce, cr, az, el, d, ref[3]; xyz(v, ref); DIRTY(p); DIRTY(s); DIRTY(c); DIRTY(ce); s8 r = calc_sat_state_almanac(&a, &t, p, s, c, &ce, &cr); pu((uint64_t)r); if (!r) { pdn(p, 3); pdn(s, 3); pd(ce); pd(cr); } r = calc_sat_az_el_almanac(&a, &t, ref, &az, &el); pu((uint64_t)r); if (!r) { pd(az); pd(el); } r = calc_sat_doppler_almanac(&a, &t, ref, &d); pu((uint64_t)r); if (!r) pd(d); pu(almanac_valid(&a, &t)); pu(almanac_healthy(&a)); pu(almanac_equal(&a, &b)); kept(); }
OP(o_dalm) { u32 w[8]; words(w, 8, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | ((unsigned)(v == 1 ? 51 : 3 + v) << 22); keep(w, sizeof w); almanac_t a; memset(&a, 0, sizeof a); bool ok = almanac_decode(w, &a); pu(ok); if (ok) { pd(a.data.kepler.ecc); pd(a.data.kepler.sqrta); pd(a.data.kepler.m0); pu(a.health_bits); pu(a.sid.sat); } almanac_ref_week_t rw; memset(&rw, 0, sizeof rw); pu(almanac_decode_week_with_wn_ref(w, &rw, 2000)); pu((uint64_t)rw.wna); pu((uint64_t)rw.toa); almanac_health_t h; memset(&h, 0, sizeof h); ok = almanac_decode_health(w, &h); pu(ok); pu(h.health_bits_valid); kept(); }
OP(o_ura) { pu(encode_ura((float)xd(2.5 * v))); pd(decode_ura_index((u8)(3 + v))); pd(decode_sisa_index((u8)(60 + v * 30))); pd(decode_bds_ura_index((u8)(5 + v))); pu(decode_fit_interval(1, (u16)(240 + v * 8))); }
OP(o_shm) { for (int c = 0; c < CODE_GPS_L5X; c++) if (c == CODE_GPS_L1CA || c == CODE_GPS_L2CM || c == CODE_GPS_L1P || c == CODE_GPS_L2P) { pu(check_8bit_health_word((u8)xi(v * 60 + 3), (code_t)c)); pu(check_6bit_health_word((u8)(v * 20 + 3), (code_t)c)); pu(check_alma_page25_health_word((u8)(v * 20 + 3), (code_t)c)); } pu(check_nav_dhi((u8)xi(v * 70), (u8)xi(v))); u8 s; DIRTY(s); shm_gps_decode_shi_ephemeris(0x12345678u >> v, &s); pu(s); }
OP(o_meas) { navigation_measurement_t m[3]; memset(m, 0, sizeof m); meas(m, 3, v); keep(m, sizeof m); for (int i = 0; i < 3; i++) { pd(nav_meas_cor_sat_clk_on_pseudorange(&m[i])); pd(nav_meas_cor_sat_clk_on_measured_doppler(&m[i])); pd(nav_meas_cor_sat_clk_on_carrier_phase(&m[i])); pu(pseudorange_valid(&m[i])); pu(nav_meas_flags_valid(m[i].flags)); pu(nav_meas_cmp(&m[0], &m[i]) < 0); pu(nav_meas_equal(&m[0], &m[i])); pu(not_l2p_sid(m[i])); } measurement_std_t a, b; memset(&a, 0, sizeof a); b = a; b.flags = (u8)v; pu(measurement_std_equal(&a, &b)); pu(encode_lock_time(xd(0.1 * (1 + v * v * 9)))); pd(decode_lock_time((u8)(3 + v))); kept(); }
static bool some_pred(gnss_signal_t sid, gnss_sid_set_t used, u8 n) { (void)used; (void)n; return sid.sat != 3; }
/* norv: velocity off; in variant 1 the residual check, too */
static void pvt_op(int v, int strat, bool fault) {
  navigation_measurement_t m[12]; memset(m, 0, sizeof m);
  int n = 8 + v; meas(m, n, v);
  if (fault) m[2].raw_pseudorange += 3000;
  keep(m, sizeof m);
  gnss_solution s; dops_t d; gnss_sid_set_t rm; sid_set_init(&rm); DIRTY(s); DIRTY(d); s.valid = 0;
  gps_time_t tor = {100000.07, 2100}; obs_mask_config_t om = NOMASK; if (v == 2) { om.cn0_mask.enable = true; om.cn0_mask.threshold_dbhz = 40; }
  s8 r = strat == 9 ? calc_PVT_pred((u8)n, m, &tor, pvt_norv && v == 1, pvt_norv, &om, some_pred, &s, &d, &rm) : calc_PVT((u8)n, m, &tor, pvt_norv && v == 1, pvt_norv, &om, (enum processing_strategy_t)strat, &s, &d, &rm);
  pu((uint64_t)r); pu(s.valid);
  if (r >= 0) { pdn(s.pos_ecef, 3); pdn(s.pos_llh, 3); pdn(s.vel_ecef, 3); pdn(s.vel_ned, 3); pdn(s.err_cov, 7); if (!pvt_norv) pdn(s.vel_cov, 7); pd(s.clock_offset); pd(s.clock_offset_var); pd(s.clock_drift); pd(s.clock_drift_var); pt(&s.time); pu(s.velocity_valid); pu(s.n_sats_used); pu(s.n_sigs_used); pd(d.pdop); pd(d.gdop); pd(d.tdop); pd(d.hdop); pd(d.vdop); if (r == 1) { pu(sid_set_get_sat_count(&rm)); pu(sid_set_contains(&rm, m[2].sid)); } }
  kept();
}
OP(o_pvt) { pvt_op(v, ALL_CONSTELLATIONS, false); }
OP(o_pvtf) { pvt_op(v, ALL_CONSTELLATIONS, true); }
OP(o_pvtg) { pvt_op(v, v == 2 ? GPS_L1CA_WHEN_POSSIBLE : v == 1 ? L1_ONLY : GPS_ONLY, false); }
OP(o_pvtv) { pvt_norv = true; pvt_op(v, v == 2 ? GPS_ONLY : ALL_CONSTELLATIONS, v == 0); pvt_norv = false; }
OP(o_pvtp) { pvt_op(v, 9, v == 1); }
OP(o_sing) { navigation_measurement_t m[6]; memset(m, 0, sizeof m); for (int i = 0; i < 6; i++) { rx_t r; rx_make(&r, v, 1, 1); meas_make(&m[i], &r, RX[v].lat, RX[v].lon, construct_sid(CODE_GPS_L1CA, (u16)(i + 1)), POOL[0][0], POOL[0][1], 26.5e6, i); } gnss_solution s; dops_t d; DIRTY(s); DIRTY(d); gps_time_t tor = {100000.07, 2100}; pu((uint64_t)calc_PVT(6, m, &tor, v == 1, true, &NOMASK, ALL_CONSTELLATIONS, &s, &d, NULL)); pu(s.valid); }
OP(o_mat) {
  enum { N = 5 };
  double a[N * N], b[N * N], c[N * N], w[N], x[N], y[N]; uint64_t s = 3 + (uint64_t)v;
  for (int i = 0; i < N * N; i++) a[i] = xd((double)(rnd(&s) % 2001) / 100 - 10);
  for (int i = 0; i < N; i++) { w[i] = xd(1 + (double)(rnd(&s) % 10)); y[i] = xd((double)(rnd(&s) % 100)); }
  if (v == 2) for (int i = 0; i < N; i++) a[N + i] = 2 * a[i];
  keep(a, sizeof a); keep(w, sizeof w); keep(y, sizeof y);
  DIRTY(b); DIRTY(c); DIRTY(x);
  int r = matrix_inverse(N, a, b); pu((uint64_t)r); if (r == 0) pdn(b, N * N);
  matrix_multiply(N, N, N, a, a, c); pdn(c, N * N); matrix_transpose(N, N, a, b); pdn(b, N * N); matrix_add_sc(N, N, a, c, 0.5, b); pdn(b, N * N); matrix_copy(N, N, a, b); pdn(b, N * N); matrix_eye(N, b); pdn(b, N * N);
  r = matrix_pseudoinverse(N, 3, a, b); pu((uint64_t)r); if (r == 0) pdn(b, 15);
  r = matrix_wlsq_solve(N, 3, a, y, w, x, NULL); pu((uint64_t)r); if (r == 0) pdn(x, 3);
  DIRTY(c); r = qrsolve(a, N, N, y, x); pu((uint64_t)r); if (r == 0) pdn(x, N);
  pd(vector_dot(N, a, y)); pd(vector_norm(N, a)); pd(vector_mean(N, a)); pd(vector_distance(N, a, y)); vector_add(N, a, y, x); pdn(x, N); vector_subtract(N, a, y, x); pdn(x, N); vector_cross(a, y, x); pdn(x, 3); vector_add_sc(N, a, y, 2, x); pdn(x, N); vector_normalize(N, x); pdn(x, N);
  kept();
  matrix_transpose(N, N, a, b); matrix_multiply(N, N, N, a, b, c); for (int i = 0; i < N; i++) c[i * N + i] += 10; double u[N * N], d[N]; DIRTY(u); DIRTY(d); matrix_udu(N, c, u, d); pdn(d, N); for (int i = 0; i < N; i++) for (int j = i; j < N; j++) pd(u[i * N + j]);
}
OP(o_bits) { u8 b[24]; uint64_t s = 1 + (uint64_t)v; for (int i = 0; i < 24; i++) b[i] = (u8)(rnd(&s) + (hit() ? 8 : 0)); keep(b, sizeof b); pu(getbitu(b, (u32)(3 + 7 * v), 21)); pu(getbitul(b, (u32)(3 + 7 * v), 51)); pu((uint64_t)getbits(b, 9, 13)); pu((uint64_t)getbitsl(b, 9, 43)); pu(parity(0x1234567u << v)); pu(count_bits_u64(0x123456789abcull >> v, 1)); pu(count_bits_u32(0x12345678u >> v, 0)); pu(crc24q(b, 24, 0)); pu(crc24q_bits(1, b, 77, v == 1)); kept(); setbitu(b, 11, 17, 0x1ffff); setbitsl(b, 60, 40, -5 - v); bitcopy(b, 3, b + 12, 5, 31); bitshl(b, 24, 3); pb(b, 24); }
OP(o_stream) { u8 b[16]; uint64_t s = 9 + (uint64_t)v; for (int i = 0; i < 16; i++) b[i] = (u8)(rnd(&s) + (hit() ? 8 : 0)); swiftnav_in_bitstream_t st; swiftnav_in_bitstream_init(&st, b, (u32)(90 + v * 7)); u32 o = 0; for (u32 i = 0; i < 6; i++) { pu(swiftnav_in_bitstream_getbitu(&st, &o, i * 19, 17)); pu(o); } swiftnav_bytestream_t by; swiftnav_bytestream_init(&by, b, 16); u16 h = 0; for (u32 i = 0; i < 9; i++) { pu(swiftnav_bytestream_decode_u16(&by, &h)); pu(h); } }
OP(o_sets) { s32 a[5] = {1, (s32)xi(4), 7, 9 + v, (s32)xi(20)}, b[4] = {4, 9, 10, 20}, x[5], y[5]; keep(a, sizeof a); keep(b, sizeof b); DIRTY(x); DIRTY(y); s32 n = intersection(5, 4, a, x, 4, 4, b, y, cmp_s32_s32); pu((uint64_t)n); for (int i = 0; i < n; i++) pu((uint64_t)x[i]); pu(is_set(5, 4, a, cmp_s32_s32)); s32 z[6], q = 7; DIRTY(z); n = (s32)remove_element(5, 4, a, z, &q, cmp_s32_s32); for (int i = 0; i < n; i++) pu((uint64_t)z[i]); q = 8; n = (s32)insert_element(5, 4, a, z, &q, cmp_s32_s32); for (int i = 0; i < n; i++) pu((uint64_t)z[i]); kept(); gnss_sid_set_t s; DIRTY(s); sid_set_init(&s); for (int i = 0; i < 4; i++) sid_set_add(&s, construct_sid(i & 1 ? CODE_GPS_L2CM : CODE_GPS_L1CA, (u16)(1 + i / 2 + v + (hit() ? 3 : 0)))); pu(sid_set_get_sat_count(&s)); pu(sid_set_get_sig_count(&s)); pu(sid_set_contains(&s, construct_sid(CODE_GPS_L1CA, 2))); sid_set_remove(&s, construct_sid(CODE_GPS_L1CA, 2)); pu(sid_set_get_sig_count(&s)); }
OP(o_sig) { static const code_t c[3] = {CODE_GLO_L1OF, CODE_BDS3_B3I, CODE_QZS_L5Q}; static const u16 st[3] = {3, 20, 194}; gnss_signal_t s = construct_sid(c[v], (u16)xi(st[v])); char n[SID_STR_LEN_MAX]; DIRTY(n); int k = sid_to_string(n, sizeof n, s); pb(n, (size_t)k + 1); pu(sid_valid(s)); pu((uint64_t)sid_to_constellation(s)); pd(sid_to_carr_freq(s)); pd(sid_to_lambda(s)); pu(code_to_chip_count(s.code)); pd(code_to_chip_rate(s.code)); pu(code_to_prn_period_ms(s.code)); pu(sid_to_code_index(s)); pd(code_to_phase_alignment(s.code)); const char *nm = code_to_string(s.code); pb(nm, strlen(nm)); pu(sid_hash(s)); pu((uint64_t)code_string_to_enum(nm)); gnss_signal_t q = construct_sid(CODE_SBAS_L1CA, (u16)(126 + v)); pu((uint64_t)get_sbas_system(q)); }
OP(o_bias) { glo_biases_t b, z; memset(&b, 0, sizeof b); b.mask = (u8)(5 + v * 3); b.l1of_bias_m = xd(1); b.l1p_bias_m = xd(2); b.l2of_bias_m = xd(4); b.l2p_bias_m = xd(8 + v); z = b; pd(get_glonass_bias(CODE_GLO_L1OF, b)); pd(get_glonass_bias(CODE_GLO_L2OF, b)); pu(glonass_biases_are_equal(b, z)); }
OP(o_map) { u16 a = 0, b = 0; pu(glo_map_valid(construct_sid(CODE_GLO_L1OF, (u16)(1 + v)))); if (glo_map_valid(construct_sid(CODE_GLO_L1OF, (u16)(1 + v)))) pu(glo_map_get_fcn(construct_sid(CODE_GLO_L1OF, (u16)(1 + v)))); pu(glo_map_get_slot_id((u16)(5 + v), &a, &b)); }
OP(o_mem) { u8 d[16], s[16]; for (int i = 0; i < 16; i++) { d[i] = (u8)(i * v); s[i] = (u8)(i + 3); } MEMCPY_S(d, sizeof d, s, (size_t)(6 + v * 4)); pb(d, 16); }
static void ps(const char *s) { pb(s, strlen(s) + 1); }
OP(o_codes) { /* a name must outlive the call for the next one */
  const code_t c[3] = {CODE_GPS_L2CM, CODE_GAL_E7I, CODE_QZS_L5I}; code_t x = (code_t)xi(c[v]), y = (code_t)xi(c[(v + 1) % 3]); const char *n1 = code_to_string(x), *n2 = code_to_string(y);
  constellation_t g = code_to_constellation(x), h = code_to_constellation(y); const char *g1 = constellation_to_string(g), *g2 = constellation_to_string(h), *s1 = sub_constellation_to_string((sub_constellation_t)(v + 1)), *s2 = sub_constellation_to_string((sub_constellation_t)v);
  ps(n1); ps(n2); ps(g1); ps(g2); ps(s1); ps(s2); pu((uint64_t)constellation_string_to_enum(g1)); pu((uint64_t)sub_constellation_string_to_enum(s1)); pu((uint64_t)sub_constellation_to_constellation((sub_constellation_t)(v + 1)));
  pu(code_requires_decoder(x)); pu(code_requires_direct_acq(x)); pu(code_to_sig_count(x)); pd(code_to_sv_doppler_max(x)); pd(code_to_sv_doppler_min(x)); pu(constellation_to_sat_count(g)); pu(constellation_valid(g)); gnss_signal_t s = sid_from_code_index(x, (u16)(3 + v)); pu(s.sat); pu((uint64_t)s.code);
  char b[32]; DIRTY(b); ps((sat_code_to_string(b, 2, "-x", s.sat, x), b)); pu(is_gps(x)); pu(is_gal(x)); pu(is_glo(x)); pu(is_qzss(x)); pu(is_sbas(x)); pu(is_bds2(x)); pb(get_sbas_prn_list((sbas_system_t)v), 3); pu(get_max_channels());
}
static void cb_sum(void *ctx, u32 n, const void *a, const void *b) { u32 *s = ctx; *s += n * 100u + (u32)(*(const s32 *)a + *(const s32 *)b); }
OP(o_sets2) { s32 a[5] = {1, (s32)xi(4), 7, 9 + v, (s32)xi(20)}, b[4] = {4, 9, 10, 20}, k = (s32)xi(8); u32 sum = 0; keep(a, sizeof a); keep(b, sizeof b); pu((uint64_t)intersection_map(5, 4, a, 4, 4, b, cmp_s32_s32, &sum, cb_sum)); pu(sum); pu(insertion_index(5, 4, a, &k, cmp_s32_s32)); gnss_signal_t g[3] = {construct_sid(CODE_GPS_L1CA, 3), construct_sid(CODE_GPS_L1CA, (u16)xi(5 - v)), construct_sid(CODE_GAL_E1B, (u16)xi(2))}; pu(is_sid_set(3, g)); kept(); }
OP(o_dec2) { u32 f[3][8], w[8]; for (int i = 0; i < 3; i++) words(f[i], 8, v + i); ephemeris_t e; memset(&e, 0, sizeof e); e.sid = construct_sid(CODE_GPS_L1CA, 5); decode_ephemeris((const u32(*)[8])f, &e, 200000 + v); p_eph(&e); words(w, 8, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22); utc_params_t u; DIRTY(u); bool ok = decode_utc_parameters(w, &u); pu(ok); if (ok) { pd(u.a0); pt(&u.tot); pt(&u.t_lse); } w[0] = (w[0] & 0x003fffff) | (1u << 28) | (51u << 22); almanac_ref_week_t rw; memset(&rw, 0, sizeof rw); pu(almanac_decode_week(w, &rw)); pu((uint64_t)rw.wna); pu((uint64_t)rw.toa); }
OP(o_dglo2) {
  glo_string_t s[5]; memset(s, 0, sizeof s);
  for (int i = 0; i < 5; i++) { gs_put(&s[i], 81, 4, (uint64_t)i + 1); if (i < 3) { gs_put(&s[i], 9, 20, 1000u * (unsigned)(v + 1)); gs_put(&s[i], 41, 20, (uint64_t)xi(77)); } }
  gs_put(&s[0], 72, 5, (uint64_t)xi(3)); gs_put(&s[1], 70, 7, (uint64_t)xi(20 + v)); gs_put(&s[3], 11, 5, 3); gs_put(&s[3], 16, 11, (uint64_t)xi(500 + v)); gs_put(&s[4], 32, 5, (uint64_t)xi(6)); gs_put(&s[2], 69, 11, (uint64_t)xi(5)); gs_put(&s[3], 59, 22, (uint64_t)xi(99));
  for (int i = 0; i < 5; i++) gs_seal(&s[i]);
  keep(s, sizeof s);
  ephemeris_t e; memset(&e, 0, sizeof e); decode_glo_ephemeris(s, construct_sid(CODE_GLO_L1OF, 3), U(v), &e);
  pt(&e.toe); pdn(e.data.glo.pos, 3); pdn(e.data.glo.vel, 3); pd(e.data.glo.gamma); pd(e.data.glo.tau); pu(e.valid); pu(e.fit_interval); pu(e.health_bits); pu(e.data.glo.iod); pd(e.ura); kept();
}
OP(o_dgalu) { u8 pg[5][GAL_INAV_CONTENT_BYTE]; uint64_t s = 5 + (uint64_t)v; for (int i = 0; i < 5; i++) for (int k = 0; k < GAL_INAV_CONTENT_BYTE; k++) pg[i][k] = (u8)(rnd(&s) ^ (unsigned)hit()); setbitu(pg[4], 73, 12, 900); setbitu(pg[4], 85, 20, 100000); setbitu(pg[0], 16, 14, 100000 / 60); setbitu(pg[3], 54, 14, 100000 / 60); for (u32 i = 0; i < 5; i++) { setbitu(pg[i], 0, 6, i + 1); if (i < 4) setbitu(pg[i], 6, 10, 55u + (u32)v); } keep(pg, sizeof pg); ephemeris_t e; memset(&e, 0, sizeof e); decode_gal_ephemeris((const u8(*)[GAL_INAV_CONTENT_BYTE])pg, &e); p_eph(&e); kept(); }
OP(o_mat2) {
  enum { N = 4, M = 3 };
  double a[N * M], at[M * N], b[N * N], w[N], y[N], qt[N * N], rr[N * N]; uint64_t s = 5 + (uint64_t)v;
  for (int i = 0; i < N * M; i++) a[i] = xd((double)(rnd(&s) % 2001) / 100 - 10);
  for (int i = 0; i < N; i++) { w[i] = xd(1 + (double)(rnd(&s) % 10)); y[i] = xd((double)(rnd(&s) % 100)); }
  keep(a, sizeof a); keep(w, sizeof w); keep(y, sizeof y);
  matrix_transpose(N, M, a, at);
  DIRTY(b); int r = matrix_atwaiat(N, M, a, w, b); pu((uint64_t)r); if (!r) pdn(b, M * N);
  DIRTY(b); r = matrix_ataiat(N, M, a, b); pu((uint64_t)r); if (!r) pdn(b, M * N);
  DIRTY(b); r = matrix_atawati(M, N, at, w, b); pu((uint64_t)r); if (!r) pdn(b, M * N);
  DIRTY(b); r = matrix_ataati(M, N, at, b); pu((uint64_t)r); if (!r) pdn(b, M * N);
  double q[N * N], x[N]; matrix_multiply(N, M, N, a, at, q); for (int i = 0; i < N; i++) q[i * N + i] += 50; DIRTY(qt); DIRTY(rr); DIRTY(x);
  r = (int)qrdecomp_square(q, N, qt, rr); pu((uint64_t)r); qtmult(qt, N, y, x); pdn(x, N); rsolve(rr, N, N, x, x); pdn(x, N);
  memcpy(b, q, sizeof b); matrix_multiply_diag_right(N, N, b, w); pdn(b, N * N); memcpy(b, q, sizeof b); matrix_triu(N, b); pdn(b, N * N);
  double uu[N * N], dd[N]; memcpy(b, q, sizeof b); DIRTY(uu); DIRTY(dd); matrix_udu(N, b, uu, dd); DIRTY(b); matrix_reconstruct_udu(N, uu, dd, b); pdn(b, N * N);
  u32 ri[2] = {1, (u32)v}, ci[2] = {0, 2}; DIRTY(x); submatrix(2, 2, M, a, ri, ci, x); pdn(x, 4); DIRTY(x); submatrix_ul(2, 2, M, a, x); pdn(x, 4);
  s32 ia[4], ib[4], ic[4]; s64 la[4], lb[4], lc[4]; for (int i = 0; i < 4; i++) { la[i] = ia[i] = (s32)xi(i + v); lb[i] = ib[i] = (s32)xi(7 - i); } matrix_multiply_i(2, 2, 2, ia, ib, ic); matrix_multiply_s64(2, 2, 2, la, lb, lc); for (int i = 0; i < 4; i++) { pu((uint64_t)ic[i]); pu((uint64_t)lc[i]); }
  pu(double_approx_eq(a[0], a[0] + 1e-9 * v)); pu(double_within(a[0], a[1], xd(3))); pu(double_equal(a[0], a[0] + 1e-15)); kept();
}
OP(o_bits2) { u8 b[24], d[24]; DIRTY(b); memset(b, 0x3c, sizeof b); setbits(b, (u32)(3 + v), 13, (s32)xi(-77)); setbitul(b, (u32)(40 + v), 51, (u64)xi(0x3123456789abcll)); setbitsl(b, (u32)(100 + v), 40, (s64)xi(-5)); pb(b, sizeof b); pu(count_bits_u8((u8)xi(77 + v), 1)); pu(count_bits_u16((u16)xi(7777 + v), 0)); pu(bytes_interleave((u8)xi(77 + v), (u8)xi(3))); fifo_t f; u8 st[16]; DIRTY(f); DIRTY(st); DIRTY(d); fifo_init(&f, st, sizeof st); for (int k = 0; k < 6; k++) { pu(fifo_write(&f, b, (fifo_size_t)(3 + k + v))); pu(fifo_peek(&f, d, 2)); pu(d[0]); pu(fifo_read(&f, d, (fifo_size_t)(2 + k))); pu(d[1]); pu(fifo_remove(&f, 1)); pu(fifo_length(&f)); pu(fifo_space(&f)); } pu(days_in_month((u16)xi(2000 + v * 4), 2)); pu(is_bias_mask_flag_set((u8)xi(5), (u8)(1 + v))); }
OP(o_iono2) { ionosphere_t i; memset(&i, 0, sizeof i); i.a0 = xd(1e-8); i.a1 = xd(2e-8); i.a2 = xd(-6e-8); i.a3 = xd(v == 2 ? -6e-7 : -6e-8); i.b0 = xd(v == 1 ? 9e5 : 9e4); i.b1 = xd(1e5); i.b2 = xd(-6e4); i.b3 = xd(-6e4); keep(&i, sizeof i); for (int k = 0; k < 5; k++) { static const double LA[5] = {0.2, -0.7, 1.5, -1.5, 0.6}, LO[5] = {0.1, -1.2, 3, -3, 2}; gps_time_t t = {50400 - 43200 * LO[k] / 3.14159265 + 86400 * (v + 1) + 3000.0 * (k - 2) + xd(100.0 * v), 2100}; pd(calc_ionosphere(&t, LA[k], LO[k], 1.3 * v + 0.3 * k, 0.15 + 0.25 * k, &i)); } kept(); }
OP(o_geoid2) { for (int k = 0; k < 6; k++) { static const double LA[6] = {1.5707, -1.5707, 1.565, -1.5695, 0.3, 1.545}, LO[6] = {0.4, 1.3, -0.004, -3.1, -0.001, 6.2831}; pd(get_geoid_offset(xd(LA[k]), LO[k] + (LO[k] > 3 ? -0.012 * v : 0.013 * v))); } pd(get_geoid_offset(xd(2 + v), 0)); }
OP(o_leap) { utc_params_t p = {.a0 = xd(1e-7), .a1 = xd(1e-13), .tot = {xd(100000), 1929}, .t_lse = {18, 1930}, .dt_ls = 17, .dt_lsf = 18}; keep(&p, sizeof p); for (int k = 0; k < 5; k++) { gps_time_t g = {15.25 + k + 0.5 * v, 1930}, b; gps_time_t h = g; utc_tm u; DIRTY(u); DIRTY(b); gps2utc(&g, &u, v == 2 ? &p : NULL); ptm(&u); utc2gps(&u, &b, v == 2 ? &p : NULL); pt(&b); pu(is_leap_second_event(&h, v == 2 ? &p : NULL)); pd(get_gps_utc_offset(&h, &p)); pd(get_utc_gps_offset(&h, &p)); glo_time_t q; DIRTY(q); q = gps2glo(&h, v == 2 ? &p : NULL); pu(q.nt); pu(q.h); pd(q.s); b = glo2gps(&q, v == 2 ? &p : NULL); pt(&b); pd(gps2mjd(&h)); } gps_time_t e = {3.25, 5}; pd(get_gps_utc_offset(&e, NULL)); pd(get_utc_gps_offset(&e, NULL)); pu(is_leap_second_event(&e, NULL)); kept(); }
OP(o_utcp2) { u32 w[8]; words(w, 8, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (56u << 22); w[6] = (w[6] & ~(0xffu << 6)) | ((u32)(1 + 3 * v) << 6); w[5] = (w[5] & ~(0xffu << 14)) | ((u32)(20 + 30 * v) << 14); keep(w, sizeof w); utc_params_t u; DIRTY(u); bool ok = decode_utc_parameters_with_wn_ref(w, &u, (u16)xi(2000)); pu(ok); if (ok) { pd(u.a0); pd(u.a1); pt(&u.tot); pt(&u.t_lse); pu((uint64_t)u.dt_ls); pu((uint64_t)u.dt_lsf); } kept(); }
OP(o_norm2) { gps_time_t t = {xd(-700000.5 + v), 2000}; normalize_gps_time(&t); pt(&t); gps_time_t q = {-5.0 - v, 0}; pu(normalize_gps_time_safe(&q)); gps_time_duration_t d = {.seconds = xd(-1.5e6 + v * 2e6), .weeks = (s16)(3 - v)}; normalize_gps_time_duration(&d); pd(d.seconds); pu((uint64_t)d.weeks); d.seconds = xd(30.0 + v); d.weeks = -2; normalize_gps_time_duration(&d); pd(d.seconds); pu((uint64_t)d.weeks); gps_time_t a = {xd(10.0 + v), WN_UNKNOWN}, b = {600000, (s16)xi(2100)}; gps_time_match_weeks(&a, &b); pt(&a); a.tow = 600000; a.wn = WN_UNKNOWN; b.tow = 10; pu(gps_time_match_weeks_safe(&a, &b)); pt(&a); a.wn = WN_UNKNOWN; pd(gpsdifftime(&a, &b)); b.tow = 599999; pd(gpsdifftime(&b, &a)); pu(gps_adjust_week_cycle((u16)(2100 + v), (u16)xi(2000))); pu(gps_adjust_week_cycle256(300, (u16)xi(200))); }
OP(o_dalm2) { u32 w[8]; words(w, 8, v); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (63u << 22); keep(w, sizeof w); almanac_health_t h; memset(&h, 0, sizeof h); pu(almanac_decode_health(w, &h)); pu(h.health_bits_valid); for (int i = 0; i < 32; i++) pu(h.health_bits[i]); kept(); w[0] = (w[0] & 0x003fffff) | (1u << 28) | (51u << 22); pu(almanac_decode_health(w, &h)); pu(h.health_bits_valid); pb(h.health_bits, 32); }
OP(o_alm2) { almanac_t a, b; memset(&a, 0, sizeof a); a.sid = construct_sid(CODE_SBAS_L1CA, (u16)(131 + 2 * (v > 0))); a.toa = (gps_time_t){xd(259200.25), 2000}; a.ura = 5; a.fit_interval = 400; a.valid = 1; a.data.xyz.pos[0] = xd(4.2e7 - v); a.data.xyz.vel[1] = xd(0.4); a.data.xyz.acc[2] = xd(1e-5); b = a; gps_time_t t = a.toa; add_secs(&t, 30 + v); keep(&a, sizeof a); double p[3], s[3], c[3], ce, cr, az, el, d, ref[3]; xyz(v, ref); DIRTY(p); DIRTY(s); DIRTY(c); DIRTY(ce); DIRTY(cr); DIRTY(az); DIRTY(el); DIRTY(d); pu(almanac_equal(&a, &b)); s8 r = calc_sat_state_almanac(&a, &t, p, s, c, &ce, &cr); pu((uint64_t)r); if (!r) { pdn(p, 3); pdn(s, 3); } r = calc_sat_az_el_almanac(&a, &t, ref, &az, &el); pu((uint64_t)r); if (!r) { pd(az); pd(el); } r = calc_sat_doppler_almanac(&a, &t, ref, &d); pu((uint64_t)r); if (!r) pd(d); add_secs(&t, 1e5); pu(almanac_valid(&a, &t)); b.sid.code = a.sid.code = CODE_GLO_L1OF; b.sid.sat = a.sid.sat = 3; memset(&a.data, 0, sizeof a.data); memset(&b.data, 0, sizeof b.data); a.data.glo.lambda = 0.3; b.data.glo.lambda = xd(0.3 + 0.1 * v); pu(almanac_equal(&a, &b)); nk = 0; }
OP(o_eph2) {
  for (int sys = 0; sys < 5; sys++) {
    static const ephemeris_t Z;
    ephemeris_t e = Z, o; eph_make(&e, sys, v); o = e; gps_time_t t = e.toe; add_secs(&t, 5e4);
    pu(ephemeris_valid(&e, &t)); pu(ephemeris_valid_detailed(&e, &t));
    if (sys < 3) { e.data.kepler.iode ^= 1; pu(ephemeris_equal(&e, &o)); pu(get_ephemeris_status_t(&e)); e.data.kepler.iode ^= 1; e.data.kepler.cis += xd(1e-5); pu(ephemeris_equal(&o, &e)); }
    else if (sys == 3) { e.data.glo.iod += 9; pu(ephemeris_equal(&e, &o)); }
    else { e.data.xyz.acc[1] = xd(1e-3); pu(ephemeris_equal(&e, &o)); }
    e = o; e.health_bits = sys == 1 ? 0x3f : 63; pu(get_ephemeris_status_t(&e)); pu(ephemeris_healthy(&e, e.sid.code)); e = o; e.fit_interval = 0; pu(get_ephemeris_status_t(&e)); e = o; e.valid = 0; pu(get_ephemeris_status_t(&e)); pu(ephemeris_valid_detailed(&e, &t)); e = o; e.toe.wn = 0; pu(get_ephemeris_status_t(&e));
    float g; e = o;
    static const code_t C[] = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5X, CODE_GAL_E7X, CODE_GAL_E5X, CODE_BDS2_B2, CODE_BDS3_B5X, CODE_BDS3_B3I, CODE_BDS3_B1CX, CODE_GLO_L2OF, CODE_GLO_L1OF};
    for (unsigned k = 0; k < sizeof C / sizeof *C; k++) if (sys != 4 && code_to_constellation(C[k]) == sid_to_constellation(e.sid)) { gnss_signal_t s = {.sat = e.sid.sat, .code = C[k]}; DIRTY(g); s8 r = get_tgd_correction(&e, &s, &g); pu((uint64_t)r); if (!r) pd(g); }
    if (sys == 0) { e.sid = construct_sid(CODE_QZS_L1CA, 195); o = e; pu(ephemeris_equal(&e, &o)); o.data.kepler.tgd.qzss_s[0] += (float)xd(1); pu(ephemeris_equal(&e, &o)); gnss_signal_t s = {.sat = 195, .code = v ? CODE_QZS_L5X : CODE_QZS_L2CM}; DIRTY(g); pu((uint64_t)get_tgd_correction(&e, &s, &g)); pd(g); }
  }
  for (int k = 0; k < 8; k++) pu(decode_fit_interval(1, (u16)(240 + 100 * k + 3 * v)));
  for (int k = 0; k < 6; k++) { pu(encode_ura((float)(0.3 + 700.0 * k * k))); pd(decode_ura_index((u8)(k * 3))); pd(decode_bds_ura_index((u8)(k * 3))); pd(decode_sisa_index((u8)(k * 26 + v))); }
}
OP(o_shm2) { static const code_t C[] = {CODE_GPS_L1CA, CODE_AUX_GPS, CODE_GPS_L2CM, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L5I, CODE_QZS_L1CA, CODE_QZS_L2CX, CODE_QZS_L5X, CODE_GPS_L1CQ}; for (unsigned c = 0; c < sizeof C / sizeof *C; c++) for (int h = v; h < 64; h += 9) { pu(check_6bit_health_word((u8)h, C[c])); pu(check_8bit_health_word((u8)h, C[c])); pu(check_alma_page25_health_word((u8)h, C[c])); } pu(check_nav_dhi((u8)(0x40 * (v + 1)), (u8)(4 << v))); }
OP(o_meas2) { navigation_measurement_t m[2]; memset(m, 0, sizeof m); meas(m, 1, v); for (int f = 0; f < 9; f++) { m[1] = m[0]; if (f == 0) m[1].raw_pseudorange += 1; if (f == 1) m[1].raw_carrier_phase += 1; if (f == 2) m[1].sat_pos[v] += 1; if (f == 3) m[1].sat_vel[v] += 1; if (f == 4) m[1].cn0 += 1; if (f == 5) m[1].tot.tow += 1; if (f == 6) m[1].flags ^= 2; if (f == 7) m[1].eph_key++; if (f == 8) m[1].sat_clock_err += 1; pu(nav_meas_equal(&m[0], &m[1])); } measurement_std_t a, b; memset(&a, 0, sizeof a); b = a; b.iono_std = 1 + v; pu(measurement_std_equal(&a, &b)); b = a; b.range_std = 1 + v; pu(measurement_std_equal(&a, &b)); for (int k = 0; k < 5; k++) { static const double L[5] = {0, 0.01, 3, 5000, 1e9}; pu(encode_lock_time(L[k] * (1 + v))); pd(decode_lock_time((u8)(k * 3 + v))); } }
OP(o_bits3) { u8 b[40], d[40]; for (int i = 0; i < 40; i++) d[i] = b[i] = (u8)(i * 37 + v); setbitul(b, 7, 64, (u64)xi(0x123456789abcdef0ll)); setbitu(b, 77, 32, (u32)xi(0x9abcdef0)); bitcopy(d, (u32)(5 + v), b, 3, 150); bitshl(b, 30, (u32)(8 * v + 8)); pb(b, 40); pb(d, 40); bitshl(d, 20, (u32)(3 + v)); pb(d, 40); bitshl(d, 4, 33); pb(d, 40); u8 m[8] = {0}; pu((uint64_t)memcpy_s(m, 8, b, (size_t)(7 + v))); pb(m, 8); pu((uint64_t)memcpy_s(m, 8, m + 1, 3)); pu((uint64_t)memcpy_s(NULL, 8, b, 3)); }
OP(o_coord2) { for (int k = 0; k < 4; k++) { static const double P[4][3] = {{0, 0, 6.4e6}, {0, 0, -6.3e6}, {1e3, 2e3, -6.35e6}, {10, 20, 30}}; double p[3], l[3]; for (int i = 0; i < 3; i++) p[i] = P[k][i] * (1 + 0.1 * v); DIRTY(l); xdn(p, 3); wgsecef2llh(p, l); pdn(l, 3); double q[3] = {2e7, 1e7 * v, 1.5e7}, az, el; DIRTY(az); DIRTY(el); if (k != 3) { wgsecef2azel(q, p, &az, &el); pd(az); pd(el); } } }
OP(o_pvtn) { navigation_measurement_t m[9]; memset(m, 0, sizeof m); meas(m, 9, v); for (int i = 0; i < 9; i++) { if (i % 3 == v) m[i].flags &= (nav_meas_flags_t)~NAV_MEAS_FLAG_PHASE_VALID; if (i % 2) m[i].lock_time = 0.5 * i; if (i == v + 3) m[i].flags |= NAV_MEAS_FLAG_RAIM_EXCLUSION; if (i == 8) m[i].flags &= (nav_meas_flags_t)~NAV_MEAS_FLAG_MEAS_DOPPLER_VALID; } gnss_solution s; dops_t d; DIRTY(s); DIRTY(d); gps_time_t tor = {100000.07, 2100}; s8 r = calc_PVT(9, m, &tor, v == 1, false, &NOMASK, v == 2 ? GPS_ONLY : ALL_CONSTELLATIONS, &s, &d, NULL); pu((uint64_t)r); if (r >= 0) { pdn(s.pos_ecef, 3); pd(s.clock_offset); pdn(s.err_cov, 7); pu(s.velocity_valid); if (s.velocity_valid) { pdn(s.vel_ecef, 3); pd(s.clock_drift); pdn(s.vel_cov, 7); } pd(d.pdop); pd(d.gdop); } }

static const struct { const char *n; void (*f)(int); } OPS[] = {
    {"norm", o_norm}, {"diff", o_diff}, {"add", o_add}, {"match", o_match}, {"week", o_week}, {"valid", o_valid}, {"unix", o_unix}, {"utc", o_utc}, {"mkutc", o_mkutc}, {"offset", o_offset}, {"glot", o_glot}, {"mjd", o_mjd}, {"date", o_date}, {"gdate", o_gdate}, {"epoch", o_epoch}, {"utcp", o_utcp}, {"coord", o_coord}, {"azel", o_azel}, {"geoid", o_geoid}, {"tropo", o_tropo}, {"iono", o_iono}, {"ionop", o_ionop}, {"gps", o_gps}, {"gal", o_gal}, {"bds", o_bds}, {"glo", o_glo}, {"sbas", o_sbas}, {"dgps", o_dgps}, {"dbds", o_dbds}, {"dgal", o_dgal}, {"dglo", o_dglo}, {"alm", o_alm}, {"dalm", o_dalm}, {"ura", o_ura}, {"shm", o_shm}, {"meas", o_meas}, {"pvt", o_pvt}, {"pvtf", o_pvtf}, {"pvtg", o_pvtg}, {"pvtp", o_pvtp}, {"pvtv", o_pvtv}, {"sing", o_sing}, {"mat", o_mat}, {"bits", o_bits}, {"stream", o_stream}, {"sets", o_sets}, {"sig", o_sig}, {"bias", o_bias}, {"map", o_map}, {"mem", o_mem}, {"codes", o_codes}, {"sets2", o_sets2}, {"dec2", o_dec2}, {"dglo2", o_dglo2}, {"dgalu", o_dgalu}, {"mat2", o_mat2}, {"bits2", o_bits2}, {"iono2", o_iono2}, {"geoid2", o_geoid2}, {"leap", o_leap}, {"utcp2", o_utcp2}, {"norm2", o_norm2}, {"dalm2", o_dalm2}, {"alm2", o_alm2}, {"eph2", o_eph2}, {"shm2", o_shm2}, {"meas2", o_meas2}, {"bits3", o_bits3}, {"coord2", o_coord2}, {"pvtn", o_pvtn}};
#define NOPS (int)(sizeof OPS / sizeof OPS[0])
#define NV 3
#define NA (NOPS * NV)
static void run_op(int a, int d) {
  R.n = 0;
  nk = 0;
  inputs_changed = 0;
  tweaks = 0;
  dirt = d;
  OPS[a / NV].f(a % NV);
}
#endif
