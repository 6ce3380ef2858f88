/* C42: whatever a satellite broadcasts, receiving it is harmless.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "glo_str.h"
#include <swiftnav/almanac.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/nav_meas.h>

#define NPAT 12
static const u32 PAT[NPAT] = {0, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA, 0x20000000, 0xDFFFFFFF, 0x00000040, 0x80000001, 0x00FF00FF, 0x7FFFFFFF, 0x0003FFC0, 0x33333333};
#define NREF 3
static const double REF[NREF][3] = {{-2704376.9, -4263209.6, 3884641.2}, {6378137, 0, 0}, {0, 0, -6356752.3142}};
static const double ORIGIN[3] = {0, 0, 0};

static int fin3(const double *v) { return isfinite(v[0]) && isfinite(v[1]) && isfinite(v[2]); }
static gps_time_t at(double wn, double tow, double dt) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  tow += dt;
  double k = floor(tow / 604800);
  t.wn = (s16)(wn + k);
  t.tow = tow - 604800 * k;
  return t;
}
static void angles(double az, double el) {
  MC_CHECK(isfinite(az) && az >= 0 && az <= 2 * M_PI + 1e-12 && isfinite(el) && fabs(el) <= M_PI / 2 + 1e-12, "az-el", "azimuth %g, elevation %g", az, el);
}
/* everything a receiver does with an ephemeris */
static void use(const ephemeris_t *e, satellite_orbit_type_t orb) {
  ephemeris_t copy = *e;
  constellation_t con = sid_to_constellation(e->sid);
  int known = e->valid && e->toe.wn > 1 && e->toe.wn < 32000 && e->toe.tow >= 0 && e->toe.tow < 604800;
  MC_CHECK(e->valid == 0 || gps_time_valid(&e->toe), "toe", "a valid ephemeris for week %d, %g s", e->toe.wn, e->toe.tow);
  MC_CHECK(!e->valid || e->fit_interval <= 98 * 3600, "fit", "fit interval %u s", e->fit_interval);
  MC_CHECK(ephemeris_equal(e, &copy), "equal", "the ephemeris is not equal to its copy");
  static const code_t CODES[] = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5I, CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5I, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_BDS2_B1, CODE_BDS2_B2, CODE_QZS_L1CA};
  for (unsigned c = 0; c < sizeof CODES / sizeof *CODES; c++) {
    if (code_to_constellation(CODES[c]) != con) continue;
    gnss_signal_t sid = e->sid;
    sid.code = CODES[c];
    float tgd = 0;
    if (get_tgd_correction(e, &sid, &tgd) == 0) MC_CHECK(isfinite(tgd), "tgd", "group delay %g", (double)tgd);
    mc_outcome((uint64_t)ephemeris_healthy(e, CODES[c]) + (uint64_t)c * 2);
  }
  double w = known ? e->toe.wn : 2000, s = known ? e->toe.tow : 345600, half = e->valid ? e->fit_interval / 2.0 : 0;
  double dts[] = {0, half, -half, half + 1, 1234.5, -302400, 86400};
  for (int k = 0; k < 7; k++) {
    gps_time_t t = at(w, s, dts[k]);
    double p[3] = {0}, v[3] = {0}, a[3] = {0}, ce = 0, cr = 0, az = 0, el = 0, dop = 0;
    if (calc_sat_state(e, &t, p, v, a, &ce, &cr) == 0) {
      mc_outcome(1);
      MC_CHECK(ephemeris_valid(e, &t), "gate", "a state from an ephemeris that is not valid at that time");
      MC_CHECK(fin3(p) && fin3(v) && fin3(a) && isfinite(ce) && isfinite(cr), "state", "success, position %g %g %g velocity %g %g %g acceleration %g %g %g clock %g %g", p[0], p[1], p[2], v[0], v[1], v[2], a[0], a[1], a[2], ce, cr);
    } else
      mc_outcome(2);
    if (e->valid && calc_sat_state_n(e, &t, orb, p, v, a, &ce, &cr) == 0)
      MC_CHECK(fin3(p) && fin3(v) && fin3(a) && isfinite(ce) && isfinite(cr), "state-n", "success, position %g %g %g velocity %g %g %g acceleration %g %g %g clock %g %g", p[0], p[1], p[2], v[0], v[1], v[2], a[0], a[1], a[2], ce, cr);
    for (int r = 0; r < NREF; r++) {
      if (calc_sat_az_el(e, &t, REF[r], orb, &az, &el, true) == 0) angles(az, el);
      if (calc_sat_doppler(e, &t, REF[r], ORIGIN, orb, &dop) == 0) MC_CHECK(isfinite(dop), "doppler", "success, %g Hz", dop);
    }
    mc_calls(4 + 2 * NREF);
  }
}
/* every choice of up to n of m words from the patterns, the others from four backgrounds */
typedef void (*msg_fn)(const u32 *w, int kind);
static const u32 BG[4] = {0, 0xFFFFFFFF, 0x15A5C33F, 0xAA55AA55};
static void choices(int m, int n, int npat, int kinds, msg_fn f) {
  u32 w[64];
  uint64_t np = 1;
  for (int i = 0; i < n; i++) np *= (uint64_t)npat;
  int ix[4] = {0, 1, 2, 3};
  for (;;) {
    for (uint64_t c = 0; c < np; c++)
      for (int b = 0; b < 4; b++)
        for (int kind = 0; kind < kinds; kind++) {
          if (!mc_mine()) continue;
          for (int i = 0; i < m; i++) w[i] = BG[b] ^ (b == 2 ? (u32)i * 0x01000193u : 0);
          uint64_t x = c;
          int pp[4] = {-1, -1, -1, -1};
          for (int i = 0; i < n; i++, x /= (uint64_t)npat) pp[i] = (int)(x % (uint64_t)npat), w[ix[i]] = PAT[pp[i]];
          MC_POINT("words %d %d %d %d as patterns %d %d %d %d, background %d, made consistent %d", ix[0], n > 1 ? ix[1] : -1, n > 2 ? ix[2] : -1, n > 3 ? ix[3] : -1, pp[0], pp[1], pp[2], pp[3], b, kind);
          f(w, kind);
        }
    int k = n - 1;
    while (k >= 0 && ix[k] == m - n + k) k--;
    if (k < 0) break;
    ix[k]++;
    for (int j = k + 1; j < n; j++) ix[j] = ix[j - 1] + 1;
  }
}
static void put30(u32 *w, int first, int len, u32 v) {
  u32 m = ((u32)1 << len) - 1, sh = (u32)(30 - first + 1 - len);
  *w = (*w & ~(m << sh)) | ((v & m) << sh);
}
static u32 get30(u32 w, int first, int len) { return (w >> (30 - first + 1 - len)) & (((u32)1 << len) - 1); }

static void gps(const u32 *q, int kind) {
  u32 w[3][8];
  memcpy(w, q, sizeof w);
  if (kind) {
    u32 iode = get30(w[1][0], 1, 8);
    put30(&w[2][7], 1, 8, iode);
    put30(&w[0][5], 1, 8, iode);
    if (get30(w[1][7], 1, 16) * 16 >= 604800) put30(&w[1][7], 1, 1, 0);
  }
  for (int c = 0; c < 2; c++) {
    ephemeris_t e;
    memset(&e, c ? 0x6b : 0, sizeof e);
    e.sid = construct_sid(c ? CODE_QZS_L1CA : CODE_GPS_L1CA, c ? 193 : 32);
    if (c) decode_ephemeris_with_wn_ref((const u32(*)[8])w, &e, -1, 2100);
    else decode_ephemeris((const u32(*)[8])w, &e, 123456);
    use(&e, MEO);
  }
}
static void gal(const u32 *q, int kind) {
  u8 p[5][16];
  for (int i = 0; i < 80; i++) ((u8 *)p)[i] = (u8)(q[i / 4] >> (24 - 8 * (i % 4)));
  if (kind) {
    for (int i = 0; i < 5; i++) {
      p[i][0] = (u8)((i + 1) << 2 | (i < 4 ? p[0][0] & 3 : p[i][0] & 3));
      if (i < 4) p[i][1] = p[0][1];
    }
    if ((u32)(p[0][2] << 6 | p[0][3] >> 2) * 60 >= 604800) p[0][2] &= 0x7F;
    if ((u32)((p[3][6] & 3) << 12 | p[3][7] << 4 | p[3][8] >> 4) * 60 >= 604800) p[3][6] &= 0xFD;
    /* TOW, bits 85..104 of word type 5: cleared top bit keeps it under a week */
    p[4][10] &= 0xFB;
  }
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid = construct_sid(CODE_GAL_E1B, 7);
  bool ok = decode_gal_ephemeris_safe((const u8(*)[16])p, &e);
  mc_outcome(ok ? 10 : 11);
  if (ok) use(&e, MEO);
}
static void bds(const u32 *q, int kind) {
  u32 w[3][10];
  memcpy(w, q, sizeof w);
  ionosphere_t io;
  if (kind) {
    /* the time of ephemeris (bits 21-22 of word 10 in subframe 2 lead it) below one week */
    put30(&w[1][9], 21, 1, 0);
    put30(&w[0][2], 14, 1, 0);
  }
  static const u16 SAT[] = {11, 3, 59, 33};
  for (int s = 0; s < 4; s++) {
    ephemeris_t e;
    memset(&e, s ? 0x6b : 0, sizeof e);
    gnss_signal_t sid = construct_sid(CODE_BDS2_B1, SAT[s]);
    decode_bds_d1_ephemeris((const u32(*)[10])w, sid, &e);
    e.valid = gps_time_valid(&e.toe); /* the caller's part */
    e.fit_interval = 3 * 3600;
    use(&e, s == 1 || s == 2 ? GEO : MEO);
  }
  memset(&io, 0, sizeof io);
  decode_bds_d1_iono(w[0], &io);
  gps_time_t t = at(2100, 400000, 0);
  double d = calc_ionosphere(&t, 0.7, -2.1, 1, 0.3, &io);
  MC_CHECK(isfinite(d) && d > 0, "bds-iono", "delay %g m", d);
}
static void glo(const u32 *q, int kind) {
  glo_string_t s[5];
  for (int i = 0; i < 5; i++) {
    memset(&s[i], 0, sizeof s[i]);
    for (int j = 0; j < 3; j++) s[i].word[j] = q[i * 3 + j];
    s[i].word[2] &= (1u << 21) - 1;
    gs_put(&s[i], 81, 4, (uint64_t)(i + 1));
    gs_put(&s[i], 85, 1, 0);
    if (kind && i == 3) { /* in string 4: a day number, type M */
      if (!(kind & 2)) gs_put(&s[i], 27, 11, 45);
      gs_put(&s[i], 9, 2, 1);
    }
    if (kind && i == 4 && !(kind & 2)) gs_put(&s[i], 32, 5, 6);
    if (kind && i == 1) gs_put(&s[i], 70, 7, (uint64_t)(s[1].word[2] >> 5) % 96);
    if (kind && i == 0) {
      gs_put(&s[i], 72, 5, 13);
      gs_put(&s[i], 66, 6, 27);
    }
    gs_seal(&s[i]);
  }
  utc_params_t u;
  memset(&u, 0, sizeof u);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  for (u16 k = 1; k <= 24; k++) glo_map_set_slot_id((u16)(1 + (k - 1) % 14), k);
  decode_glo_ephemeris(s, construct_sid(CODE_GLO_L1OF, 12), NULL, &e);
  mc_outcome(e.valid ? 20 : 21);
  use(&e, MEO);
}
static void alm(const u32 *q, int kind) {
  u32 w[8];
  memcpy(w, q, sizeof w);
  if (kind) {
    put30(&w[0], 1, 2, 1);
    put30(&w[0], 3, 6, kind == 1 ? 5 : kind == 2 ? 51 : 63);
    if (kind == 1 && get30(w[1], 1, 8) * 4096 >= 604800) put30(&w[1], 1, 1, 0);
  }
  almanac_t a;
  almanac_health_t h;
  almanac_ref_week_t rw;
  memset(&a, 0, sizeof a);
  memset(&h, 0, sizeof h);
  memset(&rw, 0, sizeof rw);
  if (almanac_decode_health(w, &h)) mc_outcome(30 + (h.health_bits_valid & 1));
  for (int r = 0; r < 3; r++) {
    static const u16 WR[] = {1024, 2047, 2200};
    if (almanac_decode_week_with_wn_ref(w, &rw, WR[r])) mc_outcome(32 + (uint64_t)r);
  }
  if (almanac_decode_week(w, &rw)) mc_outcome(36);
  mc_calls(6);
  if (!almanac_decode(w, &a)) return;
  mc_outcome(37);
  a.toa.wn = 2150; /* the page carries no week */
  a.fit_interval = 6 * 86400;
  mc_outcome(38 + (uint64_t)(almanac_healthy(&a) != 0));
  MC_CHECK(almanac_equal(&a, &a), "almanac-equal", "an almanac is not equal to itself");
  static const double DT[] = {0, 1, -1, 86400, -259199, 259200, 400000};
  for (int k = 0; k < 7; k++) {
    gps_time_t t = at(2150, a.toa.tow, DT[k]);
    double p[3] = {0}, v[3] = {0}, c[3] = {0}, ce = 0, cr = 0, az = 0, el = 0, dop = 0;
    if (calc_sat_state_almanac(&a, &t, p, v, c, &ce, &cr) == 0)
      MC_CHECK(fin3(p) && fin3(v) && fin3(c) && isfinite(ce) && isfinite(cr), "almanac-state", "success, position %g %g %g velocity %g %g %g clock %g %g", p[0], p[1], p[2], v[0], v[1], v[2], ce, cr);
    for (int r = 0; r < NREF; r++) {
      if (calc_sat_az_el_almanac(&a, &t, REF[r], &az, &el) == 0) angles(az, el);
      if (calc_sat_doppler_almanac(&a, &t, REF[r], &dop) == 0) MC_CHECK(isfinite(dop), "almanac-doppler", "success, %g Hz", dop);
    }
    mc_calls(1 + 2 * NREF);
  }
}
/* page 18 of subframe 4: UTC and ionosphere */
static void page18(const u32 *q, int kind) {
  u32 w[8];
  memcpy(w, q, sizeof w);
  if (kind) {
    put30(&w[0], 1, 2, 1);
    put30(&w[0], 3, 6, 56);
    put30(&w[6], 17, 8, kind == 1 ? 7 : get30(w[6], 17, 8) % 7 + 1);
    if (kind == 2) put30(&w[7], 1, 8, (u32)(get30(w[6], 1, 8) + 1)); /* one leap second, inserted */
    if (kind == 3) put30(&w[7], 1, 8, (u32)(get30(w[6], 1, 8) - 1));
  }
  ionosphere_t io;
  memset(&io, 0, sizeof io);
  if (decode_iono_parameters(w, &io)) {
    static const double LAT[] = {-M_PI / 2, -0.9, 0, 0.7, M_PI / 2}, TW[] = {0, 43200, 302400, 604799.9}, EL[] = {0.02, 0.8, M_PI / 2};
    for (int a = 0; a < 5; a++)
      for (int b = 0; b < 4; b++)
        for (int c = 0; c < 3; c++) {
          gps_time_t t = at(2100, TW[b], 0);
          double d = calc_ionosphere(&t, LAT[a], 0.8 * (a - 2), 1.5 * b, EL[c], &io);
          MC_CHECK(isfinite(d) && d > 0, "iono", "delay %g m", d);
        }
    mc_calls(60);
  }
  for (int r = 0; r < 4; r++) {
    static const u16 WR[] = {1024, 1930, 2047, 2300};
    utc_params_t u;
    memset(&u, 0x77, sizeof u);
    bool ok = r ? decode_utc_parameters_with_wn_ref(w, &u, WR[r]) : decode_utc_parameters(w, &u);
    mc_outcome(ok ? 40 : 41);
    if (!ok) continue;
    static const double DT[] = {-400000, -86400, -2, -1, -0.5, -1e-9, 0, 1e-7, 0.25, 0.5, 0.999999, 1, 1.5, 2, 20, 86400, 700000};
    for (int k = 0; k < 17; k++) {
      gps_time_t t = at(u.t_lse.wn, u.t_lse.tow, DT[k]);
      if (t.wn < 2) continue;
      utc_tm tm;
      memset(&tm, 0, sizeof tm);
      gps2utc(&t, &tm, &u);
      MC_CHECK(tm.month >= 1 && tm.month <= 12 && tm.month_day >= 1 && tm.month_day <= 31 && tm.hour <= 23 && tm.minute <= 59 && tm.second_int <= 60 && tm.second_frac >= 0 && tm.second_frac < 1, "utc", "%d-%d-%d %d:%d:%d %g", tm.year, tm.month, tm.month_day, tm.hour, tm.minute, tm.second_int, tm.second_frac);
      MC_CHECK(isfinite(get_gps_utc_offset(&t, &u)) && isfinite(get_utc_gps_offset(&t, &u)), "offset", "the offset from UTC is not finite");
      double m = gps2mjd_params(&t, &u);
      MC_CHECK(isfinite(m), "mjd", "date %g", m);
      gps_time_t b;
      memset(&b, 0, sizeof b);
      utc2gps(&tm, &b, &u);
      MC_CHECK(gps_time_valid(&b), "utc2gps", "week %d, %g s", b.wn, b.tow);
      glo_time_t g = gps2glo(&t, &u);
      gps_time_t c = glo2gps(&g, &u);
      MC_CHECK(gps_time_valid(&c), "glo2gps", "week %d, %g s", c.wn, c.tow);
      mc_calls(7);
    }
  }
}
#define SP(name, m, kinds, fn, nq, pq, nt, pt) \
  static void name(void) { mc_quiet(); choices(m, mc_thorough() ? nt : nq, mc_thorough() ? pt : pq, kinds, fn); }
SP(s_gps, 24, 2, gps, 2, 12, 3, 6)
SP(s_gal, 20, 2, gal, 2, 12, 3, 8)
SP(s_bds, 30, 2, bds, 2, 8, 2, 12)
SP(s_glo, 15, 4, glo, 2, 12, 3, 8)
SP(s_alm, 8, 4, alm, 3, 8, 4, 8)
SP(s_page, 8, 4, page18, 3, 6, 4, 6)

/* records with a parameter, or two, at an extreme of what its message can carry */
#define NK 20
static double *field(ephemeris_kepler_t *k, int i) {
  double *f[NK] = {&k->crs, &k->dn, &k->m0, &k->cuc, &k->ecc, &k->cus, &k->sqrta, &k->cic, &k->omega0, &k->cis, &k->inc, &k->crc, &k->w, &k->omegadot, &k->inc_dot, 0, 0, 0};
  return f[i];
}
static void records(void) {
  static const double TOP[] = {1024, 1.4e-8, M_PI, 6.2e-5, 0.5, 6.2e-5, 8192, 6.2e-5, M_PI, 6.2e-5, M_PI, 1024, M_PI, 3.1e-6, 9.4e-10, 1e-3, 4e-9, 4e-15};
  mc_quiet();
  static const struct { code_t c; u16 s; satellite_orbit_type_t o; } S[] = {{CODE_GPS_L1CA, 9, MEO}, {CODE_GAL_E1B, 9, MEO}, {CODE_BDS2_B1, 9, MEO}, {CODE_BDS2_B1, 2, GEO}, {CODE_QZS_L1CA, 194, MEO}};
  for (int s = 0; s < 5; s++)
    for (int bg = 0; bg < 2; bg++)
      for (int i = 0; i < 18; i++)
        for (int j = i; j < 18; j++)
          for (int vi = 0; vi < 5; vi++)
            for (int vj = 0; vj < (i == j ? 1 : 5); vj++) {
              if (!mc_mine()) continue;
              MC_POINT("system %d, background %d, parameter %d value %d, parameter %d value %d", s, bg, i, vi, j, vj);
              ephemeris_t e;
              memset(&e, 0, sizeof e);
              e.sid = construct_sid(S[s].c, S[s].s);
              e.toe.wn = 2100, e.toe.tow = 345600, e.valid = 1, e.fit_interval = 4 * 3600, e.ura = 2;
              ephemeris_kepler_t *k = &e.data.kepler;
              k->toc = e.toe;
              if (bg) k->sqrta = 5153.6, k->ecc = 0.01, k->inc = 0.96, k->dn = 4e-9, k->m0 = 1.1;
              static const double M[] = {0, 1, -1, 1e-9, 0.37};
              for (int z = 0; z < 2; z++) {
                int f = z ? i : j;
                double v = M[z ? vi : vj] * TOP[f];
                if (f == 4 || f == 6) v = fabs(v);
                if (f == 15) k->af0 = (float)v;
                else if (f == 16) k->af1 = (float)v;
                else if (f == 17) k->af2 = (float)v;
                else *field(k, f) = v;
              }
              use(&e, S[s].o);
            }
}
MC_SPACES({"gps", "every pair (triple) of the 24 words of an LNAV ephemeris, each as 12 (6) patterns, over 4 backgrounds, as it is and made consistent, GPS and QZSS, 7 instants, 3 places", s_gps, 0},
          {"galileo", "every pair (triple) of 20 words of 5 pages, 12 (8) patterns, 4 backgrounds, as it is and made consistent", s_gal, 0},
          {"beidou", "every pair of the 30 words of a D1 ephemeris, 8 (12) patterns, 4 backgrounds, toe and toc in and out of range, 4 satellites", s_bds, 0},
          {"glonass", "every pair (triple) of the 15 words of five strings, 12 (8) patterns, 4 backgrounds, 4 degrees of consistency, sealed with check bits", s_glo, 0},
          {"almanac", "every triple (quadruple) of the 8 words of an almanac page, 8 patterns, 4 backgrounds, 4 page identities", s_alm, 0},
          {"page-18", "every triple (quadruple) of the 8 words of the UTC and ionosphere page, 6 patterns, 4 backgrounds, 4 degrees of consistency, 17 instants around the leap second", s_page, 0},
          {"records", "5 satellites x 2 backgrounds x every pair of 18 parameters at 5 values, 7 instants, 3 places", records, 0}, )
