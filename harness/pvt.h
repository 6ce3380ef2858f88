/* synthetic measurements for the position solver, and the least-squares facts about them, in long double */
#ifndef MC_PVT_H
#define MC_PVT_H
#include <math.h>
#include <stddef.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/single_epoch_solver.h>
typedef long double ld;
#define CLIGHT 299792458.0L
#define OMEGA 7.2921151467e-5L
#define PMAX 64

typedef struct {
  ld pos[3], vel[3];
  ld clk[CONSTELLATION_COUNT]; /* m */
  ld drift;                    /* m/s */
} rx_t;

static inline void rx_place(rx_t *r, double lat, double lon, double h) {
  ld a = 6378137.0L, f = 1 / 298.257223563L, e2 = f * (2 - f), d = acosl(-1.0L) / 180;
  ld s = sinl(lat * d), c = cosl(lat * d), n = a / sqrtl(1 - e2 * s * s);
  r->pos[0] = (n + h) * c * cosl(lon * d);
  r->pos[1] = (n + h) * c * sinl(lon * d);
  r->pos[2] = (n * (1 - e2) + h) * s;
}
/* north, east, up at the receiver (geodetic) */
static inline void rx_axes(double lat, double lon, ld N[3], ld E[3], ld U[3]) {
  ld d = acosl(-1.0L) / 180, s = sinl(lat * d), c = cosl(lat * d), sl = sinl(lon * d), cl = cosl(lon * d);
  N[0] = -s * cl; N[1] = -s * sl; N[2] = c;
  E[0] = -sl; E[1] = cl; E[2] = 0;
  U[0] = c * cl; U[1] = c * sl; U[2] = s;
}
/* a measurement of a satellite seen at the direction (az, el), consistent with the receiver: the satellite's
 * state in the Earth-fixed frame of the transmission instant, observed after the Earth turned */
static inline void meas_make(navigation_measurement_t *m, const rx_t *r, double lat, double lon, gnss_signal_t sid, double az, double el, double orbit, int k) {
  memset(m, 0, sizeof *m);
  ld d = acosl(-1.0L) / 180, N[3], E[3], U[3], e[3], s[3], sv[3];
  rx_axes(lat, lon, N, E, U);
  for (int i = 0; i < 3; i++) e[i] = cosl(el * d) * (cosl(az * d) * N[i] + sinl(az * d) * E[i]) + sinl(el * d) * U[i];
  ld b = 0, c = 0;
  for (int i = 0; i < 3; i++) { b += r->pos[i] * e[i]; c += r->pos[i] * r->pos[i]; }
  ld rho = -b + sqrtl(b * b - c + (ld)orbit * orbit);
  for (int i = 0; i < 3; i++) s[i] = r->pos[i] + rho * e[i]; /* in the frame of reception */
  /* velocity of 3.1 km/s across the radius, direction varying with k */
  ld q[3] = {cosl(0.7L * k), sinl(0.7L * k), cosl(1.9L * k)}, t[3] = {s[1] * q[2] - s[2] * q[1], s[2] * q[0] - s[0] * q[2], s[0] * q[1] - s[1] * q[0]};
  ld tn = sqrtl(t[0] * t[0] + t[1] * t[1] + t[2] * t[2]);
  for (int i = 0; i < 3; i++) sv[i] = 3100 * t[i] / tn;
  ld rr = 0;
  for (int i = 0; i < 3; i++) rr += e[i] * (sv[i] - r->vel[i]);
  /* back to the frame of transmission */
  ld w = OMEGA * rho / CLIGHT, cw = cosl(w), sw = sinl(w);
  m->sat_pos[0] = (double)(cw * s[0] - sw * s[1]);
  m->sat_pos[1] = (double)(sw * s[0] + cw * s[1]);
  m->sat_pos[2] = (double)s[2];
  m->sat_vel[0] = (double)(cw * sv[0] - sw * sv[1]);
  m->sat_vel[1] = (double)(sw * sv[0] + cw * sv[1]);
  m->sat_vel[2] = (double)sv[2];
  for (int i = 0; i < 3; i++) m->sat_acc[i] = 0.5 * i;
  m->eph_key = (u16)(k + 1);
  m->sat_clock_err = 1e-5 * ((k * 5) % 13 - 6);
  m->sat_clock_err_rate = 1e-11 * ((k * 3) % 7 - 3);
  m->cn0 = 50;
  m->lock_time = 60;
  m->elevation = 60;
  m->tot.wn = 2100;
  m->tot.tow = 100000;
  m->sid = sid;
  m->flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_HALF_CYCLE_KNOWN | NAV_MEAS_FLAG_CN0_VALID;
  ld f = sid_to_carr_freq(sid);
  m->raw_pseudorange = (double)(rho + r->clk[sid_to_constellation(sid)] - CLIGHT * m->sat_clock_err);
  m->raw_measured_doppler = (double)(-(rr + r->drift) * f / CLIGHT - m->sat_clock_err_rate * f);
  m->raw_carrier_phase = 12345.5;
  m->raw_computed_doppler = 77777.0;
}
/* geometry of a set: rows of the Jacobian at the truth, normal matrix inverse, leverage */
typedef struct {
  int n, s;               /* measurements, states */
  int col[PMAX];          /* clock column of each */
  int map[CONSTELLATION_COUNT];
  int satc;               /* distinct satellites */
  bool solvable;
  ld pdop, gdop, tdop, hdop, vdop, H[9][9], lev[PMAX], G[PMAX][9];
} geo_t;
static inline bool ld_inverse(int n, ld A[9][9], ld X[9][9]) {
  ld M[9][18];
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 2 * n; j++) M[i][j] = j < n ? A[i][j] : j - n == i;
  for (int c = 0; c < n; c++) {
    int p = c;
    for (int i = c + 1; i < n; i++)
      if (fabsl(M[i][c]) > fabsl(M[p][c])) p = i;
    if (fabsl(M[p][c]) < 1e-12L) return false;
    for (int j = 0; j < 2 * n; j++) { ld t = M[c][j]; M[c][j] = M[p][j]; M[p][j] = t; }
    for (int i = 0; i < n; i++)
      if (i != c) {
        ld f = M[i][c] / M[c][c];
        for (int j = c; j < 2 * n; j++) M[i][j] -= f * M[c][j];
      }
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) X[i][j] = M[i][n + j] / M[i][i];
  return true;
}
/* skip: bit mask of measurements left out (their constellations keep their column) */
static inline void geometry(geo_t *g, const navigation_measurement_t *m, int n, uint64_t skip, const rx_t *r, double lat, double lon) {
  memset(g, 0, offsetof(geo_t, G));
  memset(g->G, 0, sizeof g->G[0] * (size_t)n);
  g->n = n;
  g->s = 3;
  for (int i = 0; i < CONSTELLATION_COUNT; i++) g->map[i] = -1;
  for (int i = 0; i < n; i++) {
    constellation_t c = sid_to_constellation(m[i].sid);
    if (g->map[c] < 0) g->map[c] = g->s++;
    g->col[i] = g->map[c];
    bool seen = false;
    for (int j = 0; j < i; j++)
      if (sid_to_constellation(m[j].sid) == c && m[j].sid.sat == m[i].sid.sat && !(skip >> j & 1)) seen = true;
    if (!seen && !(skip >> i & 1)) g->satc++;
  }
  ld A[9][9] = {{0}};
  for (int i = 0; i < n; i++) {
    ld rho = 0, w, d[3];
    for (int k = 0; k < 3; k++) { d[k] = m[i].sat_pos[k] - r->pos[k]; rho += d[k] * d[k]; }
    w = OMEGA * sqrtl(rho) / CLIGHT;
    d[0] = m[i].sat_pos[0] * cosl(w) + m[i].sat_pos[1] * sinl(w) - r->pos[0];
    d[1] = m[i].sat_pos[1] * cosl(w) - m[i].sat_pos[0] * sinl(w) - r->pos[1];
    rho = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    for (int k = 0; k < 3; k++) g->G[i][k] = -d[k] / rho;
    g->G[i][g->col[i]] = 1;
    if (skip >> i & 1) continue;
    for (int a = 0; a < g->s; a++)
      for (int b = 0; b < g->s; b++) A[a][b] += g->G[i][a] * g->G[i][b];
  }
  g->solvable = ld_inverse(g->s, A, g->H);
  if (!g->solvable) { g->gdop = INFINITY; return; }
  for (int i = 0; i < n; i++) {
    ld h = 0;
    for (int a = 0; a < g->s; a++)
      for (int b = 0; b < g->s; b++) h += g->G[i][a] * g->H[a][b] * g->G[i][b];
    g->lev[i] = h;
  }
  ld N[3], E[3], U[3], p = g->H[0][0] + g->H[1][1] + g->H[2][2], v = 0;
  rx_axes(lat, lon, N, E, U);
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) v += U[a] * g->H[a][b] * U[b];
  g->pdop = sqrtl(p);
  g->tdop = sqrtl(g->H[3][3]);
  g->gdop = sqrtl(p + g->H[3][3]);
  g->vdop = sqrtl(v);
  if (!(g->gdop < 1e9L)) g->gdop = INFINITY;
  g->hdop = sqrtl(p - v);
}
/* the pool of directions */
static const double POOL[12][2] = {{10, 75}, {80, 20}, {150, 35}, {200, 15}, {260, 50}, {320, 28}, {45, 42}, {120, 10}, {175, 60}, {230, 25}, {290, 12}, {350, 55}};
/* ways to hand out signals to the pool */
static const code_t MIX[9][12] = {
    {CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA},
    {CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E1B},
    {CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5Q, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GLO_L2OF, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_GPS_L2CL},
    {CODE_BDS2_B1, CODE_GPS_L1CA, CODE_BDS3_B5I, CODE_GAL_E7I, CODE_BDS2_B2, CODE_GAL_E5Q, CODE_GPS_L5I, CODE_GPS_L1CA, CODE_BDS3_B1CI, CODE_GAL_E1X, CODE_GPS_L2CX, CODE_BDS3_B3I},
    {CODE_GPS_L1CA, CODE_QZS_L1CA, CODE_GPS_L5X, CODE_QZS_L5Q, CODE_GPS_L1CA, CODE_QZS_L2CM, CODE_SBAS_L1CA, CODE_SBAS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1P, CODE_SBAS_L1CA, CODE_QZS_L1CA},
    {CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E7X, CODE_GAL_E5X, CODE_GAL_E1B, CODE_GAL_E7Q, CODE_GAL_E1X, CODE_GAL_E5I, CODE_GAL_E1B, CODE_GAL_E1B, CODE_GAL_E1B, CODE_GAL_E1B},
    {CODE_BDS2_B1, CODE_BDS2_B1, CODE_BDS3_B7I, CODE_BDS3_B5Q, CODE_BDS2_B1, CODE_BDS3_B5X, CODE_BDS2_B2, CODE_BDS3_B3X, CODE_BDS2_B1, CODE_BDS3_B1CX, CODE_BDS2_B1, CODE_BDS3_B7Q},
    {CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L1OF, CODE_GLO_L1OF},
    {CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GPS_L1CA, CODE_GLO_L2OF, CODE_GAL_E1C, CODE_BDS3_B5I, CODE_GPS_L2CM, CODE_GAL_E7I, CODE_GPS_L1CA, CODE_BDS2_B2}};
static inline gnss_signal_t slot_sid(int mix, int slot) {
  code_t c = MIX[mix][slot];
  static const u16 first[CONSTELLATION_COUNT] = {[CONSTELLATION_GPS] = 1, [CONSTELLATION_SBAS] = 120, [CONSTELLATION_GLO] = 1, [CONSTELLATION_BDS] = 6, [CONSTELLATION_QZS] = 193, [CONSTELLATION_GAL] = 1};
  constellation_t k = code_to_constellation(c);
  return construct_sid(c, (u16)(first[k] + (k == CONSTELLATION_QZS ? slot % 9 : slot)));
}
static inline void slots_glo(void) {
  for (u16 s = 1; s <= 14; s++) glo_map_set_slot_id((u16)(s), s); /* channels -7..6 */
}
static const struct { double lat, lon, h; } RX[] = {{37.7, -122.4, 30}, {-33.9, 151.2, 50}, {0.3, 0.2, -400}, {78.2, 15.6, 480}, {89.5, 100, 2800}, {12, 179.8, 9000}, {-60, -45, 350000},
    /* the first seen from elsewhere: same latitude and height; mirrored */ {37.7, 95.2, 30}, {-37.7, -122.4, 30}};
static const double VEL[][3] = {{0, 0, 0}, {12, -7, 3}, {-150, 210, -90}};
static inline void rx_make(rx_t *r, int p, int v, int c) {
  memset(r, 0, sizeof *r);
  rx_place(r, RX[p].lat, RX[p].lon, RX[p].h);
  for (int i = 0; i < 3; i++) r->vel[i] = VEL[v][i];
  static const double base[] = {0, 150, -31000, 8.5e5};
  for (int k = 0; k < CONSTELLATION_COUNT; k++) r->clk[k] = base[c] + (c ? 37.0L * k * (k & 1 ? 1 : -1) : 0);
  r->drift = c == 0 ? 0 : c == 1 ? 0.7L : c == 2 ? -85 : 420;
}
/* many measurements: satellite i of a layout, its signals spread over its constellation's codes */
#define NLAY 4
static inline int many_make(navigation_measurement_t *m, const rx_t *r, int p, int lay, int n) {
  static const code_t S[6][5] = {{CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5X, CODE_GPS_L1P, CODE_GPS_L2P},
                                 {CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5Q, CODE_GAL_E1C, CODE_GAL_E7Q},
                                 {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B5I, CODE_BDS3_B3I, CODE_BDS3_B1CI},
                                 {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1OF},
                                 {CODE_QZS_L1CA, CODE_QZS_L2CM, CODE_QZS_L5Q, CODE_QZS_L2CL, CODE_QZS_L5I},
                                 {CODE_SBAS_L1CA, CODE_SBAS_L1CA, CODE_SBAS_L1CA, CODE_SBAS_L1CA, CODE_SBAS_L1CA}};
  static const u16 first[6] = {1, 1, 6, 1, 193, 120}, cap[6] = {32, 36, 50, 14, 9, 12}, sig[6] = {5, 5, 5, 2, 5, 1};
  int k = 0;
  for (int x = 0; k < n && x < 400; x++) {
    int c, s, g; /* constellation, satellite, signal */
    if (lay == 0) c = 0, s = x % 32, g = x / 32;                    /* signal by signal */
    else if (lay == 1) c = x / 3 % 2, s = x / 6, g = x % 3;         /* satellite by satellite */
    else if (lay == 2) c = x % 4, s = x / 4 % 13, g = x / 52;
    else c = x % 6, s = x / 6 % 9, g = x / 54;
    if (s >= cap[c] || g >= sig[c]) continue;
    int d = c * 11 + s; /* direction of the satellite */
    double az = fmod(137.50776 * d, 360), el = 8 + fmod(41.3 * d, 78);
    meas_make(&m[k++], r, RX[p].lat, RX[p].lon, construct_sid(S[c][g], (u16)(first[c] + s)), az, el, 26.5e6, d);
  }
  return k;
}
static const obs_mask_config_t NOMASK = {{false, 0}};
typedef struct { double pr, dop; } var_t;
/* the variance the solver gives a measurement, read off a uniform set of such measurements */
static inline var_t calibrate(navigation_measurement_t like) {
  rx_t r;
  rx_make(&r, 0, 1, 1);
  navigation_measurement_t m[7];
  constellation_t k = sid_to_constellation(like.sid);
  for (int i = 0; i < 7; i++) {
    u16 first = k == CONSTELLATION_SBAS ? 120 : k == CONSTELLATION_QZS ? 193 : k == CONSTELLATION_BDS ? 6 : 1;
    /* GLONASS wavelengths differ by channel: the variance in metres is that of the channel of `like` */
    meas_make(&m[i], &r, RX[0].lat, RX[0].lon, construct_sid(like.sid.code, (u16)(first + i)), POOL[i][0], POOL[i][1], 26.5e6, i);
    m[i].cn0 = like.cn0;
    m[i].elevation = like.elevation;
    m[i].lock_time = like.lock_time;
    m[i].flags = like.flags;
  }
  geo_t g;
  geometry(&g, m, 7, 0, &r, RX[0].lat, RX[0].lon);
  gnss_solution s;
  dops_t d;
  gps_time_t tor = {100000, 2100};
  memset(&s, 0, sizeof s);
  s8 rc = calc_PVT(7, m, &tor, true, false, &NOMASK, ALL_CONSTELLATIONS, &s, &d, NULL);
  mc_calls(1);
  var_t v = {NAN, NAN};
  if (rc == 2) {
    v.pr = (double)(s.err_cov[0] / g.H[0][0]);
    v.dop = (double)(s.vel_cov[0] / g.H[0][0]);
  }
  return v;
}
/* quality of a measurement: 0 good; weak, low, just acquired, without phase lock; 5 all of that */
#define NQUAL 6
static const struct { double cn0, el, lock; unsigned drop; } QUAL[NQUAL] = {
    {50, 60, 60, 0}, {22, 60, 60, 0}, {50, 4, 60, 0}, {50, 60, 0, 0}, {50, 60, 60, NAV_MEAS_FLAG_PHASE_VALID}, {22, 4, 0, NAV_MEAS_FLAG_PHASE_VALID}};
static inline void set_quality(navigation_measurement_t *m, int q) {
  m->cn0 = QUAL[q].cn0;
  m->elevation = QUAL[q].el;
  m->lock_time = QUAL[q].lock;
  m->flags &= (nav_meas_flags_t)~QUAL[q].drop;
}
static var_t BASE[CODE_COUNT][NQUAL];
static inline void init(void) {
  mc_quiet();
  slots_glo();
  for (int c = 0; c < CODE_COUNT; c++)
    for (int q = 0; q < NQUAL; q++) BASE[c][q].pr = -1;
}
static inline var_t base_var(const navigation_measurement_t *m) {
  int q = 0;
  for (int i = 0; i < NQUAL; i++)
    if (m->cn0 == QUAL[i].cn0 && m->elevation == QUAL[i].el && m->lock_time == QUAL[i].lock && !(m->flags & NAV_MEAS_FLAG_PHASE_VALID) == !!QUAL[i].drop) q = i;
  var_t *v = &BASE[m->sid.code][q];
  if (v->pr < 0) {
    navigation_measurement_t l = *m;
    l.flags = 0x37;
    set_quality(&l, q);
    *v = calibrate(l);
  }
  return *v;
}

#endif
