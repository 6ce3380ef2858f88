/* C32: the position solver on measurements of known geometry.
 * MC-flavours: san opt msan
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "pvt.h"

/* solve and compare. mask: which measurements the strategy is to use (all others are poisoned by the caller) */
/* a selection of the caller's own: the signals in CHOSEN */
static gnss_signal_t CHOSEN[PMAX];
static int nchosen = -1;
static bool chosen(gnss_signal_t sid, gnss_sid_set_t used, u8 n_states) {
  (void)used;
  if (n_states < 3) return false;
  for (int i = 0; i < nchosen; i++)
    if (CHOSEN[i].code == sid.code && CHOSEN[i].sat == sid.sat) return true;
  return false;
}
static void solve_check(const navigation_measurement_t *m, int n, uint64_t use, int p, const rx_t *r, enum processing_strategy_t strat, const obs_mask_config_t *mask, bool no_raim, bool no_vel, double tow, bool cov) {
  navigation_measurement_t u[PMAX], keep[PMAX];
  int k = 0;
  for (int i = 0; i < n; i++)
    if (use >> i & 1) u[k++] = m[i];
  memcpy(keep, m, sizeof(*m) * (size_t)n);
  geo_t g;
  double lat = RX[p].lat, lon = RX[p].lon;
  geometry(&g, u, k, 0, r, lat, lon);
  gnss_solution s;
  dops_t d;
  gnss_sid_set_t rem;
  memset(&s, 0x5a, sizeof s);
  s.valid = 1;
  s.velocity_valid = 1;
  memset(&d, 0x5a, sizeof d);
  sid_set_init(&rem);
  gps_time_t tor = {tow, 2100};
  s8 rc = nchosen >= 0 ? calc_PVT_pred((u8)n, m, &tor, no_raim, no_vel, mask, chosen, &s, &d, &rem) : calc_PVT((u8)n, m, &tor, no_raim, no_vel, mask, strat, &s, &d, &rem);
  mc_calls(1);
  MC_CHECK(!memcmp(keep, m, sizeof(*m) * (size_t)n), "input", "a measurement was modified");
  mc_outcome((uint64_t)(rc + 10) * 1000 + (uint64_t)(s.n_sats_used * 17 + s.n_sigs_used));
  if (g.satc < g.s) {
    MC_CHECK(rc == -7, "insufficient", "result %d with %d satellites for %d unknowns, expected -7", rc, g.satc, g.s);
    MC_CHECK(s.valid == 0, "valid_on_failure", "solution marked valid although the result is %d", rc);
    return;
  }
  bool vel_ok = !no_vel;
  for (int i = 0; i < k; i++)
    if (!(u[i].flags & NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) vel_ok = false;
  ld speed = sqrtl(r->vel[0] * r->vel[0] + r->vel[1] * r->vel[1] + r->vel[2] * r->vel[2]);
  if (rc < 0) {
    MC_CHECK(s.valid == 0, "valid_on_failure", "solution marked valid although the result is %d", rc);
    MC_CHECK(rc >= -7, "code", "unknown result %d", rc);
  }
  if (g.gdop > 20.001L) {
    MC_CHECK(rc < 0, "poor_geometry", "result %d although the dilution is %.6Lg", rc, g.gdop);
    if (k > g.s && g.gdop < 60) MC_CHECK(rc == -1, "poor_geometry", "result %d although the dilution is %.6Lg, expected -1", rc, g.gdop);
    return;
  }
  if (g.gdop > 19.999L) return;
  ld h = RX[p].h;
  if (h < -1000.01L || h > 1000000.01L) {
    MC_CHECK(rc == -2, "altitude", "result %d at a height of %.6Lg m, expected -2", rc, h);
    return;
  }
  if (vel_ok && speed > 514.5L) {
    MC_CHECK(rc == -3, "speed", "result %d at a speed of %.6Lg m/s, expected -3", rc, speed);
    return;
  }
  int want = no_raim || k == g.s ? 2 : 0;
  MC_CHECK(rc == want, "result", "result %d, expected %d (%d measurements, %d unknowns, dilution %.4Lg)", rc, want, k, g.s, g.gdop);
  if (rc != want) return;
  MC_CHECK(s.valid == 1 && s.velocity_valid == (vel_ok ? 1 : 0), "flags", "valid %d velocity valid %d, expected 1 and %d", s.valid, s.velocity_valid, (int)vel_ok);
  MC_CHECK(s.n_sigs_used == k && s.n_sats_used == g.satc, "counts", "%d signals of %d satellites, expected %d of %d", s.n_sigs_used, s.n_sats_used, k, g.satc);
  ld e = 0, ev = 0;
  for (int i = 0; i < 3; i++) {
    e += (s.pos_ecef[i] - r->pos[i]) * (s.pos_ecef[i] - r->pos[i]);
    ev += (s.vel_ecef[i] - (vel_ok ? r->vel[i] : 0)) * (s.vel_ecef[i] - (vel_ok ? r->vel[i] : 0));
  }
  ld tol = 0.002L * (1 + g.gdop), tolv = vel_ok ? 0.045L * (1 + g.gdop) : 0;
  MC_CHECK(sqrtl(e) <= tol, "position", "position is off by %.6Lg m (dilution %.4Lg)", sqrtl(e), g.gdop);
  MC_CHECK(sqrtl(ev) <= tolv, "velocity", "velocity is off by %.6Lg m/s (dilution %.4Lg)", sqrtl(ev), g.gdop);
  constellation_t c0 = sid_to_constellation(u[0].sid);
  ld clk = r->clk[c0] / CLIGHT, dr = vel_ok ? r->drift / CLIGHT : 0;
  MC_CHECK(fabsl(s.clock_offset - clk) * CLIGHT <= tol, "clock", "clock offset %.15g, expected %.15Lg", s.clock_offset, clk);
  MC_CHECK(fabsl(s.clock_drift - dr) * CLIGHT <= tolv, "drift", "clock drift %.15g, expected %.15Lg", s.clock_drift, dr);
  /* derived quantities, against the values reported */
  ld tt = 2100 * 604800.0L + (ld)tow - s.clock_offset, st = s.time.wn * 604800.0L + (ld)s.time.tow;
  MC_CHECK(fabsl(tt - st) <= 2e-9L && s.time.tow >= 0 && s.time.tow < 604800, "time", "solution time %d/%.12g", (int)s.time.wn, s.time.tow);
  ld N[3], E[3], U[3], q[3] = {0};
  rx_axes(lat, lon, N, E, U);
  for (int i = 0; i < 3; i++) {
    q[0] += N[i] * s.vel_ecef[i];
    q[1] += E[i] * s.vel_ecef[i];
    q[2] -= U[i] * s.vel_ecef[i];
  }
  for (int i = 0; i < 3; i++) MC_CHECK(fabsl(q[i] - s.vel_ned[i]) <= 1e-4L + 1e-7L * tol * speed, "ned", "north-east-down velocity %d is %.12g, expected %.12Lg", i, s.vel_ned[i], q[i]);
  ld deg = acosl(-1.0L) / 180, R = 6.4e6L;
  ld dlon = remainderl(s.pos_llh[1] - lon * deg, 360 * deg) * cosl(lat * deg);
  MC_CHECK(fabsl(s.pos_llh[0] - lat * deg) * R <= 2 * tol && fabsl(dlon) * R <= 2 * tol && fabsl(s.pos_llh[2] - h) <= 2 * tol, "geodetic", "geodetic position %.12g %.12g %.12g", s.pos_llh[0], s.pos_llh[1], s.pos_llh[2]);
  const ld gd[5] = {g.pdop, g.gdop, g.tdop, g.hdop, g.vdop};
  const double sd[5] = {d.pdop, d.gdop, d.tdop, d.hdop, d.vdop};
  static const char *NAME[5] = {"pdop", "gdop", "tdop", "hdop", "vdop"};
  for (int i = 0; i < 5; i++) MC_CHECK(fabsl(gd[i] - sd[i]) <= 1e-4L * gd[1], NAME[i], "%s %.9g, expected %.9Lg", NAME[i], sd[i], gd[i]);
  MC_CHECK(s.err_cov[6] == d.gdop && (!vel_ok || s.vel_cov[6] == d.gdop), "cov_dop", "dilution in the covariance %.9g %.9g, expected %.9g", s.err_cov[6], s.vel_cov[6], d.gdop);
  if (!cov) return;
  for (int vel = 0; vel < 1 + vel_ok; vel++) {
    ld A[9][9] = {{0}}, X[9][9];
    for (int i = 0; i < k; i++) {
      var_t v = base_var(&u[i]);
      ld f = vel ? v.dop : v.pr;
      if (vel && sid_to_constellation(u[i].sid) == CONSTELLATION_GLO) return; /* wavelength differs by channel */
      for (int a = 0; a < g.s; a++)
        for (int b = 0; b < g.s; b++) A[a][b] += g.G[i][a] * g.G[i][b] / f;
    }
    if (!ld_inverse(g.s, A, X)) return;
    ld w[7] = {X[0][0], X[0][1], X[0][2], X[1][1], X[1][2], X[2][2], X[3][3]};
    ld t = X[0][0] + X[1][1] + X[2][2] + X[3][3];
    for (int i = 0; i < 7; i++) {
      ld got = i < 6 ? (vel ? s.vel_cov[i] : s.err_cov[i]) : (vel ? s.clock_drift_var : s.clock_offset_var) * CLIGHT * CLIGHT;
      MC_CHECK(fabsl(got - w[i]) <= 1e-3L * t, vel ? "velocity_cov" : "position_cov", "element %d is %.9Lg, expected %.9Lg", i, got, w[i]);
    }
  }
}
static int popc(unsigned x) { return __builtin_popcount(x); }
static int build(navigation_measurement_t *m, const rx_t *r, int p, int mix, unsigned set, double orbit) {
  int n = 0;
  for (int i = 0; i < 12; i++)
    if (set >> i & 1) meas_make(&m[n++], r, RX[p].lat, RX[p].lon, slot_sid(mix, i), POOL[i][0], POOL[i][1], orbit, i);
  return n;
}
static void subsets(void) {
  init();
  int max = 12;
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int c = popc(set);
      if (c > max) continue;
      idx++;
      for (int cf = 0; cf < (mc_thorough() ? 84 : 8); cf++) {
        if (!mc_mine()) continue;
        int q = mc_thorough() ? cf : (int)((idx * 7 + (unsigned)cf * 31) % 84);
        int p = q % 7, v = q / 7 % 3, ck = q / 21;
        MC_POINT("mix %d satellites %x receiver %d velocity %d clock %d", mix, set, p, v, ck);
        rx_t r;
        rx_make(&r, p, v, ck);
        navigation_measurement_t m[PMAX];
        int n = build(m, &r, p, mix, set, ck & 1 ? 26.5e6 : 42.1e6);
        for (int o = 0; o < 4; o++) solve_check(m, n, (1u << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, o & 1, o >> 1 & 1, 100000 + ck, true);
      }
    }
}
/* every order of six measurements */
static void orders(void) {
  init();
  static const struct { int mix; unsigned set; } S[] = {{0, 0x03f}, {1, 0x0f3}, {2, 0x18f}, {2, 0x587}, {5, 0x39c}, {7, 0xf11 & 0xfff}};
  int fact[7] = {1, 1, 2, 6, 24, 120, 720};
  for (int s = 0; s < 6; s++)
    for (int pm = 0; pm < 720; pm++) {
      if (!mc_mine()) continue;
      MC_POINT("set %d order %d", s, pm);
      rx_t r;
      int p = s % 5;
      rx_make(&r, p, 2, 2);
      navigation_measurement_t m[PMAX], o[6];
      int n = build(m, &r, p, S[s].mix, S[s].set, 26.5e6), left[6] = {0, 1, 2, 3, 4, 5}, x = pm;
      if (n > 6) n = 6;
      for (int i = 0; i < n; i++) {
        int j = x / fact[5 - i];
        x %= fact[5 - i];
        o[i] = m[left[j]];
        memmove(left + j, left + j + 1, sizeof(int) * (size_t)(5 - j));
      }
      for (int q = 0; q < 4; q++) solve_check(o, n, (1u << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, q & 1, q >> 1, 300000, true);
    }
}
/* which measurements a strategy and the signal strength mask let in; the others carry gross errors */
static unsigned selected(const navigation_measurement_t *m, int n, enum processing_strategy_t st, bool mask, double thr) {
  unsigned use = 0;
  int states = 3, map[CONSTELLATION_COUNT] = {0};
  for (int i = 0; i < n; i++) {
    code_t c = m[i].sid.code;
    constellation_t k = sid_to_constellation(m[i].sid);
    bool in = true, newsat = true;
    int sats = 0;
    for (int j = 0; j < i; j++) {
      if (!(use >> j & 1)) continue;
      bool first = true;
      for (int l = 0; l < j; l++)
        if ((use >> l & 1) && m[l].sid.sat == m[j].sid.sat && sid_to_constellation(m[l].sid) == sid_to_constellation(m[j].sid)) first = false;
      sats += first;
      if (m[j].sid.sat == m[i].sid.sat && sid_to_constellation(m[j].sid) == k) newsat = false;
    }
    if (st == GPS_ONLY) in = k == CONSTELLATION_GPS;
    if (st == L1_ONLY) in = c == CODE_GPS_L1CA || c == CODE_GAL_E1B;
    if (st == GPS_L1CA_WHEN_POSSIBLE) in = c == CODE_GPS_L1CA || (newsat && sats <= states + 2);
    if (mask && !(m[i].cn0 > thr)) in = false;
    if (!in) continue;
    use |= 1u << i;
    if (!map[k]) { map[k] = 1; states++; }
  }
  return use;
}
static void strategies(void) {
  init();
  static const enum processing_strategy_t ST[4] = {GPS_ONLY, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY};
  /* three groups: satellites of GPS L1CA, other GPS signals of the same or of other satellites, other constellations */
  for (int st = 0; st < 4; st++)
    for (int lay = 0; lay < 8; lay++)
      for (int nl = 0; nl <= 6; nl++)
        for (int nx = 0; nx <= 4; nx++)
          for (int ny = 0; ny <= 4; ny++)
            for (int mk = 0; mk < 4; mk++) {
              if (!mc_mine()) continue;
              MC_POINT("strategy %d layout %d, %d L1CA, %d other GPS, %d others, mask %d", st, lay, nl, nx, ny, mk);
              rx_t r;
              int p = (nl + nx) % 5;
              rx_make(&r, p, 1, 1 + lay % 3);
              navigation_measurement_t m[PMAX], t;
              int n = 0;
              for (int i = 0; i < nl; i++) meas_make(&m[n++], &r, RX[p].lat, RX[p].lon, construct_sid(CODE_GPS_L1CA, (u16)(1 + i)), POOL[i][0], POOL[i][1], 26.5e6, i);
              for (int i = 0; i < nx; i++) {
                int d = lay & 1 ? i : 11 - i; /* second signals of the same satellites, or other satellites */
                static const code_t X[4] = {CODE_GPS_L2CM, CODE_GPS_L5Q, CODE_GPS_L1P, CODE_GPS_L2CL};
                meas_make(&m[n++], &r, RX[p].lat, RX[p].lon, construct_sid(X[i], (u16)(lay & 1 ? 1 + i : 20 + i)), POOL[d][0], POOL[d][1], 26.5e6, d);
              }
              for (int i = 0; i < ny; i++) {
                static const code_t Y[4][4] = {{CODE_GAL_E1B, CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E1C}, {CODE_GLO_L1OF, CODE_GAL_E1B, CODE_GLO_L1OF, CODE_GAL_E1B}, {CODE_GAL_E1B, CODE_BDS2_B1, CODE_BDS2_B1, CODE_GAL_E5Q}, {CODE_QZS_L1CA, CODE_BDS3_B1CI, CODE_GAL_E1X, CODE_QZS_L1CA}};
                int d = 6 + i;
                meas_make(&m[n++], &r, RX[p].lat, RX[p].lon, construct_sid(Y[lay / 2][i], (u16)(lay / 2 == 0 && i == 3 ? 6 : Y[lay / 2][i] == CODE_QZS_L1CA ? 193 + i : 6 + i)), POOL[d][0], POOL[d][1], 26.5e6, d);
              }
              if (lay == 2 || lay == 5)
                for (int i = 0; i < n / 2; i++) { t = m[i]; m[i] = m[n - 1 - i]; m[n - 1 - i] = t; }
              static const float THR[4] = {40, 40.25f, 39.75f, 29.5f};
              obs_mask_config_t cfg = {{mk > 0, THR[mk]}};
              if (mk == 1) for (int i = 0; i < n; i++) m[i].cn0 = 40.5;
              if (mk == 2) for (int i = 0; i < n; i += 3) m[i].cn0 = 39.625;
              if (mk == 3) for (int i = 0; i < n; i++) m[i].cn0 = i % 2 ? 29.25 : 55;
              unsigned use = selected(m, n, ST[st], mk > 0, THR[mk]);
              for (int i = 0; i < n; i++)
                if (!(use >> i & 1)) { m[i].raw_pseudorange += 5000.0 * (1 + i % 3); m[i].raw_measured_doppler -= 900; }
              if (!n) continue;
              for (int q = 0; q < 4; q++) solve_check(m, n, use, p, &r, ST[st], &cfg, q & 1, q >> 1, 500000, false);
            }
}
/* selections of the caller's own: every subset of the measurements given */
static void predicates(void) {
  init();
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      if (__builtin_popcount(set) != 8) continue;
      if (!mc_thorough() && idx++ % 16) continue;
      for (unsigned use = 0; use < 256; use++) {
        if (!mc_mine()) continue;
        int p = (int)((set + use) % 5), n = 0;
        MC_POINT("mix %d satellites %x, selection %x, receiver %d", mix, set, use, p);
        rx_t r;
        rx_make(&r, p, 1, 2);
        navigation_measurement_t m[PMAX];
        for (int i = 0; i < 12; i++)
          if (set >> i & 1) meas_make(&m[n++], &r, RX[p].lat, RX[p].lon, slot_sid(mix, i), POOL[i][0], POOL[i][1], 26.5e6, i);
        nchosen = 0;
        uint64_t got = 0;
        for (int i = 0; i < n; i++)
          if (use >> i & 1) CHOSEN[nchosen++] = m[i].sid, got |= 1ull << i;
          else m[i].raw_pseudorange += 4000.0 * (1 + i % 3), m[i].raw_measured_doppler += 700;
        solve_check(m, n, got, p, &r, ALL_CONSTELLATIONS, &NOMASK, use & 1, use >> 1 & 1, 300000, false);
        nchosen = -1;
      }
    }
}
/* heights and speeds around the limits, week boundaries */
static void limits(void) {
  init();
  static const double H[] = {-50000, -1100, -1001, -999, -500, 0, 999000, 999999, 1000001, 1100000, 3e6};
  static const double V[] = {0, 100, 513, 514.2, 514.8, 516, 900, 7000};
  static const double T[] = {0, 0.0005, 0.001, 604799.9999, 302400};
  for (int p = 0; p < 6; p++)
    for (int h = 0; h < 11; h++)
      for (int v = 0; v < 8; v++)
        for (int a = 0; a < 3; a++)
          for (int t = 0; t < 5; t++) {
            if (!mc_mine()) continue;
            MC_POINT("receiver %d height %g speed %g axis %d time %g", p, MC_D(H[h]), MC_D(V[v]), a, MC_D(T[t]));
            rx_t r;
            rx_make(&r, p, 0, 1 + t % 3);
            rx_place(&r, RX[p].lat, RX[p].lon, H[h]);
            r.vel[a] = V[v];
            navigation_measurement_t m[PMAX];
            int n = build(m, &r, p, t % 2, 0x3ff, 26.5e6);
            geo_t g;
            geometry(&g, m, n, 0, &r, RX[p].lat, RX[p].lon);
            for (int q = 0; q < 4; q++) {
              bool nr = q & 1, nv = q >> 1;
              gnss_solution s;
              dops_t d;
              memset(&s, 0x5a, sizeof s);
              s.valid = s.velocity_valid = 1;
              gps_time_t tor = {T[t], 2100};
              s8 rc = calc_PVT((u8)n, m, &tor, nr, nv, &NOMASK, ALL_CONSTELLATIONS, &s, &d, NULL);
              mc_calls(1);
              int want = H[h] < -1000 || H[h] > 1e6 ? -2 : !nv && V[v] > 514.444 ? -3 : nr ? 2 : 0;
              MC_CHECK(rc == want, "limits", "result %d, expected %d", rc, want);
              MC_CHECK(s.valid == (want >= 0) && s.velocity_valid == (want >= 0 && !nv), "limit_flags", "valid %d velocity valid %d for result %d", s.valid, s.velocity_valid, rc);
              if (rc >= 0) {
                ld tt = (T[t] - s.clock_offset);
                ld st = (s.time.wn - 2100) * 604800.0L + (ld)s.time.tow;
                MC_CHECK(fabsl(tt - st) < 2e-9L && s.time.tow >= 0 && s.time.tow < 604800, "time", "solution time %d/%.12g for reception at %.12g and offset %.12g", (int)s.time.wn, s.time.tow, T[t], s.clock_offset);
              }
              mc_outcome((uint64_t)(rc + 20));
            }
          }
}
/* Doppler missing from some measurements: no velocity, and no mark that there is one */
static void doppler(void) {
  init();
  for (int mix = 0; mix < 3; mix++)
    for (int n = 5; n <= 9; n++)
      for (unsigned lack = 1; lack < 1u << n; lack++) {
        if (!mc_mine()) continue;
        MC_POINT("mix %d, %d measurements, no measured Doppler in %x", mix, n, lack);
        rx_t r;
        int p = n % 5;
        rx_make(&r, p, 2, 1);
        navigation_measurement_t m[PMAX];
        n = build(m, &r, p, mix, (1u << n) - 1, 26.5e6);
        for (int i = 0; i < n; i++)
          if (lack >> i & 1) {
            m[i].flags = (nav_meas_flags_t)((m[i].flags & ~NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) | NAV_MEAS_FLAG_COMP_DOPPLER_VALID);
            m[i].raw_measured_doppler = 0;
          }
        for (int q = 0; q < 4; q++) solve_check(m, n, (1u << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, q & 1, q >> 1, 500000, false);
      }
}
/* worse measurements are never trusted more */
static const double CN0[] = {5, 20, 30, 35, 40, 45, 50, 55, 60};
static const double EL[] = {-30, -1, 0, 1, 5, 10, 20, 40, 60, 90};
static const double LT[] = {0, 0.5, 1, 2, 3.9, 4, 5, 1000};
static void noise(void) {
  init();
  static const code_t C[] = {CODE_GPS_L1CA, CODE_GPS_L1P, CODE_GPS_L2CM, CODE_GPS_L2CL, CODE_GPS_L2CX, CODE_GPS_L2P, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X, CODE_BDS3_B5I, CODE_BDS3_B5Q, CODE_BDS3_B5X, CODE_BDS3_B7I, CODE_BDS3_B7Q, CODE_BDS3_B7X, CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E1X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X, CODE_QZS_L1CA, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X};
  for (int c = 0; c < (int)(sizeof C / sizeof *C); c++)
    for (int a = 0; a < 9; a++)
      for (int b = 0; b < 10; b++)
        for (int l = 0; l < 8; l++)
          for (int ph = 0; ph < 2; ph++) {
            if (!mc_mine()) continue;
            MC_POINT("code %d strength %g elevation %g lock %g phase %d", (int)C[c], MC_D(CN0[a]), MC_D(EL[b]), MC_D(LT[l]), ph);
            navigation_measurement_t x = {.sid = construct_sid(C[c], 7), .cn0 = CN0[a], .elevation = EL[b], .lock_time = LT[l], .flags = (nav_meas_flags_t)(ph ? 0x37 : 0x35)};
            var_t v = calibrate(x);
            MC_CHECK(v.pr > 0 && v.dop > 0, "variance", "variances %.9g and %.9g", v.pr, v.dop);
            navigation_measurement_t y = x;
            if (a + 1 < 9) {
              y.cn0 = CN0[a + 1];
              var_t w = calibrate(y);
              MC_CHECK(w.pr <= v.pr * (1 + 1e-6) && w.dop <= v.dop * (1 + 1e-6) && (CN0[a] > 40 || (w.pr < v.pr && w.dop < v.dop)), "strength", "variances %.9g and %.9g, at the next strength %.9g and %.9g", v.pr, v.dop, w.pr, w.dop);
              y = x;
            }
            if (b + 1 < 10) {
              y.elevation = EL[b + 1];
              var_t w = calibrate(y);
              MC_CHECK(w.pr <= v.pr * (1 + 1e-6) && (EL[b] >= 20 || EL[b] < 0 || w.pr < v.pr), "elevation", "variance %.9g, at the next elevation %.9g", v.pr, w.pr);
              y = x;
            }
            if (l + 1 < 8) {
              y.lock_time = LT[l + 1];
              var_t w = calibrate(y);
              MC_CHECK(w.pr <= v.pr * (1 + 1e-6) && w.dop <= v.dop * (1 + 1e-6) && (LT[l] >= 4 || (w.pr < v.pr && w.dop < v.dop)), "lock", "variances %.9g and %.9g, at the next lock time %.9g and %.9g", v.pr, v.dop, w.pr, w.dop);
              y = x;
            }
            if (!ph) {
              y.flags = 0x37;
              var_t w = calibrate(y);
              MC_CHECK(w.pr < v.pr && w.dop < v.dop, "phase", "variances %.9g and %.9g without phase lock, %.9g and %.9g with", v.pr, v.dop, w.pr, w.dop);
            }
            mc_outcome((uint64_t)(v.pr * 1000));
          }
}
/* singular and nearly singular arrangements are refused, never solved */
static void many(void) {
  init();
  if (mc_mine()) {
    MC_POINT("capacity and error strings");
    MC_CHECK(get_max_channels() == PMAX - 1, "capacity", "%d channels", get_max_channels());
    for (int i = 0; i < 7; i++)
      for (int j = 0; j < i; j++) MC_CHECK(pvt_err_msg[i] && pvt_err_msg[j] && strcmp(pvt_err_msg[i], pvt_err_msg[j]), "messages", "results %d and %d share a message", -1 - i, -1 - j);
  }
  for (int lay = 0; lay < NLAY; lay++)
    for (int n = 10; n < PMAX; n++)
      for (int p = 0; p < 7; p++)
        for (int v = 0; v < 3; v++) {
          if (!mc_mine()) continue;
          MC_POINT("layout %d, %d measurements, receiver %d velocity %d", lay, n, p, v);
          rx_t r;
          rx_make(&r, p, v, 1 + n % 3);
          navigation_measurement_t *m = malloc(sizeof *m * (size_t)n);
          MC_CHECK(many_make(m, &r, p, lay, n) == n, "setup", "layout");
          for (int o = 0; o < 4; o++) solve_check(m, n, (1ull << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, o & 1, o >> 1 & 1, 200000, true);
          free(m);
        }
}
/* solutions one after another: nothing of one reaches the next */
#define NSCEN 108
static void scenario(int i, int o) {
  static const int MIXES[3] = {0, 3, 8};
  int p = i % 9, mix = MIXES[i / 9 % 3], v = i / 54;
  unsigned set = i / 27 % 2 ? 0x7d6 : 0xfff;
  rx_t r;
  rx_make(&r, p, v ? 2 : 0, v ? 1 : 2);
  navigation_measurement_t m[PMAX];
  int n = build(m, &r, p, mix, set, 26.5e6);
  solve_check(m, n, (1u << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, o & 1, o >> 1 & 1, 100000, true);
}
static void history(void) {
  init();
  for (int a = 0; a < NSCEN; a++)
    for (int b = 0; b < NSCEN; b++)
      for (int o = 0; o < (mc_thorough() ? 16 : 1); o++) {
        if (!mc_mine()) continue;
        int x = mc_thorough() ? o : (a * 5 + b) % 16;
        MC_POINT("scenarios %d, %d, %d, options %x", a, b, a, x);
        scenario(a, x);
        scenario(b, x >> 2);
        scenario(a, x);
        mc_history();
      }
}
static void singular(void) {
  init();
  for (int kind = 0; kind < 5; kind++)
    for (int n = 4; n <= 10; n++)
      for (int mix = 0; mix < 9; mix++)
        for (int p = 0; p < 7; p++) {
          if (!mc_mine()) continue;
          MC_POINT("arrangement %d of %d satellites, mix %d receiver %d", kind, n, mix, p);
          rx_t r;
          rx_make(&r, p, 1, 2);
          navigation_measurement_t m[PMAX];
          for (int i = 0; i < n; i++) {
            double az = 0, el = 50;
            if (kind == 0) az = 77;                                  /* one direction */
            if (kind == 1) az = 33, el = 20 + 6 * i;                 /* one vertical plane */
            if (kind == 2) az = 360.0 * i / n;                       /* one cone */
            if (kind == 3) az = i & 1 ? 10 : 200, el = 40;           /* two directions */
            if (kind == 4) az = 100 + 0.05 * i, el = 45 + 0.03 * i * i; /* nearly one direction */
            meas_make(&m[i], &r, RX[p].lat, RX[p].lon, slot_sid(mix, i), az, el, 26.5e6, i);
          }
          for (int q = 0; q < 4; q++) solve_check(m, n, (1u << n) - 1, p, &r, ALL_CONSTELLATIONS, &NOMASK, q & 1, q >> 1, 12345, false);
        }
}
MC_SPACES({"subsets", "9 signal mixes over 12 directions x every set of satellites x residual check on/off x velocity on/off, each with 8 of the 84 combinations of receiver, motion and clock (thorough: all)", subsets, 0},
          {"orders", "6 sets of 6 measurements x all 720 orders x residual check and velocity on/off", orders, 0},
          {"strategies", "4 strategies x 6 layouts x 0-6 L1CA, 0-4 other GPS, 0-4 other measurements x 4 signal-strength masks, unselected ones carrying gross errors", strategies, 0},
          {"predicates", "every set of 8 satellites (quick: every 16th) of 9 mixes x every subset chosen by a predicate of the caller, with the others wrong", predicates, 0},
          {"limits", "6 receivers x 11 heights x 8 speeds along each axis x 5 times of week", limits, 0},
          {"doppler", "3 mixes x 5-9 measurements x every non-empty set of them lacking a measured Doppler", doppler, 0},
          {"noise", "41 codes x 9 strengths x 10 elevations x 8 lock times x phase lock or not, each against its neighbour", noise, 0},
          {"singular", "5 degenerate arrangements x 4-10 satellites x 9 mixes x 7 receivers", singular, 0},
          {"many", "4 layouts of 10-63 measurements, up to 5 signals of each satellite and 6 constellations x 7 receivers x 3 velocities x residual check and velocity on/off", many, 0},
          {"history", "every pair (first, second) of 108 scenarios (9 receivers x 3 mixes x 2 sets x 2 motions): first, second, first again; residual check and velocity on/off (quick: one combination, thorough: all)", history, 0})
