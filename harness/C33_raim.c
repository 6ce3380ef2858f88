/* C33: residual check and exclusion of faulty measurements.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "pvt.h"

static int build(navigation_measurement_t *m, const rx_t *r, int p, int mix, unsigned set) {
  int n = 0;
  for (int i = 0; i < 12; i++)
    if (set >> i & 1) meas_make(&m[n++], r, RX[p].lat, RX[p].lon, slot_sid(mix, i), POOL[i][0], POOL[i][1], 26.5e6, i);
  return n;
}
/* length of the weighted residual vector that the faults f leave when the measurements in skip are left out:
 * the solver cannot absorb that part in any position and clock. dop: faults are in range rate */
typedef struct { ld norm, gdop, shift, amp; bool ok; int satc; } par_t; /* amp: largest growth of errors into the solution (weighted dilution) */
static par_t parity(const navigation_measurement_t *m, const var_t *v, int n, uint64_t skip, const ld *f, bool dop, const rx_t *r, int p) {
  geo_t g;
  par_t o = {0, INFINITY, 0, INFINITY, false, 0};
  geometry(&g, m, n, skip, r, RX[p].lat, RX[p].lon);
  o.satc = g.satc - 0;
  if (!g.solvable) return o;
  o.gdop = g.gdop;
  ld A[9][9] = {{0}}, X[9][9], b[9] = {0}, x[9] = {0};
  for (int i = 0; i < n; i++) {
    if (skip >> i & 1) continue;
    ld w = 1 / (ld)(dop ? v[i].dop : v[i].pr);
    for (int a = 0; a < g.s; a++) {
      b[a] += g.G[i][a] * w * f[i];
      for (int c = 0; c < g.s; c++) A[a][c] += g.G[i][a] * w * g.G[i][c];
    }
  }
  if (!ld_inverse(g.s, A, X)) return o;
  for (int a = 0; a < g.s; a++)
    for (int c = 0; c < g.s; c++) x[a] += X[a][c] * b[c];
  ld q = 0;
  for (int i = 0; i < n; i++) {
    if (skip >> i & 1) continue;
    ld e = f[i];
    for (int a = 0; a < 3; a++) e -= g.G[i][a] * x[a];
    e -= x[dop ? 3 : g.col[i]]; /* one oscillator: rates are predicted with one drift for all */
    q += e * e / (ld)(dop ? v[i].dop : v[i].pr);
  }
  o.amp = 0;
  for (int i = 0; i < n; i++)
    for (int a = 0; a < g.s && !(skip >> i & 1); a++) {
      ld t = 0;
      for (int c = 0; c < g.s; c++) t += X[a][c] * g.G[i][c] / (ld)(dop ? v[i].dop : v[i].pr);
      o.amp += t * t;
    }
  o.amp = sqrtl(o.amp);
  o.norm = sqrtl(q);
  o.shift = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
  o.ok = true;
  return o;
}
#define CLEAR 60.0L /* far above any threshold of a few sigma per measurement */
#define QUIET 1.0L  /* far below */

/* curvature of the range: what a displaced solution adds to the residuals, in metres */
static ld bend(ld shift) { return shift * shift / 3.5e7L; }

static void check_fault(const navigation_measurement_t *clean, int n, const ld *f, bool dop, const rx_t *r, int p, bool no_vel, bool ask) {
  navigation_measurement_t m[PMAX];
  var_t v[PMAX];
  memcpy(m, clean, sizeof(*m) * (size_t)n);
  uint64_t bad = 0;
  for (int i = 0; i < n; i++) {
    v[i] = base_var(&clean[i]);
    if (f[i] == 0) continue;
    bad |= 1ull << i;
    if (dop) m[i].raw_measured_doppler -= (double)(f[i] * (ld)sid_to_carr_freq(m[i].sid) / CLIGHT);
    else m[i].raw_pseudorange += (double)f[i];
  }
  geo_t g;
  geometry(&g, clean, n, 0, r, RX[p].lat, RX[p].lon);
  gps_time_t tor = {100000, 2100};
  gnss_solution s;
  dops_t d;
  gnss_sid_set_t rem;
  /* without the check: solved and reported as unchecked */
  memset(&s, 0, sizeof s);
  sid_set_init(&rem);
  bool sane = g.satc >= g.s && g.gdop < 15;
  par_t full = parity(clean, v, n, 0, f, dop, r, p);
  ld smin = 0.4L;
  if (full.amp > 30) sane = false; /* weights that leave hardly any geometry: Newton from the centre of the earth need not arrive */
  if (sane && full.shift < 20000 && !dop) {
    s8 rc = calc_PVT((u8)n, m, &tor, true, no_vel, &NOMASK, ALL_CONSTELLATIONS, &s, &d, &rem);
    mc_calls(1);
    if (full.shift < 600) MC_CHECK(rc == 2 && s.valid == 1 && s.n_sigs_used == n, "unchecked", "result %d valid %d with %d signals without the check", rc, s.valid, s.n_sigs_used);
    else MC_CHECK(rc == 2 || rc == -2, "unchecked", "result %d without the check", rc);
  }
  memset(&s, 0, sizeof s);
  s.valid = 1;
  s8 rc = calc_PVT((u8)n, m, &tor, false, no_vel, &NOMASK, ALL_CONSTELLATIONS, &s, &d, ask ? &rem : NULL);
  mc_calls(1);
  int nrem = 0;
  uint64_t out = 0;
  if (rc == 1 && ask)
    for (int i = 0; i < n; i++)
      if (sid_set_contains(&rem, m[i].sid)) { out |= 1ull << i; nrem++; }
  mc_outcome((uint64_t)(rc + 10) * 100000 + out);
  if (rc < 0) MC_CHECK(s.valid == 0, "valid_on_failure", "solution marked valid although the result is %d", rc);
  else MC_CHECK(s.valid == 1, "valid", "solution not marked valid although the result is %d", rc);
  if (rc == 1 && ask) {
    MC_CHECK(nrem > 0 && (int)sid_set_get_sig_count(&rem) == nrem, "removed", "repaired, but %d of the %d removed signals were among the measurements", nrem, (int)sid_set_get_sig_count(&rem));
    MC_CHECK(s.n_sigs_used == n - nrem, "counts", "%d signals used of %d with %d removed", s.n_sigs_used, n, nrem);
    geo_t h;
    geometry(&h, clean, n, out, r, RX[p].lat, RX[p].lon);
    MC_CHECK(s.n_sats_used == h.satc, "counts", "%d satellites used, expected %d", s.n_sats_used, h.satc);
  }
  if (!sane || !full.ok) return;
  ld nl = bend(full.shift) / smin * sqrtl(n);
  /* whatever is accepted fits: the faults left in would otherwise stand out */
  if (rc == 0) MC_CHECK(full.norm < CLEAR + nl, "accepted", "residuals of %.6Lg sigma were accepted", full.norm);
  if (rc == 1 && ask) {
    par_t left = parity(clean, v, n, out, f, dop, r, p);
    if (left.ok && left.gdop < 15) MC_CHECK(left.norm < CLEAR + bend(left.shift) / smin * sqrtl(n), "repair_left", "residuals of %.6Lg sigma are left after the repair", left.norm);
  }
  if (n == g.s) {
    if (full.shift < 600 || dop) MC_CHECK(rc == 2 || (dop && rc == -3), "no_redundancy", "result %d without redundancy, expected 2", rc);
    return;
  }
  if (full.norm + nl < QUIET) {
    MC_CHECK(rc == 0 || (rc == -2 && full.shift > 600), "false_alarm", "result %d although the residuals are %.6Lg sigma", rc, full.norm);
    return;
  }
  if (full.norm < CLEAR || (!dop && full.norm < 10 * nl)) return;
  if (n <= g.s + 1) {
    MC_CHECK(rc == -4 || rc == -5, "unrepairable", "result %d although one measurement cannot be spared", rc);
    return;
  }
  if (__builtin_popcountll(bad) != 1) {
    MC_CHECK(rc == 1 || rc < 0, "undetected", "result %d with residuals of %.6Lg sigma", rc, full.norm);
    return;
  }
  par_t fixed = parity(clean, v, n, bad, f, dop, r, p);
  if (!fixed.ok || fixed.gdop > 15 || fixed.amp > 30 || fixed.satc < g.s) return;
  for (int j = 0; j < n; j++) {
    if (bad >> j & 1) continue;
    par_t o = parity(clean, v, n, 1ull << j, f, dop, r, p);
    if (!o.ok) continue; /* cannot be left out */
    ld onl = bend(o.shift) / smin * sqrtl(n);
    if (o.norm < 4 || (!dop && o.norm < 10 * onl)) return; /* leaving this one out explains the residuals about as well */
    if (o.satc < g.s) continue;
  }
  MC_CHECK(rc == 1, "not_repaired", "result %d, expected a repair (residuals %.6Lg sigma, %d measurements, %d unknowns)", rc, full.norm, n, g.s);
  if (rc != 1) return;
  if (ask) MC_CHECK(out == bad, "wrong_exclusion", "removed %llx, the faulty one is %llx", (unsigned long long)out, (unsigned long long)bad);
  MC_CHECK(s.n_sigs_used == n - 1, "counts", "%d signals used of %d with one faulty", s.n_sigs_used, n);
  ld e = 0, ev = 0;
  for (int i = 0; i < 3; i++) {
    e += (s.pos_ecef[i] - r->pos[i]) * (s.pos_ecef[i] - r->pos[i]);
    ev += (s.vel_ecef[i] - r->vel[i]) * (s.vel_ecef[i] - r->vel[i]);
  }
  par_t pa = dop ? parity(clean, v, n, bad, f, false, r, p) : fixed, va = dop ? fixed : parity(clean, v, n, bad, f, true, r, p);
  MC_CHECK(sqrtl(e) <= 0.003L * (1 + pa.amp), "position", "repaired position is off by %.6Lg m (dilution %.4Lg)", sqrtl(e), pa.amp);
  if (!no_vel) MC_CHECK(s.velocity_valid == 1 && sqrtl(ev) <= 0.06L * (1 + va.amp), "velocity", "repaired velocity is off by %.6Lg m/s (dilution %.4Lg)", sqrtl(ev), va.amp);
}
/* quick: every k-th set; the instrumented build takes a third of those, and a
 * fifth of what is complete in the optimised one when thorough */
#ifdef MC_SAN
#define LEAN 3
#define DEEP 5
#else
#define LEAN 1
#define DEEP 1
#endif
static bool lean(unsigned idx, unsigned k) { return mc_thorough() ? idx % DEEP : idx % (k * LEAN); }
static const ld RANGE[] = {250, -1000, 6000, -30000, -250, 1000, -6000, 30000, 0.05L, 120000, -120000};
static const ld RATE[] = {90, -900, -90, 900, 8000};
static void single(void) {
  init();
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int n = __builtin_popcount(set);
      if (n < 4 || (!mc_thorough() && n > 10)) continue;
      idx++;
      if (lean(idx, 2)) continue;
      for (int b = 0; b < n; b++)
        for (int k = 0; k < (mc_thorough() ? 11 : 2); k++) {
          if (!mc_mine()) continue;
          int a = mc_thorough() ? k : k == 0 ? (int)(idx + (unsigned)b) % 4 : 4 + (int)(idx * 5 + (unsigned)b * 3) % 7;
          int p = (int)((idx + (unsigned)b) % 5), vv = (int)(idx % 3), ck = (int)((idx / 3) % 4);
          MC_POINT("mix %d satellites %x, measurement %d wrong by %g m, receiver %d", mix, set, b, MC_D((double)RANGE[a]), p);
          rx_t r;
          rx_make(&r, p, vv, ck);
          navigation_measurement_t m[PMAX];
          build(m, &r, p, mix, set);
          ld f[PMAX] = {0};
          f[b] = RANGE[a];
          for (int q = 0; q < 2; q++) check_fault(m, n, f, false, &r, p, q, (idx + (unsigned)b) % 7 != 0);
        }
    }
}
static void rates(void) {
  init();
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int n = __builtin_popcount(set);
      if (n < 4 || (!mc_thorough() && n > 9)) continue;
      idx++;
      if (lean(idx, 2)) continue;
      for (int b = 0; b < n; b++)
        for (int k = 0; k < (mc_thorough() ? 5 : 1); k++) {
          if (!mc_mine()) continue;
          int a = mc_thorough() ? k : (int)((idx + 3 * (unsigned)b) % 5);
          int p = (int)((idx + (unsigned)b) % 5);
          MC_POINT("mix %d satellites %x, Doppler %d wrong by %g m/s, receiver %d", mix, set, b, MC_D((double)RATE[a]), p);
          rx_t r;
          rx_make(&r, p, (int)(idx % 3), 1);
          navigation_measurement_t m[PMAX];
          build(m, &r, p, mix, set);
          ld f[PMAX] = {0};
          f[b] = RATE[a];
          check_fault(m, n, f, true, &r, p, false, true);
        }
    }
}
/* several signals of each satellite, one of them faulty */
static void dual(void) {
  init();
  static const code_t SIG[3][3] = {{CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5Q}, {CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5I}, {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B3I}};
  for (int c = 0; c < 4; c++)
    for (int sats = 3; sats <= 8; sats++)
      for (int sigs = 2; sigs <= 3; sigs++)
        for (int ord = 0; ord < 2; ord++)
          for (int b = 0; b < sats * sigs; b++)
            for (int a = 0; a < 8; a++)
              for (int p = 0; p < 5; p++) {
                if (!mc_mine() || (!mc_thorough() && (p + a + b) % 3)) continue;
                MC_POINT("constellations %d, %d satellites of %d signals, order %d, measurement %d wrong by %g m, receiver %d", c, sats, sigs, ord, b, MC_D((double)RANGE[a]), p);
                rx_t r;
                rx_make(&r, p, 1, 2);
                navigation_measurement_t m[PMAX];
                int n = 0;
                for (int x = 0; x < sats * sigs; x++) {
                  int sat = ord ? x % sats : x / sigs, sg = ord ? x / sats : x % sigs;
                  int cc = c == 3 ? sat & 1 : c;
                  meas_make(&m[n++], &r, RX[p].lat, RX[p].lon, construct_sid(SIG[cc][sg], (u16)(6 + sat)), POOL[sat][0], POOL[sat][1], 26.5e6, sat);
                }
                ld f[PMAX] = {0};
                f[b] = RANGE[a];
                for (int q = 0; q < 2; q++) check_fault(m, n, f, false, &r, p, q, true);
              }
}
/* two faults: repaired completely, or refused */
static void pairs(void) {
  init();
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int n = __builtin_popcount(set);
      if (n < 5 || (!mc_thorough() && n > 8)) continue;
      idx++;
      if (lean(idx, 4)) continue;
      for (int b = 0; b < n; b++)
        for (int c = b + 1; c < n; c++)
          for (int k = 0; k < (mc_thorough() ? 9 : 1); k++) {
            if (!mc_mine()) continue;
            int kk = mc_thorough() ? k : (int)((idx / 4 + (unsigned)(b * 5 + c)) % 9);
            static const ld X[3] = {400, -5000, 900};
            int p = (int)((idx + (unsigned)b) % 5);
            MC_POINT("mix %d satellites %x, measurements %d and %d wrong, way %d, receiver %d", mix, set, b, c, kk, p);
            rx_t r;
            rx_make(&r, p, 1, 1);
            navigation_measurement_t m[PMAX];
            build(m, &r, p, mix, set);
            ld f[PMAX] = {0};
            f[b] = X[kk % 3];
            f[c] = X[kk / 3] * 1.3L;
            check_fault(m, n, f, false, &r, p, idx & 1, true);
          }
    }
}
/* many measurements, one of them faulty */
static void many(void) {
  init();
  for (int lay = 0; lay < NLAY; lay++)
    for (int n = 14; n < PMAX; n += mc_thorough() ? DEEP : 7)
      for (int b = 0; b < n; b++)
        for (int a = 0; a < (mc_thorough() ? 8 : 2); a++) {
          if (!mc_mine()) continue;
          int aa = mc_thorough() ? a : a * 4 + (b + n) % 4, p = (b + n + lay) % 5;
          MC_POINT("layout %d, %d measurements, %d wrong by %g m, receiver %d", lay, n, b, MC_D((double)RANGE[aa]), p);
          rx_t r;
          rx_make(&r, p, 1, 2);
          navigation_measurement_t m[PMAX];
          many_make(m, &r, p, lay, n);
          ld f[PMAX] = {0};
          f[b] = RANGE[aa];
          check_fault(m, n, f, false, &r, p, b & 1, true);
          if (b & 1 && !mc_thorough()) continue;
          f[b] = RATE[aa % 5];
          check_fault(m, n, f, true, &r, p, false, true);
        }
}
/* measurements of unequal quality: each is judged by its own noise */
static void unequal(void) {
  init();
  unsigned idx = 0;
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int n = __builtin_popcount(set);
      if (n < 6 || n > 10) continue;
      idx++;
      if (lean(idx, 19)) continue;
      for (int w = -1; w < n; w++) /* the odd one out (-1: all differ) */
        for (int q = 1; q < NQUAL; q++)
          for (int b = 0; b < n; b++) {
            if (!mc_mine()) continue;
            int p = (int)((idx + (unsigned)b) % 5), a = (int)(idx / 19 + (unsigned)(b + w + q)) % 8;
            MC_POINT("mix %d satellites %x, odd measurement %d of quality %d, measurement %d wrong by %g m, receiver %d", mix, set, w, q, b, MC_D((double)RANGE[a]), p);
            rx_t r;
            rx_make(&r, p, 1, 2);
            navigation_measurement_t m[PMAX];
            build(m, &r, p, mix, set);
            for (int i = 0; i < n; i++) set_quality(&m[i], w < 0 ? (i * q) % NQUAL : i == w ? q : 0);
            ld f[PMAX] = {0};
            f[b] = RANGE[a];
            check_fault(m, n, f, false, &r, p, (b + q) & 1, true);
            if ((b + w + q) % 3) continue;
            f[b] = RATE[a % 5];
            check_fault(m, n, f, true, &r, p, false, true);
          }
    }
}
/* a pseudorange that is not a number, or absurd: excluded exactly, or the solution refused; never part of it */
static void wild(void) {
  init();
  static const double W[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e12, -1e9, 3e7};
  for (int mix = 0; mix < 9; mix++)
    for (unsigned set = 1; set < 4096; set++) {
      int n = __builtin_popcount(set);
      if (n < 4 || n > 8 || (!mc_thorough() && (set + (unsigned)mix) % 9)) continue;
      for (int b = 0; b < n; b++)
        for (int a = 0; a < 8; a++) {
          if (!mc_mine()) continue;
          int p = (int)(set % 5);
          MC_POINT("mix %d satellites %x, measurement %d wrong by %g m, receiver %d", mix, set, b, MC_D(W[a]), p);
          rx_t r;
          rx_make(&r, p, 1, 1);
          navigation_measurement_t m[PMAX];
          build(m, &r, p, mix, set);
          geo_t g, h;
          geometry(&g, m, n, 0, &r, RX[p].lat, RX[p].lon);
          geometry(&h, m, n, 1ull << b, &r, RX[p].lat, RX[p].lon);
          m[b].raw_pseudorange += W[a];
          for (int q = 0; q < 4; q++) {
            gnss_solution s;
            dops_t d;
            gps_time_t tor = {100000, 2100};
            gnss_sid_set_t rem;
            memset(&s, 0, sizeof s);
            s.valid = 1;
            sid_set_init(&rem);
            s8 rc = calc_PVT((u8)n, m, &tor, q & 1, q >> 1, &NOMASK, ALL_CONSTELLATIONS, &s, &d, &rem);
            mc_calls(1);
            mc_outcome((uint64_t)(rc + 10));
            MC_CHECK(s.valid == (rc >= 0), "wild-valid", "solution marked %d for result %d", s.valid, rc);
            if (rc < 0) continue;
            ld e = 0;
            for (int i = 0; i < 3; i++) e += (s.pos_ecef[i] - r.pos[i]) * (s.pos_ecef[i] - r.pos[i]);
            MC_CHECK(isfinite(s.pos_ecef[0]) && isfinite(s.clock_offset), "wild-solution", "result %d with position %g", rc, s.pos_ecef[0]);
            int same = 0;
            for (int i = 0; i < n; i++) same += g.col[i] == g.col[b];
            if (q & 1 || n == g.s || same < 3) continue; /* one or two of a constellation: its clock absorbs it, or either may be at fault */
            MC_CHECK(rc == 1 && sid_set_contains(&rem, m[b].sid), "wild-used", "result %d with the measurement in use", rc);
            if (sid_set_get_sig_count(&rem) == 1 && h.gdop < 20) MC_CHECK(sqrtl(e) <= 0.003L * (1 + h.gdop), "wild-position", "position is off by %.6Lg m", sqrtl(e));
          }
        }
    }
}
/* every sign pattern of small errors: accepted, nothing excluded, and the error bounded by the geometry */
static void small(void) {
  init();
  static const unsigned SET[] = {0x01f, 0x03f, 0x0f3, 0x07f, 0x3ad, 0x0ff, 0x5f7, 0x3ff};
  for (int mix = 0; mix < 6; mix += 5)
    for (int x = 0; x < 8; x++)
      for (unsigned sgn = 0; sgn < 1u << __builtin_popcount(SET[x]); sgn++)
        for (int p = 0; p < 5; p += 2) {
          if (!mc_mine()) continue;
          MC_POINT("mix %d satellites %x signs %x receiver %d", mix, SET[x], sgn, p);
          rx_t r;
          rx_make(&r, p, 2, 3);
          navigation_measurement_t m[PMAX];
          int n = build(m, &r, p, mix, SET[x]);
          ld amp = 0.25L, q = 0, dq = 0;
          for (int i = 0; i < n; i++) {
            ld s = sgn >> i & 1 ? amp : -amp;
            m[i].raw_pseudorange += (double)s;
            m[i].raw_measured_doppler += (double)(s * 0.2L * sid_to_carr_freq(m[i].sid) / CLIGHT);
            q += s * s;
            dq += s * s * 0.04L;
          }
          geo_t g;
          geometry(&g, m, n, 0, &r, RX[p].lat, RX[p].lon);
          if (g.gdop > 15) continue;
          for (int o = 0; o < 4; o++) {
            gnss_solution s;
            dops_t d;
            gps_time_t tor = {100000, 2100};
            gnss_sid_set_t rem;
            memset(&s, 0, sizeof s);
            sid_set_init(&rem);
            s8 rc = calc_PVT((u8)n, m, &tor, o & 1, o >> 1, &NOMASK, ALL_CONSTELLATIONS, &s, &d, &rem);
            mc_calls(1);
            MC_CHECK(rc == (o & 1 ? 2 : 0), "false_alarm", "result %d with small errors, expected %d", rc, o & 1 ? 2 : 0);
            MC_CHECK(s.n_sigs_used == n && sid_set_get_sig_count(&rem) == 0, "false_exclusion", "%d of %d signals used", s.n_sigs_used, n);
            ld e = 0, ev = 0;
            for (int i = 0; i < 3; i++) { e += (s.pos_ecef[i] - r.pos[i]) * (s.pos_ecef[i] - r.pos[i]); ev += (s.vel_ecef[i] - r.vel[i]) * (s.vel_ecef[i] - r.vel[i]); }
            ld lim = g.pdop * sqrtl(q) * 1.5L + 0.01L * g.gdop; /* weights of the mixed codes differ a little */
            MC_CHECK(sqrtl(e) <= lim, "position", "position is off by %.6Lg m, the geometry allows %.6Lg", sqrtl(e), lim);
            lim = g.pdop * sqrtl(dq) * 1.5L + 0.06L * g.gdop;
            if (!(o >> 1)) MC_CHECK(sqrtl(ev) <= lim, "velocity", "velocity is off by %.6Lg m/s, the geometry allows %.6Lg", sqrtl(ev), lim);
            mc_outcome((uint64_t)(rc * 100 + s.n_sigs_used));
          }
        }
}
MC_SPACES({"single", "9 signal mixes over 12 directions x every set of 4-12 (quick: half of those of 4-10) satellites x each measurement wrong by 2 (thorough: 11) of 11 amounts x velocity on/off", single, 0},
          {"rates", "the same sets up to 9 (thorough: 12) x each Doppler wrong by 1 (thorough: 5) of 5 amounts", rates, 0},
          {"dual", "3-8 satellites of 2-3 signals each, 4 constellation layouts, 2 orders x each measurement wrong by 8 amounts x 5 receivers (quick: a third of these) x velocity on/off", dual, 0},
          {"pairs", "every set of 5-12 satellites (quick: a quarter of those up to 8) x every pair of faulty measurements x 9 (quick: 1) combinations of amounts", pairs, 0},
          {"many", "4 layouts of 14-63 measurements, up to 5 signals of each satellite and 6 constellations x each measurement wrong by 2 (thorough: 8) amounts", many, 0},
          {"unequal", "every (quick: every 19th) set of 6-10 satellites of 9 mixes x each one of 5 lower qualities, or all different x each measurement wrong in range or rate", unequal, 0},
          {"wild", "9 mixes x every (quick: every ninth) set of 4-8 satellites x each pseudorange not a number, infinite or absurd x residual check and velocity on/off", wild, 0},
          {"small", "2 mixes x 8 sets x every sign pattern of small errors x 3 receivers x residual check and velocity on/off", small, 0})
