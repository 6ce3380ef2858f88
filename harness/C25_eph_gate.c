/* C25: when an ephemeris is usable.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/ephemeris.h>

enum { CENTRED, FORWARD, ALWAYS };
static const struct { code_t code; u16 sat; int win; char iod; } S[] = {
    {CODE_GPS_L1CA, 1, CENTRED, 'P'}, {CODE_GPS_L2CM, 32, CENTRED, 'P'}, {CODE_GPS_L5Q, 14, CENTRED, 'P'}, {CODE_QZS_L1CA, 193, CENTRED, 'P'}, {CODE_QZS_L2CM, 195, CENTRED, 'P'},
    {CODE_GAL_E1B, 36, FORWARD, 'E'}, {CODE_GAL_E7I, 2, FORWARD, 'E'}, {CODE_BDS2_B1, 1, FORWARD, 'B'}, {CODE_BDS2_B2, 30, FORWARD, 'B'}, {CODE_BDS3_B3I, 61, FORWARD, 'B'}, {CODE_BDS3_B5I, 22, FORWARD, 'B'},
    {CODE_GLO_L1OF, 7, CENTRED, 'R'}, {CODE_GLO_L2OF, 28, CENTRED, 'R'}, {CODE_SBAS_L1CA, 120, ALWAYS, 'S'}, {CODE_SBAS_L5I, 138, ALWAYS, 'S'}};
#define NS 15
static bool kepler(int s) { return S[s].iod == 'P' || S[s].iod == 'E' || S[s].iod == 'B'; }
/* issue of data rules; GLONASS uses iod only */
static bool iod_ok(int s, int source, int iodc, int iode) {
  switch (S[s].iod) {
    case 'P': return iodc <= 1023 && iode <= 255 && iodc % 256 == iode;
    case 'E': return iodc <= 1023 && iodc == iode;
    case 'B': return source == EPH_SOURCE_BDS_D1_D2_NAV ? iodc <= 240 && iode <= 240 : iodc <= 1023 && iode <= 255 && iodc % 256 == iode;
    case 'R': return iode <= 127;
    default: return true;
  }
}
static void fill(ephemeris_t *e, int s) {
  memset(e, 0, sizeof *e);
  e->sid = construct_sid(S[s].code, S[s].sat);
  e->valid = 1;
  e->ura = 2;
  e->fit_interval = 7200;
  e->toe.wn = 2100;
  e->toe.tow = 100000;
  if (kepler(s)) e->data.kepler.toc = e->toe;
}
static void judge(const ephemeris_t *e, const gps_time_t *t, ephemeris_status_t st, bool in_time) {
  ephemeris_t keep = *e;
  ephemeris_status_t want = st != EPH_VALID ? st : in_time ? EPH_VALID : EPH_TOO_OLD;
  ephemeris_status_t g1 = get_ephemeris_status_t(e), g2 = ephemeris_valid_detailed(e, t);
  u8 v = ephemeris_valid(e, t);
  mc_calls(3);
  MC_CHECK(g1 == st, "status", "status %d, expected %d", (int)g1, (int)st);
  MC_CHECK(g2 == want, "detailed", "detailed status %d, expected %d", (int)g2, (int)want);
  MC_CHECK(!!v == (want == EPH_VALID), "usable", "usable: %d, expected %d", v, want == EPH_VALID);
  MC_CHECK(!memcmp(&keep, e, sizeof keep), "input", "the ephemeris was modified");
  mc_outcome((uint64_t)(want * 16 + st) * 16 + (uint64_t)e->sid.code);
}
/* every combination of reasons */
static void reasons(void) {
  mc_quiet();
  static const u32 FIT[] = {0, 1, 2, 7200, 14400};
  static const s16 WN[] = {0, 1, 2100, 32000, WN_UNKNOWN};
  for (int s = 0; s < NS; s++)
    for (int v = 0; v < 3; v++)
      for (int w = 0; w < 5; w++)
        for (int f = 0; f < 5; f++)
          for (int h = 0; h < 4; h++)
            for (int io = 0; io < 4; io++)
              for (int tt = 0; tt < 4; tt++) {
                if (!mc_mine()) continue;
                ephemeris_t e;
                fill(&e, s);
                e.valid = (u8)(v == 2 ? 255 : v);
                e.fit_interval = FIT[f];
                e.toe.wn = WN[w];
                if (kepler(s)) e.data.kepler.toc = e.toe;
                bool healthy = true;
                if (h & 1) e.health_bits = 0x3F, healthy = false;
                if (h & 2) {
                  e.ura = -1;
                  if (S[s].iod != 'S' && S[s].code != CODE_QZS_L1CA && S[s].code != CODE_QZS_L2CM) healthy = false;
                }
                int iodc = io == 0 ? 0 : io == 1 ? 77 : io == 2 ? 2000 : 78, iode = io == 0 ? 0 : io == 2 ? 2000 : 77;
                if (kepler(s)) e.data.kepler.iodc = (u16)iodc, e.data.kepler.iode = (u16)iode;
                else if (S[s].iod == 'R') e.data.glo.iod = (u8)iode;
                gps_time_t t = e.toe;
                t.tow += tt == 0 ? 0 : tt == 1 ? 1 : tt == 2 ? 20000 : -20000;
                ephemeris_status_t st = !v ? EPH_INVALID : WN[w] == 0 ? EPH_WN_EQ_0 : FIT[f] == 0 ? EPH_FIT_INTERVAL_EQ_0 : !healthy ? EPH_UNHEALTHY : !iod_ok(s, 0, iodc, S[s].iod == 'R' ? (u8)iode : iode) ? EPH_INVALID_IOD : EPH_VALID;
                bool in = S[s].win == ALWAYS || (tt == 0) || (tt == 1 && (S[s].win == FORWARD ? FIT[f] >= 1 : FIT[f] >= 2));
                MC_POINT("system %d valid %d week %d fit %d health case %d iod case %d, instant %d", s, v, WN[w], FIT[f], h, io, tt);
                judge(&e, &t, st, in);
              }
  MC_POINT("no ephemeris");
  gps_time_t t = {.tow = 0, .wn = 1};
  MC_CHECK(get_ephemeris_status_t(NULL) == EPH_NULL && !ephemeris_valid(NULL, &t) && ephemeris_valid_detailed(NULL, &t) == EPH_NULL, "null", "NULL ephemeris");
  ephemeris_t e;
  fill(&e, 0);
  MC_CHECK(!ephemeris_valid(&e, NULL), "null-time", "no time");
}
/* issues of data: all iodc x iode low range, and the range ends */
static void iods(void) {
  mc_quiet();
  for (int s = 0; s < NS; s++)
    for (int src = 0; src < 3; src++)
      for (int a = 0; a < 1100; a++) {
        int iodc = a < 1090 ? a : a == 1090 ? 65535 : a == 1091 ? 32768 : a == 1092 ? 4095 : a == 1093 ? 2048 : a == 1094 ? 0xFF00 : a == 1095 ? 0x7FFF : a == 1096 ? 1279 : a == 1097 ? 1535 : 16384 + a;
        if (!mc_mine()) continue;
        for (int b = 0; b < 300; b++) {
          int iode = b < 260 ? b : b == 260 ? 65535 : b == 261 ? iodc : b == 262 ? (iodc ^ 1) : b == 263 ? (iodc ^ 256) : b == 264 ? (iodc ^ 0x8000) : b == 265 ? (iodc + 256) & 0xFFFF : b == 266 ? 1023 : b == 267 ? 1024 : b * 31;
          ephemeris_t e;
          fill(&e, s);
          e.source = (u8)src;
          if (kepler(s)) e.data.kepler.iodc = (u16)iodc, e.data.kepler.iode = (u16)iode;
          else if (S[s].iod == 'R') e.data.glo.iod = (u8)iode;
          MC_POINT("system %d source %d iodc %d iode %d", s, src, iodc, iode);
          ephemeris_status_t want = iod_ok(s, src, iodc, S[s].iod == 'R' ? (u8)iode : iode) ? EPH_VALID : EPH_INVALID_IOD, g = get_ephemeris_status_t(&e);
          mc_calls(1);
          MC_CHECK(g == want, "iod", "status %d, expected %d", (int)g, (int)want);
        }
      }
}
/* the window */
static void window(void) {
  mc_quiet();
  static const u32 FIT[] = {2, 4, 120, 1800, 4200, 7200, 10800, 14400, 21600, 50400, 93600, 259200, 510000, 604800, 864000, 1209600};
  static const double TOE[] = {0, 0.5, 16, 3599, 302400, 597600, 604784, 604799.5};
  static const double E[] = {-1, -0.5, -1e-3, 0, 1e-3, 0.5, 1, 10};
  for (int s = 0; s < NS; s++)
    for (int f = 0; f < 16; f++)
      for (int to = 0; to < 8; to++)
        for (int wk = 0; wk < 4; wk++) /* which weeks are known: both, t only, toe only, none */
          for (int edge = 0; edge < 5; edge++)
            for (int d = 0; d < 8; d++)
              for (int w = 0; w < 3; w++) {
                if (!mc_mine()) continue;
                double half = FIT[f] / 2, lo = S[s].win == FORWARD ? 0 : -half, hi = S[s].win == FORWARD ? FIT[f] : half;
                double dt = (edge == 0 ? lo : edge == 1 ? 0 : edge == 2 ? hi : edge == 3 ? 604800 : -604800) + E[d];
                if (wk && (fabs(dt) > 302399 || FIT[f] >= 604800)) continue; /* ambiguous */
                ephemeris_t e;
                fill(&e, s);
                e.fit_interval = FIT[f];
                e.toe.wn = w == 0 ? 4 : w == 1 ? 2100 : 32000;
                e.toe.tow = TOE[to];
                gps_time_t t = e.toe;
                t.tow += dt;
                normalize_gps_time(&t);
                if (wk & 1) e.toe.wn = WN_UNKNOWN;
                if (wk & 2) t.wn = WN_UNKNOWN;
                if (kepler(s)) e.data.kepler.toc = e.toe;
                bool in = S[s].win == ALWAYS || (dt >= lo && dt <= hi);
                MC_POINT("system %d fit %d toe %g week case %d/%d, %g s after toe", s, FIT[f], MC_D(TOE[to]), wk, w, MC_D(dt));
                judge(&e, &t, EPH_VALID, in);
              }
}
/* the clock reference time has to lie in the window too */
static void toc(void) {
  mc_quiet();
  static const u32 FIT[] = {120, 7200, 14400, 604800};
  static const double TOE[] = {0, 16, 302400, 604784};
  static const double E[] = {-16, -1, 0, 1, 16};
  for (int s = 0; s < NS; s++) {
    if (!kepler(s)) continue;
    for (int f = 0; f < 4; f++)
      for (int to = 0; to < 4; to++)
        for (int edge = 0; edge < 5; edge++)
          for (int d = 0; d < 5; d++)
            for (int wn = 0; wn < 3; wn++)
              for (int tt = 0; tt < 3; tt++) {
                if (!mc_mine()) continue;
                double half = FIT[f] / 2, lo = S[s].win == FORWARD ? 0 : -half, hi = S[s].win == FORWARD ? FIT[f] : half;
                double dt = (edge == 0 ? lo : edge == 1 ? 0 : edge == 2 ? hi : edge == 3 ? 604800 : -604800) + E[d];
                if (wn == 1 && (fabs(dt) > 302399 || FIT[f] >= 604800)) continue;
                ephemeris_t e;
                fill(&e, s);
                e.fit_interval = FIT[f];
                e.toe.tow = TOE[to];
                gps_time_t t = e.toe;
                t.tow += tt == 0 ? lo : tt == 1 ? hi : hi + 1;
                normalize_gps_time(&t);
                e.data.kepler.toc = e.toe;
                e.data.kepler.toc.tow += dt;
                normalize_gps_time(&e.data.kepler.toc);
                if (wn == 1) e.data.kepler.toc.wn = WN_UNKNOWN;
                if (wn == 2) e.data.kepler.toc.wn = 0;
                bool in = tt != 2 && wn != 2 && dt >= lo && dt <= hi;
                MC_POINT("system %d fit %d toe %g, toc %g s after toe, week case %d, instant %d", s, FIT[f], MC_D(TOE[to]), MC_D(dt), wn, tt);
                judge(&e, &t, EPH_VALID, in);
              }
  }
}
static void params(void) {
  mc_quiet();
  /* all orders of four instants on a short grid across a week boundary */
  for (int b = 0; b < 6; b++)
    for (int en = 0; en < 6; en++)
      for (int t = -2; t < 8; t++)
        for (int c = -3; c < 8; c++)
          for (int base = 0; base < 3; base++)
            for (int st = 0; st < 3; st++) {
              if (!mc_mine()) continue;
              const double step = st == 0 ? 0.25 : st == 1 ? 600 : 50000;
              const int w0 = 1999;
              const double o = base == 0 ? 1000 : base == 1 ? 604800 - 2.5 * step : 0;
#define AT(x) ({ gps_time_t q = {.tow = o + (x) * step, .wn = (s16)w0}; normalize_gps_time(&q); q; })
              gps_time_t B = AT(b), E = AT(en), T = AT(t), C = AT(c);
              bool want = t >= b && t <= en && (c == -3 || (c >= b && c <= en));
              MC_POINT("begin %d end %d instant %d clock %d, base %d, step %g", b, en, t, c, base, MC_D(step));
              u8 g = ephemeris_params_valid(&B, &E, c == -3 ? NULL : &C, &T);
              mc_calls(1);
              MC_CHECK(!!g == want, "params", "answer %d, expected %d", g, want);
              C.wn = 0;
              if (c != -3) MC_CHECK(!ephemeris_params_valid(&B, &E, &C, &T), "params-toc", "clock time without a week accepted");
            }
}
/* every record after every other record that differs in one or two members */
static void variant(ephemeris_t *e, gps_time_t *t, int s, int k, ephemeris_status_t *st, bool *in) {
  fill(e, s);
  *t = e->toe;
  t->tow += 60;
  *st = EPH_VALID, *in = true;
  bool always = S[s].win == ALWAYS, fwd = S[s].win == FORWARD;
  int io = kepler(s) ? 7 : 3;
  if (kepler(s)) e->data.kepler.iodc = 7, e->data.kepler.iode = 7;
  switch (k) {
    case 1: e->valid = 0, *st = EPH_INVALID; break;
    case 2: e->toe.wn = 0, *st = EPH_WN_EQ_0; break;
    case 3: e->fit_interval = 0, *st = EPH_FIT_INTERVAL_EQ_0; break;
    case 4: e->health_bits = 0x3f, *st = EPH_UNHEALTHY; break;
    case 5: t->tow += 7200, *in = always; break;
    case 6: e->fit_interval = 100, *in = always || fwd; break;
    case 7: e->fit_interval = 40, *in = always; break;
    case 8: t->wn++, *in = always; break;
    case 9: t->wn--, *in = always; break;
    case 10: t->wn = WN_UNKNOWN; break;
    case 11: e->toe.wn++, *in = always; break;
    case 12: t->tow = e->toe.tow - 60, *in = !fwd; break;
    case 13: if (kepler(s)) e->data.kepler.toc.tow += 7201, *in = false; break;
    case 14: if (kepler(s)) e->data.kepler.iodc = 6, *st = EPH_INVALID_IOD; break;
    case 15: if (S[s].iod == 'R') e->data.glo.iod = 128, *st = EPH_INVALID_IOD; break;
    case 16: e->toe.tow += 120, *in = !fwd; break;
    case 17: e->toe.tow -= 7201, *in = always; break;
    case 18: e->health_bits = 0x3f, e->valid = 0, *st = EPH_INVALID; break;
    case 19: e->fit_interval = 14400; break;
  }
  if (k == 11 && kepler(s)) e->data.kepler.toc.wn++;
  if ((k == 16 || k == 17 || k == 2) && kepler(s)) e->data.kepler.toc = e->toe;
  if (k == 14 && S[s].iod == 'B') *st = EPH_VALID, e->source = EPH_SOURCE_BDS_D1_D2_NAV;
  if (S[s].iod == 'B') e->source = EPH_SOURCE_BDS_D1_D2_NAV;
  (void)io;
}
static void pairs(void) {
  mc_quiet();
  static ephemeris_t e; /* the same object every time */
  static gps_time_t t;
  for (int s = 0; s < NS; s++)
    for (int a = 0; a < 20; a++)
      for (int b = 0; b < 20; b++)
        for (int s2 = 0; s2 < NS; s2++) {
          if (s2 != s && a && b) continue;
          if (!mc_mine()) continue;
          MC_POINT("system %d record %d, then system %d record %d, then the first again", s, a, s2, b);
          ephemeris_status_t st;
          bool in;
          for (int r = 0; r < 3; r++) {
            variant(&e, &t, r == 1 ? s2 : s, r == 1 ? b : a, &st, &in);
            judge(&e, &t, st, in);
          }
          mc_history();
        }
}
MC_SPACES({"reasons", "15 signals x valid flag x 5 weeks x 5 fit intervals x health x accuracy x 4 issues of data x 4 instants", reasons, 0},
          {"issue-of-data", "15 signals x 3 sources x 1100 clock issues x 300 ephemeris issues", iods, 0},
          {"window", "15 signals x 16 fit intervals x 8 reference times x 4 known/unknown weeks x 40 instants x 3 weeks", window, 0},
          {"clock-time", "12 signals x 4 fit intervals x 4 reference times x 25 clock times x 3 week cases x 3 instants", toc, 0},
          {"parameters", "all orders of begin, end, instant and clock time on a grid", params, 0},
          {"pairs", "every pair of 20 variants of a record of the same or different signals, in one object, the first one twice", pairs, 0})
