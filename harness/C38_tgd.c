/* C38: group delay per signal.
 * MC-flavours: san opt msan
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/ephemeris.h>

typedef long double ld;
#define L1 1575.42L
#define L2 1227.60L
#define L5 1176.45L
/* code, constellation letter, broadcast value used (2 = none, zero), carrier in MHz relative to which the value scales */
static const struct { code_t code; char k; int slot; ld mhz; } T[] = {
    {CODE_GPS_L1CA, 'G', 0, L1}, {CODE_GPS_L1P, 'G', 0, L1}, {CODE_GPS_L1CI, 'G', 0, L1}, {CODE_GPS_L1CQ, 'G', 0, L1}, {CODE_GPS_L1CX, 'G', 0, L1},
    {CODE_GPS_L2CM, 'G', 0, L2}, {CODE_GPS_L2CL, 'G', 0, L2}, {CODE_GPS_L2CX, 'G', 0, L2}, {CODE_GPS_L2P, 'G', 0, L2},
    {CODE_GPS_L5I, 'G', 1, L5}, {CODE_GPS_L5Q, 'G', 1, L5}, {CODE_GPS_L5X, 'G', 1, L5},
    {CODE_QZS_L1CA, 'J', 0, L1}, {CODE_QZS_L1CI, 'J', 0, L1}, {CODE_QZS_L1CQ, 'J', 0, L1}, {CODE_QZS_L1CX, 'J', 0, L1},
    {CODE_QZS_L2CM, 'J', 0, L2}, {CODE_QZS_L2CL, 'J', 0, L2}, {CODE_QZS_L2CX, 'J', 0, L2},
    {CODE_QZS_L5I, 'J', 1, L5}, {CODE_QZS_L5Q, 'J', 1, L5}, {CODE_QZS_L5X, 'J', 1, L5},
    {CODE_GAL_E1B, 'E', 1, L1}, {CODE_GAL_E1C, 'E', 1, L1}, {CODE_GAL_E1X, 'E', 1, L1},
    {CODE_GAL_E6B, 'E', 1, 1278.75L}, {CODE_GAL_E6C, 'E', 1, 1278.75L}, {CODE_GAL_E6X, 'E', 1, 1278.75L},
    {CODE_GAL_E7I, 'E', 1, 1207.14L}, {CODE_GAL_E7Q, 'E', 1, 1207.14L}, {CODE_GAL_E7X, 'E', 1, 1207.14L},
    {CODE_GAL_E8I, 'E', 1, 1191.795L}, {CODE_GAL_E8Q, 'E', 1, 1191.795L}, {CODE_GAL_E8X, 'E', 1, 1191.795L},
    {CODE_GAL_E5I, 'E', 0, L5}, {CODE_GAL_E5Q, 'E', 0, L5}, {CODE_GAL_E5X, 'E', 0, L5},
    {CODE_BDS2_B1, 'C', 0, 0}, {CODE_BDS3_B1CI, 'C', 0, 0}, {CODE_BDS3_B1CQ, 'C', 0, 0}, {CODE_BDS3_B1CX, 'C', 0, 0},
    {CODE_BDS2_B2, 'C', 1, 0}, {CODE_BDS3_B5I, 'C', 1, 0}, {CODE_BDS3_B5Q, 'C', 1, 0}, {CODE_BDS3_B5X, 'C', 1, 0},
    {CODE_BDS3_B7I, 'C', 1, 0}, {CODE_BDS3_B7Q, 'C', 1, 0}, {CODE_BDS3_B7X, 'C', 1, 0},
    {CODE_BDS3_B3I, 'C', 2, 0}, {CODE_BDS3_B3Q, 'C', 2, 0}, {CODE_BDS3_B3X, 'C', 2, 0},
    {CODE_GLO_L1OF, 'R', 2, 0}, {CODE_GLO_L1P, 'R', 2, 0}, {CODE_GLO_L2OF, 'R', 3, 0}, {CODE_GLO_L2P, 'R', 3, 0}};
#define NT (int)(sizeof T / sizeof *T)
static const code_t OWN[5] = {CODE_GPS_L1CA, CODE_QZS_L1CA, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GLO_L1OF};
static int idx(char k) { return k == 'G' ? 0 : k == 'J' ? 1 : k == 'E' ? 2 : k == 'C' ? 3 : 4; }
static u16 prn(char k, int far) {
  static const u16 lo[5] = {1, 193, 1, 1, 1}, hi[5] = {32, 202, 36, 63, 28};
  return far ? hi[idx(k)] : lo[idx(k)];
}
/* ow: which code the ephemeris itself carries; bg: content of everything unrelated; v: both broadcast integers */
static void one(int c, int v0, int v1, int ow, int bg) {
  ephemeris_t e;
  memset(&e, bg ? 0x5b : 0, sizeof e);
  char k = T[c].k;
  e.sid = construct_sid(ow ? T[c].code : OWN[idx(k)], prn(k, bg));
  gnss_signal_t s = construct_sid(T[c].code, prn(k, bg));
  ld lsb = k == 'E' ? 1.0L / 4294967296.0L : k == 'C' ? 1e-10L : k == 'R' ? 1.0L / 1073741824.0L : 1.0L / 2147483648.0L;
  float f[2] = {(float)(v0 * lsb), (float)(v1 * lsb)};
  if (k == 'R') e.data.glo.d_tau = (double)(v0 * lsb);
  else memcpy(e.data.kepler.tgd.gps_s, f, sizeof f);
  ephemeris_t keep = e;
  ld w = T[c].slot == 2 ? 0 : T[c].slot == 3 ? v0 * lsb : f[T[c].slot];
  if (T[c].mhz != 0) w *= (L1 / T[c].mhz) * (L1 / T[c].mhz);
  float g = NAN;
  s8 rc = get_tgd_correction(&e, &s, &g);
  mc_calls(1);
  MC_CHECK(rc == 0, "refused", "code %d: result %d", (int)s.code, (int)rc);
  MC_CHECK(fabsl(g - w) <= 2e-7L * fabsl(w), k == 'G' ? "gps" : k == 'J' ? "qzss" : k == 'E' ? "galileo" : k == 'C' ? "beidou" : "glonass", "code %d correction %.10g, expected %.10Lg", (int)s.code, (double)g, w);
  MC_CHECK(!memcmp(&keep, &e, sizeof e), "input", "the ephemeris was modified");
  u32 h;
  memcpy(&h, &g, 4);
  mc_outcome(h);
}
static void all(void) {
  mc_quiet();
  for (int c = 0; c < NT; c++) {
    char k = T[c].k;
    int n = k == 'E' || k == 'C' ? 1024 : k == 'R' ? 32 : 256;
    for (int v = -n / 2; v < n / 2; v++)
      for (int q = 0; q < (mc_thorough() ? n : 4); q++) {
        if (!mc_mine()) continue;
        int o = mc_thorough() ? q - n / 2 : q == 0 ? 0 : q == 1 ? -n / 2 : q == 2 ? n / 2 - 1 : v == 17 ? 18 : 17;
        for (int ow = 0; ow < 2; ow++)
          for (int bg = 0; bg < 2; bg++) {
            MC_POINT("code %d broadcast integers %d and %d, own code %d, background %d", (int)T[c].code, v, o, ow, bg);
            if (k == 'R' && v == -16) continue; /* sign-magnitude: no such value */
            one(c, v, o, ow, bg);
            if (k != 'R') one(c, o, v, ow, bg);
          }
      }
  }
}
/* corrections for two signals of one constellation one after the other, of one record or two */
static void pairs(void) {
  mc_quiet();
  for (int a = 0; a < NT; a++)
    for (int b = 0; b < NT; b++) {
      if (T[a].k != T[b].k) continue;
      for (int q = 0; q < 8; q++) {
        if (!mc_mine()) continue;
        MC_POINT("code %d, then %d, then %d, change %d of the broadcast integers", (int)T[a].code, (int)T[b].code, (int)T[a].code, q);
        int v0 = 9, v1 = -14, w0 = q & 1 ? 10 : v0, w1 = q & 2 ? 13 : v1;
        one(a, v0, v1, q >> 2, 0);
        one(b, w0, w1, q >> 2, 0);
        one(a, v0, v1, q >> 2, 0);
        one(a, w0, w1, q >> 2, 0);
        one(b, v0, v1, q >> 2, 1);
        one(a, v0, v1, q >> 2, 1);
        mc_history();
      }
    }
}
MC_SPACES({"codes", "every signal code of GPS, QZSS, Galileo, BeiDou and GLONASS x every broadcast integer of its delay (the other delay over extremes; thorough: every pair) x ephemeris filed under its own or the first code x cleared or filled background", all, 0},
          {"pairs", "every pair of signals of a constellation in turn, with 4 changes of the broadcast integers", pairs, 0})
