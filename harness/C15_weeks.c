/* C15: week-number ambiguity.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/gnss_time.h>

#define W 604800.0
static void cycle(void) {
  for (int ref = 0; ref <= 65535 - 1023; ref++) {
    if (!mc_mine()) continue;
    MC_POINT("every truncated week, reference %d", ref);
    for (int raw = 0; raw < 1024; raw++) {
      int w = gps_adjust_week_cycle((u16)raw, (u16)ref);
      MC_CHECK(w >= ref && w < ref + 1024 && (w & 1023) == raw, "cycle1024", "week %d for truncated week %d", w, raw);
    }
    for (int raw = 0; raw < 256; raw++) {
      int w = gps_adjust_week_cycle256((u16)raw, (u16)ref);
      MC_CHECK(w >= ref && w < ref + 256 && (w & 255) == raw, "cycle256", "week %d for truncated week %d", w, raw);
    }
    /* full weeks not earlier than the reference are not ambiguous */
    for (int d = 0; d < 3000; d += 37)
      if (ref + d <= 65535)
        MC_CHECK(gps_adjust_week_cycle((u16)(ref + d), (u16)ref) == ref + d && gps_adjust_week_cycle256((u16)(ref + d), (u16)ref) == ref + d,
                 "full", "full week %d changed", ref + d);
    mc_calls(1024 + 256 + 164);
  }
}
static double TW[800];
static int N;
static void setup(void) {
  N = 0;
  for (int i = 0; i < 168 * 4; i += mc_thorough() ? 1 : 4) TW[N++] = i * 900.0;
  static const double b[] = {1e-9, 0.5, 302399, 302399.999, 302400.001, 302401, 604799, 604799.5, 604799.999999};
  for (int i = 0; i < 9; i++) TW[N++] = b[i];
}
static void match(void) {
  mc_quiet();
  setup();
  static const int wn[] = {0, 1, 2, 1023, 1024, 1876, 2047, 2048, 2899, 32766, 32767};
  static const int in[] = {-1, 0, 1876, 32767};
  for (int k = 0; k < 11; k++)
    for (int r = 0; r < N; r++) {
      if (!mc_mine()) continue;
      gps_time_t ref;
      memset(&ref, 0, sizeof ref);
      ref.wn = (s16)wn[k];
      ref.tow = TW[r];
      for (int i = 0; i < N; i++)
        for (int j = 0; j < 4; j++) {
          gps_time_t t;
          memset(&t, 0, sizeof t);
          t.tow = TW[i];
          t.wn = (s16)in[j];
          MC_POINT("match (%d) %g to %d %g", in[j], MC_D(TW[i]), wn[k], MC_D(TW[r]));
          gps_time_t u = t;
          bool ok = gps_time_match_weeks_safe(&u, &ref);
          double d = TW[i] - TW[r];
          int want = d > W / 2 ? wn[k] - 1 : d < -W / 2 ? wn[k] + 1 : wn[k], alt = want;
          if (d == W / 2) alt = wn[k] - 1;
          if (d == -W / 2) alt = wn[k] + 1;
          MC_CHECK(u.tow == TW[i], "tow", "time of week became %.17g", u.tow);
          if (want < 0 || want > 32767) {
            MC_CHECK(!ok, "match-invalid", "accepted a time with no representable nearest week (%d)", u.wn);
            continue;
          }
          if (alt < 0 || alt > 32767) continue;
          MC_CHECK(ok && (u.wn == want || u.wn == alt), "match", "result %d week %d, expected %d", ok, u.wn, want);
          gps_time_t v = t;
          gps_time_match_weeks(&v, &ref);
          MC_CHECK(v.wn == u.wn && v.tow == u.tow, "match-assert", "asserting variant gives week %d", v.wn);
          mc_calls(2);
          mc_outcome((uint64_t)(u.wn - wn[k] + 1));
        }
      /* unknown reference week: nothing to match */
      gps_time_t un = ref, t = ref;
      un.wn = -1;
      t.wn = (s16)wn[(k + 3) % 11];
      gps_time_t u = t;
      MC_POINT("match %d %g to an unknown week", t.wn, MC_D(t.tow));
      MC_CHECK(gps_time_match_weeks_safe(&u, &un) && u.wn == t.wn && u.tow == t.tow, "unknown-ref", "time changed to %d %.17g", u.wn, u.tow);
      u.wn = -1;
      MC_CHECK(gps_time_match_weeks_safe(&u, &un) && u.wn == -1 && u.tow == t.tow, "unknown-ref", "unknown time changed");
    }
  /* a time of week outside the week is refused */
  static const double bad[] = {-1, 604800, 604801, 1e6};
  for (int k = 1; k < 10; k++)
    for (int i = 0; i < 5; i++) {
      if (!mc_mine()) continue;
      gps_time_t t, ref;
      t.wn = -1;
      t.tow = i < 4 ? bad[i] : NAN;
      ref.wn = (s16)wn[k];
      ref.tow = 1000;
      MC_POINT("match the bad time of week %g", MC_D(t.tow));
      MC_CHECK(!gps_time_match_weeks_safe(&t, &ref), "bad-tow", "accepted");
    }
}
MC_SPACES({"cycle", "every reference week x every truncated week, modulo 1024 and 256", cycle, 0},
          {"match", "11 reference weeks x hourly (15 min in thorough) times of week and boundaries on both sides x 4 initial weeks", match, 0})
