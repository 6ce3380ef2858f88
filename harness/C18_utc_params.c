/* C18: UTC parameters from the GPS navigation message.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "near.h"
#include <swiftnav/gnss_time.h>

#define W 604800.0
/* field, word (3..10), first bit (1..24), length; a0 is split over words 7 and 8 */
enum { DATAID, SVID, A1, A0, TOT, WNT, DTLS, WNLSF, DN, DTLSF, NF };
static const struct { const char *name; int len; } F[NF] = {{"data id", 2}, {"sv id", 6}, {"a1", 24}, {"a0", 32}, {"tot", 8}, {"wn_t", 8}, {"dt_ls", 8}, {"wn_lsf", 8}, {"dn", 8}, {"dt_lsf", 8}};
static void put(u32 *w, int word, int first, int len, uint64_t v) { w[word - 3] = (w[word - 3] & ~((((u32)1 << len) - 1) << (30 - first + 1 - len))) | (u32)v << (30 - first + 1 - len); }
static void build(u32 *w, const uint64_t *f, u32 noise) {
  for (int i = 0; i < 8; i++) w[i] = noise;
  put(w, 3, 1, 2, f[DATAID]);
  put(w, 3, 3, 6, f[SVID]);
  put(w, 6, 1, 24, f[A1]);
  put(w, 7, 1, 24, f[A0] >> 8);
  put(w, 8, 1, 8, f[A0] & 255);
  put(w, 8, 9, 8, f[TOT]);
  put(w, 8, 17, 8, f[WNT]);
  put(w, 9, 1, 8, f[DTLS]);
  put(w, 9, 9, 8, f[WNLSF]);
  put(w, 9, 17, 8, f[DN]);
  put(w, 10, 1, 8, f[DTLSF]);
}
static int near256(int v, int ref) {
  int w = v;
  while (w < ref) w += 256;
  return w;
}
static void check(const uint64_t *f, u32 noise, int ref, int plain) {
  u32 w[8], keep[8];
  build(w, f, noise);
  memcpy(keep, w, sizeof w);
  utc_params_t u;
  memset(&u, 0x77, sizeof u);
  bool r = plain ? decode_utc_parameters(w, &u) : decode_utc_parameters_with_wn_ref(w, &u, (u16)ref);
  mc_calls(1);
  MC_CHECK(!memcmp(keep, w, sizeof w), "input", "the message was modified");
  bool want = f[DATAID] == 1 && f[SVID] == 56 && f[DN] >= 1 && f[DN] <= 7;
  MC_CHECK(r == want, "accept", "result %d, expected %d", r, want);
  mc_outcome(mc_hash(&u, sizeof u));
  if (!want) return;
  double a1 = ldexp((double)sgn(f[A1], 24), -50), a0 = ldexp((double)sgn(f[A0], 32), -30);
  int ls = (int)sgn(f[DTLS], 8), lsf = (int)sgn(f[DTLSF], 8);
  MC_CHECK(u.a0 == a0 && u.a1 == a1 && u.a2 == 0, "poly", "a0 %.17g a1 %.17g a2 %.17g, expected %.17g %.17g 0", u.a0, u.a1, u.a2, a0, a1);
  MC_CHECK(u.dt_ls == ls && u.dt_lsf == lsf, "leap", "leap seconds %d %d, expected %d %d", u.dt_ls, u.dt_lsf, ls, lsf);
  /* seconds are counted from the reference week, to keep their digits */
  double tot = (near256((int)f[WNT], ref) - ref) * W + (double)f[TOT] * 4096;
  MC_CHECK((u.tot.wn - ref) * W + u.tot.tow == tot, "tot", "reference time %d %.9g", u.tot.wn, u.tot.tow);
  double day = (near256((int)f[WNLSF], ref) - ref) * W + (double)f[DN] * 86400;
  double lse = day + ls + a0 + a1 * (day - tot);
  MC_CHECK(gps_time_valid(&u.t_lse) && fabs((u.t_lse.wn - ref) * W + u.t_lse.tow - lse) < 1e-6, "lse", "leap event %d %.9f, expected %.9f", u.t_lse.wn, u.t_lse.tow, lse);
  /* the offset changes at the event, one second after it begins */
  if (u.t_lse.wn > 0)
    for (int k = 0; k < 6; k++) {
      static const double d[] = {-86400, -1, 0.5, 0.999999, 1.000001, 100000};
      gps_time_t t = u.t_lse;
      add_secs(&t, d[k]);
      if (t.wn < 0) continue;
      double o = get_gps_utc_offset(&t, &u), e = a0 + a1 * (lse + d[k] - tot) + (k < 4 ? ls : lsf);
      MC_CHECK(fabs(o - e) < 1e-6, "offset", "offset %.9f at event %+g s, expected %.9f", o, d[k], e);
    }
}
static const uint64_t BG[2][NF] = {{1, 56, 0, 0, 0, 0, 18, 0, 7, 18}, {1, 56, 0x812345, 0x9ABCDEF1u, 147, 201, 0xEE, 137, 3, 0x13}};
static const u32 NOISE[] = {0, 0xC000003F, 0xFFFFFFFF, 0x15555515};
static void fields(void) {
  mc_quiet();
  static const int ref[] = {1876, 1, 2047, 2048, 2304, 1930};
  for (int b = 0; b < 2; b++)
    for (int f = 0; f < NF; f++)
      for (uint64_t i = 0; i < pat_count(F[f].len); i++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        memcpy(v, BG[b], sizeof v);
        v[f] = pat(F[f].len, i);
        for (int r = 0; r < 6; r++)
          for (int n = 0; n < 4; n++) {
            MC_POINT("field %d value %d background %d reference %d filler %x", f, v[f], b, ref[r], NOISE[n]);
            check(v, NOISE[n], ref[r], r == 0 && n == 1);
          }
      }
}
/* weeks and days of the event against every reference week residue */
static void weeks(void) {
  mc_quiet();
  for (int ref = 1876; ref < 32000; ref += ref > 2176 ? 2913 : mc_thorough() ? 1 : 7)
    for (int w = 0; w < 256; w++)
      for (int dn = 0; dn < 10; dn++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        memcpy(v, BG[dn & 1], sizeof v);
        v[WNLSF] = (uint64_t)w;
        v[WNT] = (uint64_t)(w * 5 + ref) & 255;
        v[DN] = (uint64_t)dn;
        MC_POINT("event week %d day %d reference %d", w, dn, ref);
        check(v, NOISE[dn & 3], ref, 0);
      }
}
static void types(void) {
  mc_quiet();
  for (int d = 0; d < 4; d++)
    for (int s = 0; s < 64; s++)
      for (int dn = 0; dn < 256; dn++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        memcpy(v, BG[1], sizeof v);
        v[DATAID] = (uint64_t)d;
        v[SVID] = (uint64_t)s;
        v[DN] = (uint64_t)dn;
        MC_POINT("data id %d page %d day %d", d, s, dn);
        check(v, NOISE[dn & 3], 1876, 1);
      }
}
#define len_of(f) F[f].len
static void near_args(void) {
  mc_quiet();
  for (int b = 0; b < 2; b++)
    for (int n = 0; n < 2; n++)
      for (int plain = 0; plain < 2; plain++) {
        if (!mc_mine()) continue;
        uint64_t v[NF];
        memcpy(v, BG[b], sizeof v);
        MC_POINT("background %d, filler %d, plain %d, after a page that differs in one bit", b, n, plain);
        NEAR_BITS(v, NF, len_of, check(v, n ? 0xFFFFFFFF : 0, plain ? 1876 : 2047, plain))
        if (!plain)
          for (int r = 1800; r < 2400; r += 7) check(v, 0, r, 0), check(v, 0, r + 256, 0), check(v, 0, 1876, 1);
        mc_history();
      }
}
MC_SPACES({"near", "pages alternating with themselves with one bit of one field or the reference week changed", near_args, 0},
          {"fields", "every field over its value patterns x 2 backgrounds x 6 reference weeks x 4 fillings of the unused bits", fields, 0},
          {"weeks", "event weeks x days x reference weeks", weeks, 0},
          {"page-types", "every data id x page id x day number", types, 0})
