/* C35: GLONASS code-phase biases.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "near.h"
#include <swiftnav/glonass_phase_biases.h>

enum { L1OF, L1P, L2OF, L2P };
static const u8 BIT[] = {8, 4, 2, 1}; /* RTCM DF422 */
static double *slot(glo_biases_t *b, int i) { return i == L1OF ? &b->l1of_bias_m : i == L1P ? &b->l1p_bias_m : i == L2OF ? &b->l2of_bias_m : &b->l2p_bias_m; }
static const double V[] = {0, 655.34, -655.34, 0.02, -0.02, 71.95, 1e6, -1e-3, 5e-324};
#define NV 9
static void lookup(void) {
  for (int c = -3; c < CODE_COUNT + 3; c++)
    for (int mask = 0; mask < 256; mask++) {
      if (!mc_mine()) continue;
      for (int set = 0; set < NV * NV; set++) {
        glo_biases_t b;
        memset(&b, 0, sizeof b);
        b.mask = (u8)mask;
        double v[4];
        for (int i = 0; i < 4; i++) v[i] = *slot(&b, i) = V[(set % NV + i * (1 + set / NV)) % NV];
        MC_POINT("code %d, mask %d, values %d", c, mask, set);
        double g = get_glonass_bias((code_t)c, b), w = 0;
        mc_calls(1);
        /* own bias (zero) minus the base's; the civil signal first, then the precise one */
        int of = c == CODE_GLO_L1OF ? L1OF : c == CODE_GLO_L2OF ? L2OF : -1;
        if (of >= 0) w = mask & BIT[of] ? -v[of] : mask & BIT[of + 1] ? -v[of + 1] : 0;
        MC_CHECK(g == w, "bias", "%g m, expected %g m", g, w);
        mc_outcome(mc_hash(&g, 8));
      }
    }
}
/* a lookup between two that differ from it in one bias, in the mask or in the code */
static glo_biases_t nb;
static int nc;
static void near_call(void) {
  MC_POINT("code %d, mask %d, biases %g %g %g %g, after a lookup that differs in one of them", nc, nb.mask, MC_D(nb.l1of_bias_m), MC_D(nb.l1p_bias_m), MC_D(nb.l2of_bias_m), MC_D(nb.l2p_bias_m));
  double g = get_glonass_bias((code_t)nc, nb), w = 0;
  mc_calls(1);
  int of = nc == CODE_GLO_L1OF ? L1OF : nc == CODE_GLO_L2OF ? L2OF : -1;
  if (of >= 0) w = nb.mask & BIT[of] ? -*slot(&nb, of) : nb.mask & BIT[of + 1] ? -*slot(&nb, of + 1) : 0;
  MC_CHECK(g == w, "bias", "%g m, expected %g m", g, w);
}
static void near_args(void) {
  static double *const p[] = {&nb.l1of_bias_m, &nb.l1p_bias_m, &nb.l2of_bias_m, &nb.l2p_bias_m};
  static const double sc[] = {100, 100, 100, 100};
  static const int C[] = {CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GPS_L1CA};
  for (int mask = 0; mask < 16; mask++)
    for (int c = 0; c < 4; c++)
      for (int v = 0; v < 5; v++) {
        if (!mc_mine()) continue;
        memset(&nb, 0, sizeof nb);
        for (int i = 0; i < 4; i++) *slot(&nb, i) = V[1 + (v + i) % 5];
        nb.mask = (u8)mask, nc = C[c];
        near_each(p, sc, 4, near_call);
        for (int m = 0; m < 16; m++) nb.mask = (u8)m, near_call(), nb.mask = (u8)mask, near_call();
        for (int d = 0; d < 4; d++) nc = C[d], near_call(), nc = C[c], near_call();
        mc_history();
      }
}
/* the library's own biases are those of the definition: everything present, all zero */
static void own(void) {
  if (!mc_mine()) return;
  MC_POINT("own biases");
  MC_CHECK((piksi_glonass_biases.mask & 15) == 15, "own", "mask %d", piksi_glonass_biases.mask);
  MC_CHECK(get_glonass_bias(CODE_GLO_L1OF, piksi_glonass_biases) == 0 && get_glonass_bias(CODE_GLO_L2OF, piksi_glonass_biases) == 0, "own", "a bias against itself is not zero");
  for (int i = 0; i < 4; i++) {
    const u8 m[] = {RTCM1230_MASK_L1OF, RTCM1230_MASK_L1P, RTCM1230_MASK_L2OF, RTCM1230_MASK_L2P};
    MC_CHECK(m[i] == BIT[i], "own", "mask bit %d is %d", i, m[i]);
  }
}
static void flags(void) {
  for (int a = 0; a < 256; a++)
    for (int f = 0; f < 256; f++) {
      if (!mc_mine()) continue;
      MC_POINT("flags %d asked for %d", a, f);
      bool r = is_bias_mask_flag_set((u8)a, (u8)f);
      mc_calls(1);
      MC_CHECK(r == ((a & f) == f), "flag", "returned %d", r);
    }
}
/* every pair of records over an alphabet of masks and values */
static void equal(void) {
  static const double E[] = {0, 0.02, -0.02, 1e-9, -3e-10, 655.34};
  int n = 6 * 6 * 6 * 6;
  static const u8 M[] = {0, 1, 2, 4, 8, 15, 16, 128, 255};
  for (int x = 0; x < n; x++) {
    if (!mc_mine()) continue;
    for (int y = 0; y < n; y++) {
      glo_biases_t a, b;
      memset(&a, 0, sizeof a), memset(&b, 0xff, sizeof b); /* padding differs */
      int p = x, q = y, same = 1;
      for (int i = 0; i < 4; i++, p /= 6, q /= 6) {
        *slot(&a, i) = E[p % 6], *slot(&b, i) = E[q % 6];
        same &= p % 6 == q % 6;
      }
      int ma = (x + y) % 9, mb = (x * 5 + y * 7) % 9;
      a.mask = b.mask = M[ma];
      MC_POINT("records %d and %d, mask %d", x, y, a.mask);
      bool r = glonass_biases_are_equal(a, b);
      MC_CHECK(r == !!same, "equal", "returned %d", r);
      b.mask = M[mb];
      r = glonass_biases_are_equal(a, b);
      MC_CHECK(r == (same && ma == mb), "equal-mask", "masks %d and %d: returned %d", a.mask, b.mask, r);
      mc_calls(2);
    }
  }
  for (int a = 0; a < 256; a++)
    for (int b = 0; b < 256; b++) {
      if (!mc_mine()) continue;
      glo_biases_t x = {(u8)a, 1, 2, 3, 4}, y = {(u8)b, 1, 2, 3, 4};
      MC_POINT("masks %d and %d", a, b);
      MC_CHECK(glonass_biases_are_equal(x, y) == (a == b), "equal-mask", "masks");
      mc_calls(1);
    }
}
MC_SPACES({"lookup", "every code, every mask, value patterns", lookup, 0}, {"near", "16 masks x 4 codes x 5 sets of biases, each lookup alternating with itself with one bias, the mask or the code changed", near_args, 0}, {"own", "the library's own record", own, 0}, {"flags", "every pair of mask and flag", flags, 0}, {"equal", "every pair of records over an alphabet", equal, 0})
