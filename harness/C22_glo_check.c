/* C22: GLONASS string error detection.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "glo_str.h"

#define ND 400
static void data(int k, glo_string_t *s) { /* 0: zero, 1..77: unit words, then patterns */
  memset(s, 0, sizeof *s);
  if (k >= 1 && k <= 77) gs_flip(s, k + 8);
  else if (k == 78) gs_put(s, 9, 32, ~0u), gs_put(s, 41, 32, ~0u), gs_put(s, 73, 13, ~0u);
  else if (k > 78) {
    uint64_t x = 0x9E3779B97F4A7C15ull * (uint64_t)k, y = x * 0xD1342543DE82EF95ull;
    gs_put(s, 9, 40, x ^ x >> 31);
    gs_put(s, 49, 37, y ^ y >> 29);
  }
  gs_seal(s);
}
static int run(const glo_string_t *s) {
  glo_string_t k = *s;
  int r = error_detection_glo(s);
  MC_CHECK(!memcmp(&k, s, sizeof k), "input", "the string was modified");
  mc_calls(1);
  mc_outcome((uint64_t)(r + 2));
  return r;
}
static void singles(void) {
  mc_quiet();
  for (int k = 0; k < ND; k++) {
    if (!mc_mine()) continue;
    glo_string_t s;
    data(k, &s);
    MC_POINT("string %d without an error", k);
    MC_CHECK(run(&s) == 0, "clean", "a correct string is reported as %d", run(&s));
    for (int b = 1; b <= 85; b++) {
      glo_string_t t = s;
      gs_flip(&t, b);
      int r = run(&t);
      MC_POINT("string %d, error in bit %d", k, b);
      if (b >= 9) MC_CHECK(r == b, "single", "reported as %d", r);
      else if (b <= 7) MC_CHECK(r == 0, "single-check", "reported as %d", r);
      else MC_CHECK(r != 0 && r < 9, "single-parity", "reported as %d", r);
      if (b >= 9 && r == b) {
        gs_flip(&t, r);
        MC_CHECK(run(&t) == 0 && !memcmp(&s, &t, sizeof s), "corrected", "correcting bit %d does not restore the string", r);
      }
    }
  }
}
static void doubles(void) {
  mc_quiet();
  int nd = mc_thorough() ? ND : 130;
  for (int k = 0; k < nd; k++)
    for (int a = 1; a <= 85; a++) {
      if (!mc_mine()) continue;
      glo_string_t s;
      data(k, &s);
      gs_flip(&s, a);
      for (int b = a + 1; b <= 85; b++) {
        glo_string_t t = s;
        gs_flip(&t, b);
        MC_POINT("string %d, errors in bits %d and %d", k, a, b);
        MC_CHECK(run(&t) == -1, "double", "reported as %d", run(&t));
      }
    }
}
/* all error patterns of weight three and four on a correct string: the answer is a function of syndrome and parity */
static void triples(void) {
  mc_quiet();
  int w4 = mc_thorough();
  for (int a = 1; a <= 85; a++)
    for (int b = a + 1; b <= 85; b++) {
      if (!mc_mine()) continue;
      glo_string_t s;
      data(100, &s);
      gs_flip(&s, a);
      gs_flip(&s, b);
      for (int c = b + 1; c <= 85; c++)
        for (int d = 0; d <= (w4 ? 85 : 0); d++) {
          if (d && d <= c) continue;
          glo_string_t t = s;
          gs_flip(&t, c);
          if (d) gs_flip(&t, d);
          int e[4] = {a, b, c, d}, syn = 0, par = 0;
          for (int i = 0; i < 4; i++) {
            if (!e[i]) continue;
            par ^= 1;
            if (e[i] >= 9) syn ^= gs_syn(e[i]);
            else if (e[i] <= 7) syn ^= 1 << (e[i] - 1);
          }
          int n = __builtin_popcount((unsigned)syn), want;
          if (par == 0) want = n == 0 ? 0 : -1;
          else if (n == 0) want = -1;
          else if (n == 1) want = 0;
          else {
            int K = 32 - __builtin_clz((unsigned)syn);
            want = syn + 8 - K > 85 ? -1 : syn + 8 - K;
          }
          MC_POINT("errors in bits %d %d %d %d", a, b, c, d);
          int r = run(&t);
          MC_CHECK(r == want, "syndrome", "reported as %d, the syndrome rule gives %d", r, want);
        }
    }
}
static void extract(void) {
  for (int k = 0; k < 40; k++)
    for (int at = 1; at <= 85; at++)
      for (int n = 1; n <= 32 && at + n - 1 <= 96; n++) {
        if (!mc_mine()) continue;
        glo_string_t s;
        data(k < 20 ? k * 4 : k + 78, &s);
        u32 w = 0;
        for (int i = 0; i < n; i++)
          if (gs_get(&s, at + i)) w |= (u32)1 << i;
        MC_POINT("string %d, %d bits at %d", k, n, at);
        u32 r = extract_word_glo(&s, (u16)at, (u8)n);
        MC_CHECK(r == w, "extract", "got %x, expected %x", r, w);
        mc_calls(1);
      }
}
MC_SPACES({"single", "zero, all 77 unit data words and 322 patterns x no error and all 85 single errors", singles, 0},
          {"double", "all 3570 double errors x 130 strings (400 in thorough)", doubles, 0},
          {"triple", "all error patterns of weight 3 (and 4 in thorough)", triples, 0},
          {"extract", "every bit position x every width x 40 strings", extract, 0})
