/* C27: accuracy and fit interval codes.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/ephemeris.h>

static const float U[16] = {2, 2.8f, 4, 5.7f, 8, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
static void decode(void) {
  for (int i = 0; i < 256; i++) {
    if (!mc_mine()) continue;
    MC_POINT("index %d", i);
    float g = decode_ura_index((u8)i), b = decode_bds_ura_index((u8)i), s = decode_sisa_index((u8)i);
    mc_calls(3);
    MC_CHECK(i < 16 ? g == U[i] : g == INVALID_URA_VALUE, "gps", "GPS accuracy %g", g);
    MC_CHECK(i < 15 ? b == U[i] : b == INVALID_URA_VALUE, "bds", "BeiDou accuracy %g", b);
    int cm = i < 50 ? i : i < 75 ? 50 + 2 * (i - 50) : i < 100 ? 100 + 4 * (i - 75) : 200 + 16 * (i - 100);
    if (i < 126) MC_CHECK(fabs(s - cm * 0.01) < 1e-6, "gal", "Galileo accuracy %g", s);
    else if (i == 255) MC_CHECK(s == INVALID_URA_VALUE, "gal-napa", "Galileo accuracy %g for the no-prediction index", s);
    else MC_CHECK(s == INVALID_URA_VALUE || fabs(s - 6) < 1e-5, "gal-spare", "Galileo accuracy %g for a spare index", s);
    if (i < 16) MC_CHECK(encode_ura(g) == i, "roundtrip", "index %d comes back as %d", i, encode_ura(g));
  }
}
static void one(float u) {
  MC_POINT("accuracy %g (bits %x)", MC_D((double)u), ({ union { float f; unsigned u; } q = {u}; (int)q.u; }));
  int want = 255;
  for (int i = 15; i >= 0; i--)
    if (u <= U[i]) want = i;
  if (u < 0) want = 255;
  int g = encode_ura(u);
  mc_calls(1);
  mc_outcome((uint64_t)g);
  MC_CHECK(g == want, "encode", "encoded as %d, expected %d", g, want);
}
static void encode(void) {
  /* every float of a coarse mantissa grid, and the 64 floats around each table value */
  uint32_t step = mc_thorough() ? 7 : 509;
  for (uint64_t b = 0; b <= 0xFFFFFFFFull; b += 1u << 24) {
    if (!mc_mine()) continue;
    for (uint64_t x = b; x < b + (1u << 24); x += step) {
      union { uint32_t u; float f; } q = {.u = (uint32_t)x};
      if (q.f == q.f) one(q.f);
    }
  }
  for (int i = 0; i < 17; i++)
    for (int d = -64; d <= 64; d++) {
      if (!mc_mine()) continue;
      union { uint32_t u; float f; } q = {.f = i < 16 ? U[i] : 0.f};
      if (i == 16 && d < 0) q.u = 0x80000000u + (uint32_t)(-d); else q.u = (uint32_t)((int64_t)q.u + d);
      one(q.f);
    }
}
static void fit(void) {
  for (int flag = 0; flag < 256; flag++)
    for (int iodc = 0; iodc < 1024; iodc++) {
      if (!mc_mine()) continue;
      int h = 4;
      if (flag) h = iodc >= 240 && iodc <= 247 ? 8 : (iodc >= 248 && iodc <= 255) || iodc == 496 ? 14 : (iodc >= 497 && iodc <= 503) || iodc >= 1021 ? 26 : iodc >= 504 && iodc <= 510 ? 50 : iodc == 511 || (iodc >= 752 && iodc <= 756) ? 74 : iodc == 757 ? 98 : 6;
      MC_POINT("fit interval flag %d iodc %d", flag, iodc);
      u32 g = decode_fit_interval((u8)flag, (u16)iodc);
      mc_calls(1);
      mc_outcome(g);
      MC_CHECK(g == (u32)h * 3600, "fit", "fit interval %u s, expected %d h", g, h);
    }
}
/* every pair of indexes, issues of data or accuracies in turn */
static void pairs(void) {
  for (int i = 0; i < 256; i++) {
    if (!mc_mine()) continue;
    for (int j = 0; j < 256; j++) {
      MC_POINT("index %d after %d", i, j);
      decode_ura_index((u8)j), decode_bds_ura_index((u8)i == (u8)j ? 3 : (u8)j), decode_sisa_index((u8)j);
      float g = decode_ura_index((u8)i), b = decode_bds_ura_index((u8)i), s = decode_sisa_index((u8)i);
      int cm = i < 50 ? i : i < 75 ? 50 + 2 * (i - 50) : i < 100 ? 100 + 4 * (i - 75) : 200 + 16 * (i - 100);
      MC_CHECK(g == (i < 16 ? U[i] : INVALID_URA_VALUE) && b == (i < 15 ? U[i] : INVALID_URA_VALUE) && (i < 126 ? fabs(s - cm * 0.01) < 1e-6 : s == INVALID_URA_VALUE || (i != 255 && fabs(s - 6) < 1e-5)), "pair",
               "index %d gives %g, %g, %g after %d", i, g, b, s, j);
      /* accuracies: a table value, just above it, and the middle to the next */
      float x = U[i % 16], y = i < 16 ? x : i < 32 ? nextafterf(x, 1e9f) : i < 48 ? nextafterf(x, 0) : i < 64 ? x * 1.2f : i < 80 ? -x : i < 96 ? x * 1000 : x * 0.8f;
      float z = U[j % 16], v = j < 16 ? z : j < 32 ? nextafterf(z, 1e9f) : j < 48 ? nextafterf(z, 0) : j < 64 ? z * 1.2f : j < 80 ? -z : j < 96 ? z * 1000 : z * 0.8f;
      one(v);
      one(y);
      mc_calls(6);
    }
    mc_history();
  }
  for (int iodc = 0; iodc < 1024; iodc++) {
    if (!mc_mine()) continue;
    for (int o = 0; o < 1024; o += o < 768 && o > 260 && o < 490 ? 16 : 1)
      for (int fl = 0; fl < 4; fl++) {
        int flag = fl & 1, h = 4;
        if (flag) h = iodc >= 240 && iodc <= 247 ? 8 : (iodc >= 248 && iodc <= 255) || iodc == 496 ? 14 : (iodc >= 497 && iodc <= 503) || iodc >= 1021 ? 26 : iodc >= 504 && iodc <= 510 ? 50 : iodc == 511 || (iodc >= 752 && iodc <= 756) ? 74 : iodc == 757 ? 98 : 6;
        MC_POINT("fit interval flag %d iodc %d after flag %d iodc %d", flag, iodc, fl >> 1, o);
        decode_fit_interval((u8)(fl >> 1), (u16)o);
        u32 g = decode_fit_interval((u8)flag, (u16)iodc);
        mc_calls(2);
        MC_CHECK(g == (u32)h * 3600, "fit", "fit interval %u s, expected %d h", g, h);
      }
    mc_history();
  }
}
MC_SPACES({"decode", "all 256 indexes of the three tables", decode, 0}, {"encode", "floats of all exponents and signs with a mantissa step, 129 neighbours of each table value", encode, 0}, {"fit-interval", "all flags x all 1024 issues of data", fit, 0}, {"pairs", "every pair of indexes, of 256 accuracies, and of flags and issues of data, one after the other", pairs, 0})
