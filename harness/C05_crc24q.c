/* C05: CRC-24Q against long division.
 * MC-flavours: san opt
 * MC-libonly: edc.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/edc.h>

#define POLY 0x1864CFBu
/* remainder after feeding one message bit (most significant first) */
static uint32_t bit1(uint32_t crc, int b) {
  crc ^= (uint32_t)b << 23;
  crc <<= 1;
  if (crc & 0x1000000) crc ^= POLY;
  return crc & 0xFFFFFF;
}
static uint32_t ref_bytes(const uint8_t *p, uint32_t n, uint32_t crc) {
  for (uint32_t i = 0; i < n; i++)
    for (int k = 7; k >= 0; k--) crc = bit1(crc, (p[i] >> k) & 1);
  return crc;
}
static void fill(uint8_t *b, uint32_t n, uint32_t pat) {
  for (uint32_t i = 0; i < n; i++)
    b[i] = pat == 0 ? 0 : pat == 1 ? 0xFF : (uint8_t)(mc_mix(i + 977u * pat) >> 19);
}

static void table(void) {
  /* one byte, every value and every 24-bit start value with one byte of state
   * set, two bytes complete */
  for (uint32_t a = 0; a < 256; a++) {
    if (!mc_mine()) continue;
    uint8_t *m = malloc(2);
    for (uint32_t b = 0; b < 256; b++) {
      m[0] = (uint8_t)a;
      m[1] = (uint8_t)b;
      MC_POINT("two bytes %x %x", a, b);
      MC_CHECK(crc24q(m, 2, 0) == ref_bytes(m, 2, 0), "bytes2", "crc of two bytes");
      MC_CHECK(crc24q(m, 1, b << 16) == ref_bytes(m, 1, b << 16), "start", "start value %x", b << 16);
      MC_CHECK(crc24q(m, 1, b << 8) == ref_bytes(m, 1, b << 8), "start", "start value %x", b << 8);
      MC_CHECK(crc24q(m, 1, b) == ref_bytes(m, 1, b), "start", "start value %x", b);
      MC_CHECK(crc24q(m, 2, b << 8 | a << 16 | 0x5A) == ref_bytes(m, 2, b << 8 | a << 16 | 0x5A), "start", "start value");
      mc_calls(5);
      mc_history();
      mc_outcome(crc24q(m, 2, 0));
    }
    free(m);
  }
}
static void messages(void) {
  static const uint32_t starts[] = {0, 1, 0x800000, 0xFFFFFF, 0x123456, 0xABCDEF};
  for (uint32_t n = 0; n <= 80; n++)
    for (uint32_t pat = 0; pat < 12; pat++) {
      if (!mc_mine()) continue;
      uint8_t *m = malloc(n ? n : 1);
      for (int s = 0; s < 6; s++) {
        MC_POINT("message len=%d pattern=%d start=%x", n, pat, starts[s]);
        fill(m, n, pat);
        uint32_t whole = ref_bytes(m, n, starts[s]);
        MC_CHECK(crc24q(m, n, starts[s]) == whole, "message", "crc of %u bytes", n);
        mc_calls(1);
        /* every split into two and three consecutive chunks */
        for (uint32_t i = 0; i <= n; i++)
          for (uint32_t j = i; j <= n; j += (j == n || n < 16) ? 1 : 5) {
            uint32_t c = crc24q(m, i, starts[s]);
            c = crc24q(m + i, j - i, c);
            c = crc24q(m + j, n - j, c);
            MC_CHECK(c == whole, "chunks", "chunks %u %u %u differ", i, j - i, n - j);
            mc_calls(3);
          }
        mc_history();
        mc_outcome(whole);
      }
      free(m);
    }
  /* large ones */
  static const uint32_t BIG[] = {70000, (1u << 20) + 5, (1u << 24) + 3};
  for (int b = 0; b < 3; b++) {
    if (!mc_mine()) continue;
    uint32_t n = BIG[b];
    uint8_t *m = malloc(n);
    fill(m, n, 7);
    MC_POINT("large message len=%d", n);
    MC_CHECK(crc24q(m, n, 0) == ref_bytes(m, n, 0), "large", "crc of a %u byte message", n);
    free(m);
    mc_calls(1);
  }
}
static void bits(void) {
  uint32_t maxn = mc_thorough() ? 1100 : 330;
  static const uint32_t LONG[] = {255 * 8, 256 * 8, 65535, 65536, 65535 * 8, 65536 * 8, (1u << 20) - 1};
  for (uint32_t nn = 0; nn <= maxn + 7 * 9; nn++) {
    if (!mc_mine()) continue;
    uint32_t n = nn <= maxn ? nn : LONG[(nn - maxn - 1) / 9] + (nn - maxn - 1) % 9, nb = (n + 7) / 8;
    uint8_t *m = malloc(nb ? nb : 1);
    for (uint32_t pat = 0; pat < 10; pat++)
      for (int inv = 0; inv < 2; inv++)
        for (int st = 0; st < 2; st++) {
          /* with a start value the zero padding in front matters; only the
           * padded form (n not a multiple of 8) is compared */
          uint32_t start = st ? 0x5A1234 : 0;
          if (st && n % 8 == 0) continue;
          fill(m, nb, pat);
          MC_POINT("bits n=%d pattern=%d invert=%d start=%x", n, pat, inv, start);
          uint32_t c = start;
          for (uint32_t i = 0; i < (8 - n % 8) % 8; i++) c = bit1(c, 0);
          for (uint32_t i = 0; i < n; i++) c = bit1(c, ((m[i / 8] >> (7 - i % 8)) & 1) ^ inv);
          MC_CHECK(crc24q_bits(start, m, n, inv) == c, "bits", "crc of %u bits, invert %d: %x expected %x", n, inv,
                   crc24q_bits(start, m, n, inv), c);
          /* bits behind the message do not matter */
          if (n % 8) {
            m[nb - 1] ^= (uint8_t)(0xFFu >> (n % 8));
            MC_CHECK(crc24q_bits(start, m, n, inv) == c, "bits-tail", "bits behind %u bits matter", n);
          }
          mc_calls(2);
          mc_history();
          mc_outcome(c);
        }
    free(m);
  }
}
/* error detection on the code itself: a frame is message + 3 checksum bytes */
#define FB 48
static int detected(const uint8_t *f, uint32_t nb) {
  uint32_t c = crc24q(f, nb - 3, 0);
  return c != ((uint32_t)f[nb - 3] << 16 | (uint32_t)f[nb - 2] << 8 | f[nb - 1]);
}
static void errors(void) {
  static const uint32_t sizes[] = {3, 4, 5, 9, 16, 31, 48};
  for (int z = 0; z < 7; z++)
    for (uint32_t pat = 0; pat < 3; pat++) {
      uint32_t nb = sizes[z], nbit = nb * 8;
      uint8_t f[FB], g[FB];
      fill(f, nb, pat + 1);
      uint32_t c = crc24q(f, nb - 3, 0);
      f[nb - 3] = (uint8_t)(c >> 16);
      f[nb - 2] = (uint8_t)(c >> 8);
      f[nb - 1] = (uint8_t)c;
      MC_POINT("frame bytes=%d pattern=%d", nb, pat);
      MC_CHECK(!detected(f, nb), "frame", "a correct frame is rejected");
      for (uint32_t i = 0; i < nbit; i++) {
        if (!mc_mine()) continue;
        for (uint32_t j = i; j < nbit; j++) {
          MC_POINT("frame bytes=%d pattern=%d error bits %d %d", nb, pat, i, j);
          memcpy(g, f, nb);
          g[i / 8] ^= (uint8_t)(0x80 >> (i % 8));
          if (j > i) g[j / 8] ^= (uint8_t)(0x80 >> (j % 8));
          MC_CHECK(detected(g, nb), "undetected2", "error in bits %u and %u is not detected", i, j);
          mc_calls(1);
          mc_outcome(crc24q(g, nb, 0));
        }
        mc_history();
        /* bursts: first bit i, length L, interior patterns */
        for (uint32_t len = 3; len <= 24 && i + len <= nbit; len++) {
          uint32_t inner = len - 2, all = inner <= (mc_thorough() ? 14u : 10u) ? 1u << inner : 600;
          for (uint32_t k = 0; k < all; k++) {
            uint32_t in = inner <= (mc_thorough() ? 14u : 10u) ? k : (uint32_t)(mc_mix(k * 64 + len) & ((1u << inner) - 1));
            uint32_t w = 1u << (len - 1) | in << 1 | 1u;
            if (z > 4 && (k % 7)) continue;
            memcpy(g, f, nb);
            for (uint32_t b = 0; b < len; b++)
              if ((w >> (len - 1 - b)) & 1) g[(i + b) / 8] ^= (uint8_t)(0x80 >> ((i + b) % 8));
            MC_POINT("frame bytes=%d pattern=%d burst at %d length %d shape %x", nb, pat, i, len, w);
            MC_CHECK(detected(g, nb), "undetected-burst", "burst of %u bits at %u is not detected", len, i);
            mc_calls(1);
          }
        }
      }
    }
}
/* the algebra that extends the burst result to every shape and position: the
 * remainder of x^k is never zero, and multiplying by x is a bijection, so a
 * burst of at most 24 bits has remainder 0 only if it is empty */
static void algebra(void) {
  if (!mc_mine()) return;
  uint32_t c = 1;
  for (uint32_t k = 0; k < 4096; k++) {
    MC_POINT("power %d", k);
    uint8_t m[520] = {0};
    uint32_t nb = k / 8 + 1;
    m[nb - 1 - k / 8] = (uint8_t)(1u << (k % 8)); /* x^k */
    uint32_t r = ref_bytes(m, nb, 0);
    MC_CHECK(crc24q(m, nb, 0) == r && r != 0, "power", "x^%u", k);
    mc_calls(1);
    mc_outcome(r);
    mc_history();
    c = r;
  }
  (void)c;
}
MC_SPACES({"table", "all 65536 two byte messages and 4 x 65536 start values", table, 0},
          {"messages", "lengths 0..80 x 12 patterns x 6 start values x every split into three chunks", messages, 0},
          {"bits", "every bit length x 10 patterns x inversion x start value, buffer ends with the message", bits, 0},
          {"errors", "frames of 3..48 bytes: every 1 and 2 bit error, every burst up to 12 (thorough 16) bits, alphabet of longer bursts", errors, 0},
          {"powers", "all single-bit messages up to 4096 bits (linearity basis)", algebra, 0})
