/* C03: bit fields against a bit-array model.
 * MC-flavours: san opt
 * MC-libonly: bits.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/bits.h>

#define MAXB 64
/* model: buffers as arrays of bits, most significant bit of byte 0 first */
static int mbit(const uint8_t *b, uint32_t i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static void mset(uint8_t *b, uint32_t i, int v) {
  uint8_t m = (uint8_t)(0x80 >> (i % 8));
  b[i / 8] = (uint8_t)(v ? (b[i / 8] | m) : (b[i / 8] & ~m));
}
static uint64_t mget(const uint8_t *b, uint32_t pos, uint32_t len) {
  uint64_t v = 0;
  for (uint32_t i = 0; i < len; i++) v = v << 1 | (uint64_t)mbit(b, pos + i);
  return v;
}
static int64_t msext(uint64_t v, uint32_t len) {
  if (len < 64 && (v >> (len - 1))) v |= ~(uint64_t)0 << len;
  return (int64_t)v;
}

/* background patterns */
enum { NPAT = 6 };
static void fill(uint8_t *b, uint32_t n, int pat) {
  for (uint32_t i = 0; i < n; i++) {
    switch (pat) {
      case 0: b[i] = 0; break;
      case 1: b[i] = 0xFF; break;
      case 2: b[i] = 0x55; break;
      case 3: b[i] = 0xAA; break;
      default: b[i] = (uint8_t)(mc_mix(i * 131u + (uint32_t)pat) >> 17);
    }
  }
}
/* value alphabet of a field: patterns and walking ones and zeros */
static int nvals(uint32_t len) { return 8 + 2 * (int)len; }
static uint64_t val(uint32_t len, int k) {
  uint64_t full = len == 64 ? ~(uint64_t)0 : ((uint64_t)1 << len) - 1;
  switch (k) {
    case 0: return 0;
    case 1: return full;
    case 2: return 0x5555555555555555ull & full;
    case 3: return 0xAAAAAAAAAAAAAAAAull & full;
    case 4: return mc_mix(len * 77u) & full;
    case 5: return mc_mix(len * 177u + 5) & full;
    case 6: return full >> 1;
    case 7: return 0x123456789ABCDEF0ull & full;
  }
  k -= 8;
  if (k < (int)len) return (uint64_t)1 << k;
  return full & ~((uint64_t)1 << (k - (int)len));
}

/* a buffer that ends exactly at the last byte of the field; when the field
 * does not start in byte 0, the bytes before it must not change either */
static uint8_t *exact(uint32_t nbytes) {
  static uint8_t *bufs[MAXB + 1];
  if (!bufs[nbytes]) bufs[nbytes] = malloc(nbytes ? nbytes : 1);
  return bufs[nbytes];
}

static void get_one(uint32_t pos, uint32_t len, const uint8_t *b) {
  uint64_t v = mget(b, pos, len);
  if (len <= 32) {
    MC_CHECK(getbitu(b, pos, (u8)len) == v, "getbitu", "getbitu(%u,%u)=%x expected %llx",
             pos, len, getbitu(b, pos, (u8)len), (unsigned long long)v);
    mc_calls(1);
  }
  MC_CHECK(getbitul(b, pos, (u8)len) == v, "getbitul", "getbitul(%u,%u) expected %llx",
           pos, len, (unsigned long long)v);
  mc_calls(1);
  if (len > 0) {
    int64_t s = msext(v, len);
    if (len <= 32) {
      MC_CHECK(getbits(b, pos, (u8)len) == (int32_t)s, "getbits", "getbits(%u,%u)=%d expected %lld",
               pos, len, getbits(b, pos, (u8)len), (long long)s);
      mc_calls(1);
    }
    MC_CHECK(getbitsl(b, pos, (u8)len) == s, "getbitsl", "getbitsl(%u,%u) expected %lld", pos,
             len, (long long)s);
    mc_calls(1);
  }
  mc_outcome(v);
}

static void fields(void) {
  uint32_t maxpos = mc_thorough() ? 264 : 72;
  for (uint32_t pos = 0; pos <= maxpos; pos++) {
    for (uint32_t len = 0; len <= 64; len++) {
      if (!mc_mine()) continue;
      uint32_t nb = (pos + len + 7) / 8;
      uint8_t *b = exact(nb);
      uint8_t ref[MAXB];
      for (int p = 0; p < NPAT; p++) {
        MC_POINT("get pos=%d len=%d background=%d", pos, len, p);
        fill(b, nb, p);
        get_one(pos, len, b);
        mc_history();
      }
      for (int p = 0; p < (mc_thorough() ? NPAT : 4); p++) {
        int pat = p < 2 ? p : p + 2;
        for (int k = 0; k < nvals(len); k++) {
          if (len == 0 && k > 3) break;
          uint64_t v = len ? val(len, k) : (uint64_t)k * 0x1111;
          for (int fn = 0; fn < 4; fn++) {
            /* fn: setbitu setbits setbitul setbitsl */
            if (fn < 2 && len > 32) continue;
            MC_POINT("set fn=%d pos=%d len=%d background=%d value=%x", fn, pos, len, pat, (long long)v);
            fill(b, nb, pat);
            fill(ref, nb, pat);
            for (uint32_t i = 0; i < len; i++)
              mset(ref, pos + i, (int)((v >> (len - 1 - i)) & 1));
            /* the bits above the field's width must be ignored */
            uint64_t w = v;
            if (len < 64 && (k & 1)) w |= ~(uint64_t)0 << len;
            if (fn == 0) setbitu(b, pos, len, (u32)w);
            if (fn == 1) setbits(b, pos, len, (s32)(u32)w);
            if (fn == 2) setbitul(b, pos, len, w);
            if (fn == 3) setbitsl(b, pos, len, (s64)w);
            mc_calls(1);
            MC_CHECK(memcmp(b, ref, nb) == 0, "set", "setbit fn=%d pos=%u len=%u value=%llx stored wrongly",
                     fn, pos, len, (unsigned long long)v);
            if (k < 8) get_one(pos, len, b);
          }
        }
        mc_history();
      }
    }
  }
}

/* widths that do not fit the type are refused without touching the buffer */
static void badwidth(void) {
  static const uint32_t lens[] = {0, 33, 40, 63, 64, 65, 100, 128, 255, 256, 257, 288, 0x80000000u, 0xFFFFFFFFu};
  for (unsigned i = 0; i < sizeof lens / sizeof lens[0]; i++)
    for (uint32_t pos = 0; pos < 16; pos++) {
      if (!mc_mine()) continue;
      MC_POINT("refuse len=%x pos=%d", lens[i], pos);
      uint8_t b[48], r[48];
      fill(b, sizeof b, 4);
      memcpy(r, b, sizeof b);
      if (lens[i] == 0 || lens[i] > 32) {
        setbitu(b, pos, lens[i], 0x12345678u);
        setbits(b, pos, lens[i], -5);
      }
      if (lens[i] == 0 || lens[i] > 64) {
        setbitul(b, pos, lens[i], 0x123456789abcdefull);
        setbitsl(b, pos, lens[i], -5);
      }
      mc_calls(4);
      mc_history();
      MC_CHECK(!memcmp(b, r, sizeof b), "badwidth", "an unsupported width %u changed the buffer", lens[i]);
      mc_outcome(i * 16 + pos);
    }
}

static void copies(void) {
  uint32_t maxn = mc_thorough() ? 140 : 100;
  for (uint32_t di = 0; di < (mc_thorough() ? 40u : 17u); di++)
    for (uint32_t si = 0; si < (mc_thorough() ? 40u : 17u); si++) {
      if (!mc_mine()) continue;
      for (uint32_t n = 0; n <= maxn; n++)
        for (int p = 0; p < 3; p++) {
          MC_POINT("bitcopy dst=%d src=%d n=%d pattern=%d", di, si, n, p);
          uint32_t db = (di + n + 7) / 8, sb = (si + n + 7) / 8;
          uint8_t *s = exact(sb), ref[MAXB];
          uint8_t *d = malloc(db ? db : 1);
          fill(s, sb, p == 0 ? 4 : p == 1 ? 5 : 1);
          fill(d, db, p == 0 ? 5 : p == 1 ? 1 : 0);
          memcpy(ref, d, db);
          for (uint32_t i = 0; i < n; i++) mset(ref, di + i, mbit(s, si + i));
          bitcopy(d, di, s, si, n);
          mc_calls(1);
          mc_history();
          MC_CHECK(!memcmp(d, ref, db), "bitcopy", "bitcopy(dst+%u, src+%u, %u) is wrong", di, si, n);
          free(d);
          mc_outcome(n);
        }
    }
}

static void shifts(void) {
  uint32_t maxsz = mc_thorough() ? 40 : 20;
  for (uint32_t sz = 0; sz <= maxsz; sz++)
    for (uint32_t sh = 0; sh <= sz * 8 + 9; sh++) {
      if (!mc_mine()) continue;
      for (int p = 1; p < NPAT; p++) {
        MC_POINT("bitshl size=%d shift=%d pattern=%d", sz, sh, p);
        uint8_t *b = exact(sz), ref[MAXB] = {0}, in[MAXB];
        fill(b, sz, p);
        memcpy(in, b, sz);
        for (uint32_t i = 0; i + sh < sz * 8; i++) mset(ref, i, mbit(in, i + sh));
        bitshl(b, sz, sh);
        mc_calls(1);
        mc_history();
        MC_CHECK(!memcmp(b, ref, sz), "bitshl", "bitshl(size %u, shift %u) is wrong", sz, sh);
        mc_outcome(sh);
      }
    }
}

static unsigned pop(uint64_t v) {
  unsigned n = 0;
  for (; v; v &= v - 1) n++;
  return n;
}
static void one32(uint32_t v) {
  MC_POINT("word32 %x", v);
  MC_CHECK(parity(v) == (pop(v) & 1), "parity", "parity(%x)", v);
  MC_CHECK(count_bits_u32(v, 1) == pop(v), "count32", "count_bits_u32(%x,1)", v);
  MC_CHECK(count_bits_u32(v, 0) == 32 - pop(v), "count32", "count_bits_u32(%x,0)", v);
  uint8_t b[4] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
  uint32_t le;
  uint32_t be;
  memcpy(&be, b, 4); /* bytes of v, most significant first */
  uint8_t lb[4] = {b[3], b[2], b[1], b[0]};
  memcpy(&le, lb, 4);
  MC_CHECK(htobe_32(v) == be && betoh_32(be) == v, "endian32", "big endian %x", v);
  MC_CHECK(htole_32(v) == le && letoh_32(le) == v, "endian32", "little endian %x", v);
  MC_CHECK(byte_swap_32(v) == ((uint32_t)lb[0] << 24 | (uint32_t)lb[1] << 16 | (uint32_t)lb[2] << 8 | lb[3]),
           "swap32", "byte_swap_32(%x)", v);
  mc_calls(8);
  mc_history();
  mc_outcome(v);
}
static void one64(uint64_t v) {
  MC_POINT("word64 %x", (long long)v);
  MC_CHECK(count_bits_u64(v, 1) == pop(v), "count64", "count_bits_u64(%llx,1)", (unsigned long long)v);
  MC_CHECK(count_bits_u64(v, 0) == 64 - pop(v), "count64", "count_bits_u64(%llx,0)", (unsigned long long)v);
  uint8_t b[8], lb[8];
  uint64_t be, le, sw = 0;
  for (int i = 0; i < 8; i++) {
    b[i] = (uint8_t)(v >> (56 - 8 * i));
    lb[7 - i] = b[i];
  }
  for (int i = 0; i < 8; i++) sw = sw << 8 | lb[i];
  memcpy(&be, b, 8);
  memcpy(&le, lb, 8);
  MC_CHECK(htobe_64(v) == be && betoh_64(be) == v, "endian64", "big endian %llx", (unsigned long long)v);
  MC_CHECK(htole_64(v) == le && letoh_64(le) == v, "endian64", "little endian %llx", (unsigned long long)v);
  MC_CHECK(byte_swap_64(v) == sw, "swap64", "byte_swap_64(%llx)", (unsigned long long)v);
  mc_calls(7);
  mc_history();
  mc_outcome(v);
}
static void words(void) {
  /* 32 bit: every value with at most 4 (quick 3) bits set or clear, every 16-bit
   * value in either half */
  for (uint32_t v = 0; v < 65536; v++) {
    if (!mc_mine()) continue;
    one32(v);
    one32(v << 16);
    one32(v << 8);
    one32(v * 0x10001u);
    uint16_t h = (uint16_t)v;
    uint8_t b[2] = {(uint8_t)(h >> 8), (uint8_t)h}, lb[2] = {(uint8_t)h, (uint8_t)(h >> 8)};
    uint16_t be, le;
    memcpy(&be, b, 2);
    memcpy(&le, lb, 2);
    MC_CHECK(count_bits_u16(h, 1) == pop(h) && count_bits_u16(h, 0) == 16 - pop(h), "count16",
             "count_bits_u16(%x)", h);
    MC_CHECK(htobe_16(h) == be && betoh_16(be) == h && htole_16(h) == le && letoh_16(le) == h, "endian16",
             "byte order of %x", h);
    MC_CHECK(byte_swap_16(h) == (uint16_t)(lb[0] << 8 | lb[1]), "swap16", "byte_swap_16(%x)", h);
    unsigned x = v >> 8, y = v & 255, z = 0;
    for (int i = 0; i < 8; i++) z |= ((x >> i) & 1) << (2 * i) | ((y >> i) & 1) << (2 * i + 1);
    MC_CHECK(bytes_interleave((u8)x, (u8)y) == z, "interleave", "bytes_interleave(%x,%x)", x, y);
    if (v < 256)
      MC_CHECK(count_bits_u8((u8)v, 1) == pop(v) && count_bits_u8((u8)v, 0) == 8 - pop(v), "count8",
               "count_bits_u8(%x)", v);
    mc_calls(12);
  }
  for (int a = 0; a < 32; a++)
    for (int b = a; b < 32; b++) {
      if (!mc_mine()) continue;
      for (int c = b; c < 32; c++)
        for (int d = mc_thorough() ? c : 31; d < 32; d++) {
          uint32_t v = 1u << a | 1u << b | 1u << c | 1u << d;
          one32(v);
          one32(~v);
        }
    }
  for (int a = 0; a < 64; a++)
    for (int b = a; b < 64; b++) {
      if (!mc_mine()) continue;
      for (int c = b; c < 64; c++) {
        uint64_t v = 1ull << a | 1ull << b | 1ull << c;
        one64(v);
        one64(~v);
      }
    }
  for (int s = 0; s < 8; s++)
    for (uint32_t v = 0; v < 256; v++) {
      if (!mc_mine()) continue;
      one64((uint64_t)v << (8 * s));
      one64(mc_mix(v * 8 + (uint32_t)s));
    }
}

/* sign extension macros take a constant width */
#define SX(n)                                                                       \
  if (n <= 32)                                                                      \
    for (int k = 0; k < nvals(n); k++) {                                            \
      uint64_t v = val(n, k);                                                       \
      MC_POINT("sign extend width=%d value=%x", n, (long long)v);                   \
      MC_CHECK(BITS_SIGN_EXTEND_32((n <= 32 ? n : 1), (s32)(u32)v) == (int32_t)msext(v, n), "sx32", \
               "width %d value %llx", n, (unsigned long long)v);                    \
      mc_calls(1);                                                                  \
    }                                                                               \
  for (int k = 0; k < nvals(n); k++) {                                              \
    uint64_t v = val(n, k);                                                         \
    MC_POINT("sign extend width=%d value=%x", n, (long long)v);                     \
    MC_CHECK(BITS_SIGN_EXTEND_64(n, (s64)v) == msext(v, n), "sx64", "width %d value %llx", n, \
             (unsigned long long)v);                                                \
    mc_calls(1);                                                                    \
    mc_history();                                                                   \
    mc_outcome(v);                                                                  \
  }
#define SX8(n) SX(n) SX(n + 1) SX(n + 2) SX(n + 3) SX(n + 4) SX(n + 5) SX(n + 6) SX(n + 7)
static void sx(void) {
  if (!mc_mine()) return;
  SX8(1) SX8(9) SX8(17) SX8(25) SX8(33) SX8(41) SX8(49) SX8(57)
}

/* positions, counts and sizes that do not fit 8, 16 or 31 bits */
#include <sys/mman.h>
static void large(void) {
  static uint8_t *big;
  if (!big) {
    big = mmap(NULL, 1u << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (big == MAP_FAILED) abort();
  }
  /* the field is the only content of its neighbourhood in an otherwise zero buffer */
  for (int k = 8; k <= 32; k++)
    for (int o = -70; o <= (k == 32 ? -65 : 70); o += k == 32 ? 1 : mc_thorough() ? 1 : 5)
      for (uint32_t len = 1; len <= 64; len++) {
        if (!mc_mine()) continue;
        uint32_t pos = (uint32_t)((1ull << k) + (uint64_t)(int64_t)o), at = pos / 8;
        uint32_t lo = at >= 16 ? at - 16 : 0, hi = at + 26;
        if (hi > 1u << 29) hi = 1u << 29;
        uint8_t ref[64];
        MC_POINT("position %u, width %d", pos, len);
        for (int v = 0; v < 3; v++) {
          uint64_t x = val(len, v == 0 ? 1 : v + 3);
          fill(big + lo, hi - lo, v ? 4 : 0);
          memcpy(ref, big + lo, hi - lo);
          for (uint32_t i = 0; i < len; i++) mset(ref, pos - lo * 8 + i, (int)(x >> (len - 1 - i)) & 1);
          if (len <= 32 && v != 1) setbitu(big, pos, len, (u32)x);
          else if (v == 1) setbitsl(big, pos, len, (s64)x);
          else setbitul(big, pos, len, x);
          MC_CHECK(!memcmp(ref, big + lo, hi - lo), "set-far", "width %u at %u: wrong bits changed", len, pos);
          memcpy(big + lo, ref, hi - lo);
          get_one(pos, len, big);
        }
        memset(big + lo, 0, hi - lo);
        mc_calls(3);
        mc_history();
      }
  static const uint32_t CN[] = {255 * 8, 256 * 8, 255 * 32, 8161, 256 * 32, 256 * 32 + 17, 65535, 65536, 65537, 65536 * 2 + 5, 65536 * 32, 65536 * 32 + 33};
  for (int c = 0; c < 12; c++)
    for (uint32_t d = 0; d < 3; d++)
      for (uint32_t a = 0; a < 9; a += 4) {
        if (!mc_mine()) continue;
        uint32_t n = CN[c], di = d == 2 ? 65539 : d * 3, db = (di + n + 7) / 8, sb = (a + n + 7) / 8;
        uint8_t *s = malloc(sb), *t = malloc(db), *r = malloc(db);
        MC_POINT("bitcopy of %u bits, %d to %u", n, a, di);
        fill(s, sb, 5);
        fill(t, db, 4);
        memcpy(r, t, db);
        for (uint32_t i = 0; i < n; i++) mset(r, di + i, mbit(s, a + i));
        bitcopy(t, di, s, a, n);
        MC_CHECK(!memcmp(r, t, db), "copy-large", "the copy of %u bits is wrong", n);
        mc_calls(1);
        free(s), free(t), free(r);
      }
  static const uint32_t SZ[] = {31, 32, 33, 255, 256, 257, 8191, 8192, 8193, 65535, 65536, 65537, 131073};
  for (int c = 0; c < 13; c++)
    for (int h = 0; h < 14; h++)
      for (uint32_t e = 0; e < 10; e += 3) {
        if (!mc_mine()) continue;
        uint32_t n = SZ[c], B[] = {0, 1, 255, 256, 2047, 2048, 65535, 65536, n * 4, n * 8 - 9, n * 8 - 8, n * 8, n * 8 + 1, 0xFFFFFF00u}, sh = B[h] + e;
        uint8_t *t = malloc(n), *r = calloc(1, n);
        MC_POINT("shift of %u bytes by %u", n, sh);
        fill(t, n, 5);
        for (uint32_t i = 0; i < n * 8 && (uint64_t)i + sh < n * 8; i++) mset(r, i, mbit(t, i + sh));
        bitshl(t, n, sh);
        MC_CHECK(!memcmp(r, t, n), "shift-large", "the shift of %u bytes by %u is wrong", n, sh);
        mc_calls(1);
        free(t), free(r);
      }
}
MC_SPACES({"fields", "every position x width 0..64 x background pattern x value alphabet (patterns, walking ones and zeros), read and written with every field function in a buffer that ends with the field", fields, 0},
          {"refused-widths", "widths 0 and larger than the type", badwidth, 0},
          {"bitcopy", "every destination and source offset x every bit count", copies, 0},
          {"bitshl", "every buffer size x every shift up to past the end", shifts, 0},
          {"large", "every width at 29 (141) positions around each power of two up to 2^32 bits; copies of 2^11 to 2^21 bits; shifts of 31 to 131073 bytes", large, 0},
          {"words", "parity, bit counts, interleave and byte order over all 8 and 16 bit values and all sparse 32 and 64 bit values", words, 0},
          {"sign-extend", "sign extension macros, every width", sx, 0})
