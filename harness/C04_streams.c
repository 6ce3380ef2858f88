/* C04: bit and byte streams against a cursor model.
 * MC-flavours: san opt
 * MC-libonly: bits.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>

static int mbit(const uint8_t *b, uint64_t i) { return (b[i / 8] >> (7 - i % 8)) & 1; }
static uint64_t mget(const uint8_t *b, uint64_t pos, uint32_t len) {
  uint64_t v = 0;
  for (uint32_t i = 0; i < len; i++) v = v << 1 | (uint64_t)mbit(b, pos + i);
  return v;
}
static int64_t msext(uint64_t v, uint32_t len) {
  if (len && len < 64 && (v >> (len - 1))) v |= ~(uint64_t)0 << len;
  return (int64_t)v;
}
/* payload allocated exactly */
static uint8_t *payload(uint32_t n, int pat) {
  uint8_t *p = malloc(n ? n : 1);
  for (uint32_t i = 0; i < n; i++)
    p[i] = pat == 0 ? 0xFF : (uint8_t)(mc_mix(i + 1000u * (uint32_t)pat) >> 11);
  return p;
}

static void in_get(swiftnav_in_bitstream_t *s, const uint8_t *data, uint32_t bits, uint32_t off, uint32_t pos,
                   uint32_t len) {
  bool ok = (uint64_t)off + pos + len <= bits;
  uint64_t v = ok && len <= 64 ? mget(data, (uint64_t)off + pos, len) : 0;
  MC_CHECK(swiftnav_in_bitstream_would_overflow(s, pos, len) == !ok, "in-overflow",
           "would_overflow(offset %u, pos %u, len %u) of %u bits is wrong", off, pos, len, bits);
  mc_calls(1);
  if (len <= 32) {
    u32 o = 0xDEADBEEF;
    MC_CHECK(swiftnav_in_bitstream_getbitu(s, &o, pos, len) == ok, "in-getbitu", "getbitu(%u,%u) at %u of %u", pos, len, off, bits);
    MC_CHECK(ok ? o == v : o == 0xDEADBEEF, "in-getbitu-val", "getbitu(%u,%u) at %u: value %x", pos, len, off, o);
    mc_calls(1);
    if (len) {
      s32 so = 0x5A5A5A5A;
      MC_CHECK(swiftnav_in_bitstream_getbits(s, &so, pos, len) == ok, "in-getbits", "getbits(%u,%u) at %u of %u", pos, len, off, bits);
      MC_CHECK(ok ? so == msext(v, len) : so == 0x5A5A5A5A, "in-getbits-val", "getbits(%u,%u) at %u: %d", pos, len, off, so);
      mc_calls(1);
    }
  }
  if (len <= 64) {
    u64 o = 0xDEADBEEFDEADBEEFull;
    MC_CHECK(swiftnav_in_bitstream_getbitul(s, &o, pos, len) == ok, "in-getbitul", "getbitul(%u,%u) at %u of %u", pos, len, off, bits);
    MC_CHECK(ok ? o == v : o == 0xDEADBEEFDEADBEEFull, "in-getbitul-val", "getbitul(%u,%u) at %u", pos, len, off);
    mc_calls(1);
    if (len) {
      s64 so = 0x5A5A5A5A5A5A5A5All;
      MC_CHECK(swiftnav_in_bitstream_getbitsl(s, &so, pos, len) == ok, "in-getbitsl", "getbitsl(%u,%u) at %u of %u", pos, len, off, bits);
      MC_CHECK(ok ? so == msext(v, len) : so == 0x5A5A5A5A5A5A5A5All, "in-getbitsl-val", "getbitsl(%u,%u) at %u", pos, len, off);
      mc_calls(1);
    }
  } else if (!ok) {
    u64 o = 7;
    u32 p = 9;
    MC_CHECK(!swiftnav_in_bitstream_getbitul(s, &o, pos, len) && o == 7, "in-wide", "a %u bit read was accepted", len);
    MC_CHECK(!swiftnav_in_bitstream_getbitu(s, &p, pos, len) && p == 9, "in-wide", "a %u bit read was accepted", len);
    mc_calls(2);
  }
  MC_CHECK(s->offset == off && s->len == bits && s->data == data, "in-state", "a read changed the stream");
  mc_outcome((uint64_t)ok << 40 | v);
}

static void in_states(void) {
  uint32_t maxbytes = mc_thorough() ? 14 : 10;
  for (uint32_t bits = 0; bits <= maxbytes * 8; bits++)
    for (uint32_t off = 0; off <= bits + 3; off++) {
      if (!mc_mine()) continue;
      uint8_t *d = payload((bits + 7) / 8, 1 + (int)(bits % 3));
      swiftnav_in_bitstream_t s;
      memset(&s, 0xEE, sizeof s);
      swiftnav_in_bitstream_init(&s, d, bits);
      MC_POINT("in stream bits=%d offset=%d", bits, off);
      /* reach the offset in two steps */
      swiftnav_in_bitstream_remove(&s, off / 2);
      swiftnav_in_bitstream_remove(&s, off - off / 2);
      mc_calls(4);
      MC_CHECK(swiftnav_in_bitstream_remaining(&s) == (off > bits ? 0 : bits - off), "in-remaining", "remaining at %u of %u",
               off, bits);
      MC_CHECK(s.offset == off, "in-offset", "cursor %u, expected %u", s.offset, off);
      for (uint32_t pos = 0; pos <= bits + 2 - (off < bits ? off : bits); pos++)
        for (uint32_t len = 0; len <= 66; len++) {
          MC_POINT("in stream bits=%d offset=%d pos=%d len=%d", bits, off, pos, len);
          in_get(&s, d, bits, off, pos, len);
        }
      mc_history();
      free(d);
    }
}

static const uint32_t big[] = {0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 0x7FFFFFFFu, 0x80000000u, 0x80000001u,
                               0xFFFFFF00u, 0xFFFFFFC0u, 0xFFFFFFDFu, 0xFFFFFFE0u, 0xFFFFFFE1u, 0xFFFFFFF0u, 0xFFFFFFF8u,
                               0xFFFFFFFEu, 0xFFFFFFFFu};
#define NBIG (sizeof big / sizeof big[0])
static void extremes(void) {
  for (uint32_t bits = 0; bits <= 72; bits += 8)
    for (unsigned i = 0; i < NBIG; i++)
      for (unsigned j = 0; j < NBIG; j++) {
        if (!mc_mine()) continue;
        for (unsigned k = 0; k < NBIG; k++) {
          uint8_t *d = payload(bits / 8, 2);
          swiftnav_in_bitstream_t s;
          swiftnav_in_bitstream_init(&s, d, bits);
          swiftnav_in_bitstream_remove(&s, big[i]);
          MC_POINT("extreme bits=%d offset=%x pos=%x len=%x", bits, big[i], big[j], big[k]);
          in_get(&s, d, bits, big[i], big[j], big[k]);
          MC_CHECK(swiftnav_in_bitstream_remaining(&s) == (big[i] > bits ? 0 : bits - big[i]), "in-remaining", "remaining");
          /* output stream */
          swiftnav_out_bitstream_t o;
          uint8_t ref[16];
          memcpy(ref, d, bits / 8);
          swiftnav_out_bitstream_init(&o, d, bits);
          swiftnav_out_bitstream_remove(&o, big[i]);
          bool ok = (uint64_t)big[i] + big[j] + big[k] <= bits;
          MC_CHECK(swiftnav_out_bitstream_would_overflow(&o, big[j], big[k]) == !ok, "out-overflow", "would_overflow");
          MC_CHECK(swiftnav_out_bitstream_remaining(&o) == (big[i] > bits ? 0 : bits - big[i]), "out-remaining", "remaining");
          if (!ok) {
            u32 a = 0x12345678;
            s32 b = -3;
            u64 c = 5;
            s64 e = -6;
            MC_CHECK(!swiftnav_out_bitstream_setbitu(&o, &a, big[j], big[k]), "out-accept", "setbitu past the end accepted");
            MC_CHECK(!swiftnav_out_bitstream_setbits(&o, &b, big[j], big[k]), "out-accept", "setbits past the end accepted");
            MC_CHECK(!swiftnav_out_bitstream_setbitul(&o, &c, big[j], big[k]), "out-accept", "setbitul past the end accepted");
            MC_CHECK(!swiftnav_out_bitstream_setbitsl(&o, &e, big[j], big[k]), "out-accept", "setbitsl past the end accepted");
            MC_CHECK(!memcmp(ref, d, bits / 8), "out-touch", "a refused write changed the payload");
            mc_calls(4);
          }
          /* byte stream with the same numbers */
          swiftnav_bytestream_t y;
          memset(&y, 0, sizeof y);
          uint32_t nb = bits / 8;
          swiftnav_bytestream_init(&y, d, nb);
          swiftnav_bytestream_remove(&y, big[i]);
          bool yok = (uint64_t)big[i] + big[j] + big[k] <= nb;
          MC_CHECK(swiftnav_bytestream_would_overflow(&y, big[j], big[k]) == !yok, "byte-overflow", "would_overflow");
          MC_CHECK(swiftnav_bytestream_remaining(&y) == (big[i] > nb ? 0 : nb - big[i]), "byte-remaining", "remaining");
          uint8_t dst[16] = {0};
          MC_CHECK(swiftnav_bytestream_get_bytes(&y, big[j], big[k], dst) == yok, "byte-get", "get_bytes accepted wrongly");
          mc_calls(9);
          mc_history();
          free(d);
        }
      }
}

static void out_states(void) {
  for (uint32_t bits = 0; bits <= (mc_thorough() ? 96u : 72u); bits++)
    for (uint32_t off = 0; off <= bits + 1; off++) {
      if (!mc_mine()) continue;
      uint32_t nb = (bits + 7) / 8;
      for (uint32_t pos = 0; off + pos <= bits + 1; pos++)
        for (uint32_t len = 0; len <= 64; len++)
          for (int fn = 0; fn < 4; fn++) {
            if (fn < 2 && len > 32) continue;
            MC_POINT("out stream fn=%d bits=%d offset=%d pos=%d len=%d", fn, bits, off, pos, len);
            uint8_t *d = payload(nb, 1), ref[16];
            memcpy(ref, d, nb);
            swiftnav_out_bitstream_t o;
            swiftnav_out_bitstream_init(&o, d, bits);
            swiftnav_out_bitstream_remove(&o, off);
            uint64_t v = mc_mix(pos * 64 + len + off * 31);
            bool ok = off + pos + len <= bits, r;
            if (ok)
              for (uint32_t i = 0; i < len; i++) {
                uint32_t p = off + pos + i;
                uint8_t m = (uint8_t)(0x80 >> (p % 8));
                ref[p / 8] = (uint8_t)(((v >> (len - 1 - i)) & 1) ? (ref[p / 8] | m) : (ref[p / 8] & ~m));
              }
            u32 a = (u32)v;
            s32 b = (s32)(u32)v;
            s64 e = (s64)v;
            r = fn == 0 ? swiftnav_out_bitstream_setbitu(&o, &a, pos, len)
                : fn == 1 ? swiftnav_out_bitstream_setbits(&o, &b, pos, len)
                : fn == 2 ? swiftnav_out_bitstream_setbitul(&o, &v, pos, len)
                          : swiftnav_out_bitstream_setbitsl(&o, &e, pos, len);
            mc_calls(1);
            MC_CHECK(r == ok, "out-result", "write fn %d at %u+%u len %u of %u bits returned %d", fn, off, pos, len, bits, r);
            MC_CHECK(!memcmp(d, ref, nb), "out-data", "write fn %d at %u+%u len %u of %u bits stored wrongly", fn, off, pos, len, bits);
            MC_CHECK(o.offset == off, "out-cursor", "a write moved the cursor");
            mc_outcome(mc_hash(d, nb));
            free(d);
          }
      mc_history();
    }
}

/* every history of get+remove over small steps; each history is a partition of
 * the payload with failing reads in between */
static uint8_t *hd;
static uint32_t hbits;
static void in_hist(swiftnav_in_bitstream_t s, uint32_t off, int depth, uint64_t h) {
  static const uint32_t steps[] = {0, 1, 3, 8, 13, 32};
  mc_depth(depth);
  if (depth == (mc_thorough() ? 7 : 6)) {
    mc_history();
    return;
  }
  for (unsigned k = 0; k < 6; k++) {
    swiftnav_in_bitstream_t t = s;
    uint64_t h2 = h * 7 + k + 1;
    MC_POINT("history %x bits=%d offset=%d step=%d", (long long)h2, hbits, off, steps[k]);
    u32 o = 0;
    bool ok = off + steps[k] <= hbits;
    MC_CHECK(swiftnav_in_bitstream_getbitu(&t, &o, 0, steps[k]) == ok, "hist-get", "getbitu(0,%u) at %u of %u", steps[k], off, hbits);
    mc_calls(1);
    if (ok) {
      MC_CHECK(o == mget(hd, off, steps[k]), "hist-val", "wrong value at %u", off);
      swiftnav_in_bitstream_remove(&t, steps[k]);
      mc_calls(1);
    }
    uint32_t no = ok ? off + steps[k] : off;
    MC_CHECK(swiftnav_in_bitstream_remaining(&t) == hbits - no, "hist-remaining", "remaining %u", swiftnav_in_bitstream_remaining(&t));
    in_hist(t, no, depth + 1, h2);
  }
}
static void hist(void) {
  for (hbits = 0; hbits <= 64; hbits++) {
    if (!mc_mine()) continue;
    hd = payload((hbits + 7) / 8, 3);
    swiftnav_in_bitstream_t s;
    swiftnav_in_bitstream_init(&s, hd, hbits);
    in_hist(s, 0, 0, 0);
    free(hd);
  }
}

/* ---- byte stream histories: all sequences of typed decodes ---- */
static uint32_t hlen;
static int hbe;
static uint64_t asm_(const uint8_t *p, int n, int be) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | p[be ? i : n - 1 - i];
  return v;
}
static void byte_hist(swiftnav_bytestream_t s, uint32_t off, int depth, uint64_t h) {
  mc_depth(depth);
  if (depth == (mc_thorough() ? 6 : 5)) {
    mc_history();
    return;
  }
  for (int k = 0; k < 11; k++) {
    swiftnav_bytestream_t t = s;
    uint64_t h2 = h * 12 + (uint64_t)k + 1;
    MC_POINT("byte history %x len=%d offset=%d op=%d big=%d", (long long)h2, hlen, off, k, hbe);
    static const int width[] = {1, 1, 2, 2, 4, 4, 8, 8};
    uint32_t no = off;
    if (k < 8) {
      int n = width[k];
      bool ok = (uint64_t)off + (uint64_t)n <= hlen, r = false;
      u8 a = 1;
      s8 b = 1;
      u16 c = 1;
      s16 d = 1;
      u32 e = 1;
      s32 f = 1;
      u64 g = 1;
      s64 q = 1;
      uint64_t got = 0;
      switch (k) {
        case 0: r = swiftnav_bytestream_decode_u8(&t, &a); got = a; break;
        case 1: r = swiftnav_bytestream_decode_s8(&t, &b); got = (uint8_t)b; break;
        case 2: r = swiftnav_bytestream_decode_u16(&t, &c); got = c; break;
        case 3: r = swiftnav_bytestream_decode_s16(&t, &d); got = (uint16_t)d; break;
        case 4: r = swiftnav_bytestream_decode_u32(&t, &e); got = e; break;
        case 5: r = swiftnav_bytestream_decode_s32(&t, &f); got = (uint32_t)f; break;
        case 6: r = swiftnav_bytestream_decode_u64(&t, &g); got = g; break;
        case 7: r = swiftnav_bytestream_decode_s64(&t, &q); got = (uint64_t)q; break;
      }
      MC_CHECK(r == ok, "byte-result", "decode %d at %u of %u returned %d", k, off, hlen, r);
      if (ok) {
        MC_CHECK(got == asm_(hd + off, n, hbe), "byte-value", "decode %d at %u big=%d: %llx", k, off, hbe, (unsigned long long)got);
        no += (uint32_t)n;
      } else {
        MC_CHECK(got == 1, "byte-dest", "a failed decode stored a value");
      }
    } else if (k == 8) {
      uint8_t buf[8] = {0};
      bool ok = off + 3 <= hlen;
      MC_CHECK(swiftnav_bytestream_get_bytes(&t, 1, 2, buf) == ok, "byte-get", "get_bytes(1,2) at %u of %u", off, hlen);
      if (ok) MC_CHECK(!memcmp(buf, hd + off + 1, 2) && !buf[2], "byte-get", "get_bytes value");
    } else if (k == 9) {
      swiftnav_bytestream_remove(&t, 3);
      no += 3;
    } else {
      uint8_t buf[16] = {0};
      uint32_t n = off < hlen ? hlen - off : 0;
      if (off <= hlen) {
        MC_CHECK(swiftnav_bytestream_get_bytes(&t, 0, n, buf), "byte-rest", "could not read the %u remaining bytes", n);
        MC_CHECK(!memcmp(buf, hd + off, n), "byte-rest", "remaining bytes differ");
      }
      MC_CHECK(!swiftnav_bytestream_get_bytes(&t, 0, n + 1, buf), "byte-rest", "read %u bytes of %u", n + 1, n);
    }
    mc_calls(1);
    MC_CHECK(t.offset == no, "byte-cursor", "cursor %u, expected %u", t.offset, no);
    MC_CHECK(swiftnav_bytestream_remaining(&t) == (no > hlen ? 0 : hlen - no), "byte-remaining", "remaining at %u of %u", no, hlen);
    mc_outcome(h2 * 31 + no);
    byte_hist(t, no, depth + 1, h2);
  }
}
static void bytes(void) {
  for (hlen = 0; hlen <= 12; hlen++)
    for (hbe = 0; hbe < 2; hbe++) {
      if (!mc_mine()) continue;
      hd = payload(hlen, 4);
      swiftnav_bytestream_t s;
      memset(&s, 0, sizeof s);
      swiftnav_bytestream_init(&s, hd, hlen);
      s.endianess = hbe ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
      byte_hist(s, 0, 0, 0);
      free(hd);
    }
}

/* ---- every value: all 1 and 2 byte values, and every wider value over an alphabet of 6 bytes ---- */
static void value(int n, int be, uint64_t want, const uint8_t *p) {
  swiftnav_bytestream_t s, t;
  memset(&s, 0, sizeof s);
  swiftnav_bytestream_init(&s, p, (uint32_t)n);
  s.endianess = be ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
  for (int sg = 0; sg < 2; sg++) {
    t = s;
    uint64_t got = 0;
    int64_t sv = 0, ws = 0;
    bool r = false;
    if (n == 1) {
      u8 a = 3;
      s8 b = 3;
      r = sg ? swiftnav_bytestream_decode_s8(&t, &b) : swiftnav_bytestream_decode_u8(&t, &a);
      got = a, sv = b, ws = (int64_t)want - ((want >> 7) ? 0x100 : 0);
    } else if (n == 2) {
      u16 a = 3;
      s16 b = 3;
      r = sg ? swiftnav_bytestream_decode_s16(&t, &b) : swiftnav_bytestream_decode_u16(&t, &a);
      got = a, sv = b, ws = (int64_t)want - ((want >> 15) ? 0x10000 : 0);
    } else if (n == 4) {
      u32 a = 3;
      s32 b = 3;
      r = sg ? swiftnav_bytestream_decode_s32(&t, &b) : swiftnav_bytestream_decode_u32(&t, &a);
      got = a, sv = b, ws = (int64_t)want - ((want >> 31) ? 0x100000000LL : 0);
    } else {
      u64 a = 3;
      s64 b = 3;
      r = sg ? swiftnav_bytestream_decode_s64(&t, &b) : swiftnav_bytestream_decode_u64(&t, &a);
      got = a, sv = b, ws = (int64_t)want;
    }
    MC_CHECK(r && t.offset == (uint32_t)n && (sg ? sv == ws : got == want), "value", "%d byte %s decode of %llx big=%d gave %llx", n,
             sg ? "signed" : "unsigned", (unsigned long long)want, be, (unsigned long long)(sg ? (uint64_t)sv : got));
  }
  mc_calls(2);
}
static void values(void) {
  static const uint8_t A[6] = {0, 1, 0x55, 0x7f, 0x80, 0xff};
  uint8_t p[8];
  for (int be = 0; be < 2; be++)
    for (uint32_t b0 = 0; b0 < 65536; b0++) {
      if (!mc_mine()) continue;
      MC_POINT("bytes %x big=%d", b0, be);
      p[0] = (uint8_t)b0, p[1] = (uint8_t)(b0 >> 8);
      if (b0 < 256) value(1, be, b0, p);
      value(2, be, asm_(p, 2, be), p);
      mc_history();
    }
  for (int n = 4; n <= 8; n += 4)
    for (int be = 0; be < 2; be++) {
      uint64_t tot = 1;
      for (int i = 0; i < n; i++) tot *= 6;
      for (uint64_t k = 0; k < tot; k++) {
        if (!mc_mine()) continue;
        MC_POINT("%d bytes over the alphabet, number %d, big=%d", n, (long long)k, be);
        uint64_t c = k;
        for (int i = 0; i < n; i++) p[i] = A[c % 6], c /= 6;
        value(n, be, asm_(p, n, be), p);
        mc_history();
      }
    }
}

MC_SPACES({"in-bitstream", "every payload length in bits x every cursor x every position and width", in_states, 0},
          {"extremes", "offset, position and width each from an alphabet up to 2^32-1, on payloads of 0..9 bytes", extremes, 0},
          {"out-bitstream", "every payload length x cursor x position x width x write function", out_states, 0},
          {"in-histories", "every history of read+remove with 6 step sizes", hist, 0},
          {"byte-histories", "every history of 11 byte stream operations, both byte orders, payloads of 0..12 bytes", bytes, 0},
          {"byte-values", "every 8 and 16 bit value and every 32 and 64 bit value over 6 byte values, signed and unsigned, both byte orders", values, 0})
