/* C06: checked copy, bounded string length, array search.
 * MC-flavours: san opt
 * MC-libonly: memcpy_s.c logging.c logging_common.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/array_tools.h>
#include <sys/mman.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/swift_strnlen.h>

static void nolog(int l, const char *m, ...) { (void)l; (void)m; }
static void nodlog(int l, const char *f, const int n, const char *m, ...) { (void)l; (void)f; (void)n; (void)m; }

#define MAXN 26
static void pat(uint8_t *p, uint32_t n, uint32_t k) {
  for (uint32_t i = 0; i < n; i++) p[i] = (uint8_t)(mc_mix(i + 100u * k) >> 9);
}

static void separate(void) {
  logging_set_implementation(nolog, nodlog);
  uint32_t N = mc_thorough() ? 70 : MAXN;
  for (uint32_t ds = 0; ds <= N; ds++)
    for (uint32_t cnt = 0; cnt <= N; cnt++) {
      if (!mc_mine()) continue;
      for (int nd = 0; nd < 2; nd++)
        for (int ns = 0; ns < 2; ns++) {
          MC_POINT("copy destsize=%d count=%d dest null=%d src null=%d", ds, cnt, nd, ns);
          /* both regions end where their allocation ends */
          uint8_t *d = malloc(ds ? ds : 1), *s = malloc(cnt ? cnt : 1);
          uint8_t before[128], want[128];
          pat(d, ds, 1);
          pat(s, cnt, 2);
          memcpy(before, d, ds);
          memcpy(want, d, ds);
          bool ok = !nd && !ns && ds > 0 && cnt > 0 && cnt <= ds;
          if (ok) memcpy(want, s, cnt);
          int r = memcpy_s(nd ? NULL : d, ds, ns ? NULL : s, cnt);
          mc_calls(1);
          mc_history();
          MC_CHECK((r == MEMCPY_S_OK) == ok, "copy-result", "result %d, expected %s", r, ok ? "success" : "an error");
          MC_CHECK(!memcmp(d, want, ds), "copy-data", "destination of %u bytes wrong after copying %u (result %d)", ds, cnt, r);
          if (!ok) {
            /* one cause only: that cause must be named */
            int causes = nd + ns + (ds == 0) + (cnt == 0) + (ds < cnt);
            int want_r = nd ? MEMCPY_S_DEST_NULL : ns ? MEMCPY_S_SRC_NULL : ds == 0 ? MEMCPY_S_DEST_SIZE_ZERO
                         : cnt == 0 ? MEMCPY_S_SRC_SIZE_ZERO : MEMCPY_S_OVERSIZED;
            if (causes == 1) MC_CHECK(r == want_r, "copy-code", "error code %d, expected %d", r, want_r);
          }
          uint8_t sref[128];
          pat(sref, cnt, 2);
          MC_CHECK(!memcmp(s, sref, cnt), "copy-src", "the source changed");
          mc_outcome((uint64_t)r * 4096 + ds * 64 + cnt);
          free(d);
          free(s);
        }
    }
  /* a room of gigabytes is no reason to refuse a small copy */
  static const uint64_t room[] = {0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000008ull, 0x180000000ull};
  for (int i = 0; i < 5; i++)
    for (uint32_t cnt = 1; cnt <= 16; cnt++) {
      if (!mc_mine()) continue;
      uint8_t *m = mmap(NULL, 0x200000000ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *d = m + 64;
      if (m == MAP_FAILED) continue;
      for (uint32_t k = 0; k < cnt; k++) m[k] = (uint8_t)(k + 1);
      MC_POINT("copy destsize=%x count=%d", (long long)room[i], cnt);
      MC_CHECK(memcpy_s(d, room[i], m, cnt) == MEMCPY_S_OK && !memcmp(d, m, cnt) && d[cnt] == 0 && m[cnt] == 0, "copy-room", "a copy of %d bytes into 2^%g failed", cnt, log2((double)room[i]));
      mc_calls(1);
      munmap(m, 0x200000000ull);
    }
  /* sizes near the top of the range are refused without any access */
  static const uint64_t huge[] = {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x100000008ull, UINT64_MAX / 2, UINT64_MAX};
  for (int i = 0; i < 7; i++)
    for (uint32_t ds = 1; ds <= 16; ds++) {
      if (!mc_mine()) continue;
      uint8_t *d = calloc(1, ds), s[16] = {1, 2, 3};
      MC_POINT("copy destsize=%d count=%x", ds, (long long)huge[i]);
      MC_CHECK(memcpy_s(d, ds, s, huge[i]) == MEMCPY_S_OVERSIZED, "copy-huge", "a copy of 2^%g bytes was accepted", log2((double)huge[i]));
      for (uint32_t k = 0; k < ds; k++) MC_CHECK(d[k] == 0, "copy-huge", "destination written");
      mc_calls(1);
      free(d);
    }
}

static void overlap(void) {
  logging_set_implementation(nolog, nodlog);
  int N = mc_thorough() ? 20 : 12;
  for (int ds = 1; ds <= N; ds++)
    for (int cnt = 1; cnt <= ds; cnt++) {
      if (!mc_mine()) continue;
      for (int off = -N - 2; off <= N + 2; off++) {
        /* source starts off bytes after the destination */
        uint8_t arena[128], before[128];
        pat(arena, 128, 3);
        memcpy(before, arena, 128);
        uint8_t *d = arena + 64, *s = d + off;
        MC_POINT("overlap destsize=%d count=%d offset=%d", ds, cnt, off);
        int r = memcpy_s(d, (size_t)ds, s, (size_t)cnt);
        mc_calls(1);
        mc_history();
        bool touch = off < cnt && off > -cnt;         /* the bytes copied overlap */
        bool clear = off >= ds || off <= -cnt;        /* not even the destination's room does */
        MC_CHECK(r == MEMCPY_S_OK || r == MEMCPY_S_OVERLAP, "overlap-code", "result %d", r);
        if (touch && off != 0) MC_CHECK(r == MEMCPY_S_OVERLAP, "overlap-missed", "overlap by offset %d accepted", off);
        if (clear) MC_CHECK(r == MEMCPY_S_OK, "overlap-false", "no overlap at offset %d but refused", off);
        if (r == MEMCPY_S_OK) memmove(before + 64, before + 64 + off, (size_t)cnt);
        MC_CHECK(!memcmp(arena, before, 128), "overlap-data", "memory wrong after result %d", r);
        mc_outcome((uint64_t)r * 31 + (uint64_t)(off + 64));
      }
    }
}

static void macro_aborts(void *a) {
  int k = *(int *)a;
  uint8_t d[8] = {0}, s[16] = {1};
  switch (k) {
    case 0: MEMCPY_S(d, 8, s, 9); break;
    case 1: MEMCPY_S(d, 8, s, 0); break;
    case 2: MEMCPY_S((void *)NULL, 8, s, 4); break;
    case 3: MEMCPY_S(d, 8, d + 2, 4); break;
    case 4: MEMCPY_S(d, 8, s, 8); break;
    case 5: MEMCPY_S(d, 8, s, 1); break;
  }
}
static void macro(void) {
  logging_set_implementation(nolog, nodlog);
  for (int k = 0; k < 6; k++) {
    if (!mc_mine()) continue;
    MC_POINT("macro case %d", k);
    mc_iso_t r = mc_isolate(macro_aborts, &k, 5000);
    MC_CHECK((r == MC_ISO_OK) == (k >= 4), "macro", "checked-copy macro case %d: outcome %d", k, r);
    mc_calls(1);
    mc_history();
    mc_outcome((uint64_t)k);
  }
}

static void strings(void) {
  int L = mc_thorough() ? 12 : 9;
  for (int size = 0; size <= L; size++)
    for (int bitsv = 0; bitsv < 1 << size; bitsv++) {
      if (!mc_mine()) continue;
      /* bit set: non-zero byte */
      char *s = malloc(size ? (size_t)size : 1);
      size_t first = (size_t)size;
      for (int i = size - 1; i >= 0; i--) {
        s[i] = (char)((bitsv >> i & 1) ? (i % 2 ? 'a' : -1) : 0);
        if (!s[i]) first = (size_t)i;
      }
      for (size_t max = 0; max <= (size_t)size; max++) {
        MC_POINT("strnlen size=%d bytes=%x max=%d", size, bitsv, (long long)max);
        size_t want = first < max ? first : max;
        MC_CHECK(swift_strnlen(s, max) == want, "strnlen", "length %zu, expected %zu", swift_strnlen(s, max), want);
        mc_calls(1);
        mc_history();
        mc_outcome(want);
      }
      if (first < (size_t)size) /* terminated: any bound is safe */
        MC_CHECK(swift_strnlen(s, (size_t)-1) == first, "strnlen", "unbounded length");
      free(s);
    }
  /* long strings around every power of two up to 64 KiB */
  for (size_t n = 1; n <= 65536; n *= 2)
    for (int d = -1; d <= 1; d++) {
      if (!mc_mine()) continue;
      size_t len = n + (size_t)d;
      char *s = malloc(len + 1);
      memset(s, 'x', len);
      s[len] = 0;
      MC_POINT("strnlen long %d", (long long)len);
      MC_CHECK(swift_strnlen(s, len + 1) == len && swift_strnlen(s, len) == len, "strnlen-long", "length of a %zu byte string", len);
      mc_calls(2);
      free(s);
    }
}

static void arrays(void) {
  for (int n = 0; n <= 255; n++)
    for (int at = -1; at < n; at++) {
      if (!mc_mine()) continue;
      uint8_t *a = malloc(n ? (size_t)n : 1);
      uint16_t *b = malloc(n ? 2 * (size_t)n : 1);
      for (int i = 0; i < n; i++) {
        a[i] = (uint8_t)(i == at ? 0xC3 : (i * 7) % 0xC3);
        b[i] = (uint16_t)(i == at ? 0xC35A : 0x5A + 256 * ((i * 7) % 0xC3));
      }
      MC_POINT("array n=%d at=%d", n, at);
      MC_CHECK(is_value_in_array(a, (u8)n, 0xC3) == (at >= 0), "in-array", "8 bit search of %d, value at %d", n, at);
      MC_CHECK(is_value_in_array_u16(b, (u8)n, 0xC35A) == (at >= 0), "in-array16", "16 bit search of %d, value at %d", n, at);
      mc_calls(2);
      mc_history();
      mc_outcome((uint64_t)n);
      free(a);
      free(b);
    }
}
MC_SPACES({"copy", "every destination size x count x null pointers, exact allocations, huge counts", separate, 0},
          {"overlap", "every destination size x count x relative offset", overlap, 0},
          {"macro", "the asserting copy macro on 6 outcomes", macro, 0},
          {"strnlen", "every zero/non-zero string up to length 9 (12) x every bound; lengths around powers of two", strings, 0},
          {"arrays", "every array length 0..255 x every position of the value", arrays, 0})
