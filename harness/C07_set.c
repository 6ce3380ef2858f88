/* C07: sorted arrays as sets.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <swiftnav/set.h>

/* an element: key in the first byte (or s32), payload identifying its array */
static size_t esz;
static int cmp_key(const void *a, const void *b) {
  return (int)*(const uint8_t *)a - (int)*(const uint8_t *)b;
}
static int cmp_key_wide(const void *a, const void *b) { /* other legal magnitudes */
  int d = cmp_key(a, b);
  return d < 0 ? -1000000 : d > 0 ? 70000 : 0;
}
static uint8_t pay(int which, int key, size_t i) { return (uint8_t)(mc_mix((uint64_t)(which * 4096 + key * 16) + i) >> 5); }
static void mk(uint8_t *p, int which, int key, size_t sz) {
  p[0] = (uint8_t)(key * 3 + 1);
  for (size_t i = 1; i < sz; i++) p[i] = pay(which, key, i);
}
/* array from a bitmask, allocated exactly */
static uint8_t *arr(int which, unsigned mask, size_t sz, uint32_t *n) {
  *n = (uint32_t)__builtin_popcount(mask);
  uint8_t *a = malloc(*n ? *n * sz : 1), *p = a;
  for (int k = 0; k < 16; k++)
    if (mask >> k & 1) {
      mk(p, which, k, sz);
      p += sz;
    }
  return a;
}
typedef struct {
  uint32_t n;
  uint8_t key[16];
  const void *a[16], *b[16];
  void *self;
} seen_t;
static void on_match(void *ctx, u32 n, const void *a, const void *b) {
  seen_t *s = ctx;
  MC_CHECK(s->self == ctx, "map-context", "context pointer lost");
  MC_CHECK(n == s->n && n < 16, "map-index", "callback index %u, expected %u", n, s->n);
  s->key[s->n] = *(const uint8_t *)a;
  s->a[s->n] = a;
  s->b[s->n] = b;
  s->n++;
}

static void inter(void) {
  static const size_t sizes[][2] = {{1, 1}, {2, 5}, {8, 3}, {4, 4}, {1, 16}};
  unsigned U = mc_thorough() ? 10 : 8;
  for (unsigned A = 0; A < 1u << U; A++) {
    if (!mc_mine()) continue;
    for (unsigned B = 0; B < 1u << U; B++)
      for (int z = 0; z < 5; z++) {
        if (z != (int)((A + B) % 5) && (A & 3)) continue; /* every size pair for a quarter of A, one for the rest */
        size_t sa = sizes[z][0], sb = sizes[z][1];
        uint32_t na, nb, nc = (uint32_t)__builtin_popcount(A & B);
        uint8_t *a = arr(1, A, sa, &na), *b = arr(2, B, sb, &nb);
        uint8_t *ao = malloc(nc ? nc * sa : 1), *bo = malloc(nc ? nc * sb : 1);
        MC_POINT("intersection A=%x B=%x sizes %d %d", A, B, (long long)sa, (long long)sb);
        cmp_fn cmp = (A ^ B) & 1 ? cmp_key_wide : cmp_key;
        s32 r = intersection(na, sa, a, ao, nb, sb, b, bo, cmp);
        mc_calls(2);
        mc_history();
        MC_CHECK(r == (s32)nc, "inter-count", "%d common elements, expected %u", r, nc);
        uint32_t i = 0;
        uint8_t e[16];
        for (int k = 0; k < 16; k++)
          if ((A & B) >> k & 1) {
            mk(e, 1, k, sa);
            MC_CHECK(!memcmp(ao + i * sa, e, sa), "inter-a", "element %u of the first output is wrong", i);
            mk(e, 2, k, sb);
            MC_CHECK(!memcmp(bo + i * sb, e, sb), "inter-b", "element %u of the second output is wrong", i);
            i++;
          }
        seen_t s;
        memset(&s, 0, sizeof s);
        s.self = &s;
        r = intersection_map(na, sa, a, nb, sb, b, cmp, &s, on_match);
        MC_CHECK(r == (s32)nc && s.n == nc, "map-count", "callback called %u times, result %d, expected %u", s.n, r, nc);
        for (uint32_t j = 0; j < s.n && j < nc; j++)
          MC_CHECK(*(const uint8_t *)s.a[j] == *(const uint8_t *)s.b[j] && *(const uint8_t *)s.a[j] == ao[j * sa] &&
                   (const uint8_t *)s.a[j] >= a && (const uint8_t *)s.a[j] < a + na * sa && (const uint8_t *)s.b[j] >= b &&
                   (const uint8_t *)s.b[j] < b + nb * sb, "map-args", "callback %u got the wrong elements", j);
        /* either output may be omitted */
        if (z == 0) {
          MC_CHECK(intersection(na, sa, a, NULL, nb, sb, b, bo, cmp) == (s32)nc, "inter-null", "without first output");
          MC_CHECK(intersection(na, sa, a, ao, nb, sb, b, NULL, cmp) == (s32)nc, "inter-null", "without second output");
          mc_calls(2);
        }
        mc_outcome(A & B);
        free(a), free(b), free(ao), free(bo);
      }
  }
}

static void member(void) {
  static const size_t sizes[] = {1, 4, 7};
  unsigned U = mc_thorough() ? 10 : 8;
  for (unsigned A = 0; A < 1u << U; A++) {
    if (!mc_mine()) continue;
    for (int z = 0; z < 3; z++)
      for (int key = 0; key < 2 * (int)U + 1; key++) {
        /* probe keys: odd ones equal an element of the universe */
        size_t sz = sizes[z];
        uint32_t na, below = 0;
        uint8_t *a = arr(1, A, sz, &na);
        uint8_t *b = malloc(sz);
        mk(b, 3, key / 2, sz);
        b[0] = (uint8_t)((key / 2) * 3 + (key % 2 ? 1 : 0)); /* key%2==0: between elements */
        for (unsigned k = 0; k < U; k++)
          if ((A >> k & 1) && k * 3 + 1 < b[0]) below++;
        MC_POINT("element ops A=%x probe=%d size=%d", A, b[0], (long long)sz);
        MC_CHECK(insertion_index(na, sz, a, b, cmp_key) == below, "insert-index", "insertion index, expected %u", below);
        /* insert: as-lower elements, b, the rest */
        uint8_t *out = malloc((na + 1) * sz);
        u32 idx = insert_element(na, sz, a, out, b, cmp_key);
        MC_CHECK(idx == below, "insert-at", "inserted at %u, expected %u", idx, below);
        MC_CHECK(!memcmp(out, a, below * sz) && !memcmp(out + below * sz, b, sz) &&
                 !memcmp(out + (below + 1) * sz, a + below * sz, (na - below) * sz), "insert-data", "insertion result is wrong");
        free(out);
        /* removal drops the first element that is not less than b, or the last one */
        if (na > 0) {
          uint32_t want = below < na ? below : na - 1;
          out = malloc(na > 1 ? (na - 1) * sz : 1);
          idx = remove_element(na, sz, a, out, b, cmp_key);
          MC_CHECK(idx == want, "remove-at", "removed index %u, expected %u", idx, want);
          MC_CHECK(!memcmp(out, a, want * sz) && !memcmp(out + want * sz, a + (want + 1) * sz, (na - 1 - want) * sz),
                   "remove-data", "removal result is wrong");
          free(out);
        }
        if (na == 0)
          MC_CHECK(remove_element(0, sz, a, b, b, cmp_key) == 0, "remove-empty", "removal from an empty set");
        mc_calls(3);
        mc_history();
        mc_outcome(A * 64 + (unsigned)key);
        free(a), free(b);
      }
  }
}

static int cmp_s16(const void *a, const void *b) { return *(const int16_t *)a - *(const int16_t *)b; }
static void isset(void) {
  /* every array of up to 6 (7) elements over 4 values */
  int L = mc_thorough() ? 8 : 6;
  for (int n = 0; n <= L; n++) {
    uint32_t tot = 1u << (2 * n);
    for (uint32_t c = 0; c < tot; c++) {
      if (!mc_mine()) continue;
      int16_t *v = malloc(n ? 2 * (size_t)n : 1);
      int32_t *w = malloc(n ? 4 * (size_t)n : 1);
      gnss_signal_t *g = malloc(n ? sizeof(gnss_signal_t) * (size_t)n : 1);
      bool want = true;
      static const int16_t val[] = {-300, -1, 0, 2000};
      static const int32_t val32[] = {INT32_MIN, -1, 0, INT32_MAX};
      static const gnss_signal_t sg[] = {{5, CODE_GPS_L1CA}, {6, CODE_GPS_L1CA}, {1, CODE_GPS_L2CM}, {7, CODE_GAL_E1B}};
      for (int i = 0; i < n; i++) {
        v[i] = val[c >> (2 * i) & 3];
        w[i] = val32[c >> (2 * i) & 3];
        g[i] = sg[c >> (2 * i) & 3];
        if (i && (c >> (2 * i) & 3) <= (c >> (2 * (i - 1)) & 3)) want = false;
      }
      MC_POINT("is_set n=%d values=%x", n, c);
      MC_CHECK(is_set((u8)n, 2, v, cmp_s16) == want, "isset", "is_set is wrong");
      MC_CHECK(is_set((u8)n, 4, w, cmp_s32_s32) == want, "isset32", "is_set over 32 bit values is wrong");
      MC_CHECK(is_sid_set((u8)n, g) == want, "isset-sid", "is_sid_set is wrong");
      mc_calls(3);
      mc_history();
      mc_outcome(c);
      free(v), free(w), free(g);
    }
  }
  /* long sets: one descent at any position of up to 255 elements */
  for (int n = 0; n <= 255; n++)
    for (int bad = 0; bad <= n; bad++) {
      if (!mc_mine()) continue;
      int16_t *v = malloc(n ? 2 * (size_t)n : 1);
      for (int i = 0; i < n; i++) v[i] = (int16_t)(i * 100 - 9000);
      if (bad > 0 && bad < n) v[bad] = v[bad - 1];
      MC_POINT("is_set long n=%d duplicate at %d", n, bad);
      MC_CHECK(is_set((u8)n, 2, v, cmp_s16) == !(bad > 0 && bad < n), "isset-long", "is_set of %d elements", n);
      mc_calls(1);
      free(v);
    }
  static const int32_t x[] = {INT32_MIN, INT32_MIN + 1, -2, -1, 0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0x10000, INT32_MAX - 1, INT32_MAX};
  for (int i = 0; i < 13; i++)
    for (int j = 0; j < 13; j++) {
      if (!mc_mine()) continue;
      MC_POINT("cmp %d %d", x[i], x[j]);
      int c = cmp_s32_s32(&x[i], &x[j]);
      MC_CHECK((c > 0) == (i > j) && (c < 0) == (i < j), "cmp32", "comparison %d", c);
      mc_calls(1);
    }
  /* large intersections: counts beyond 255 */
  if (mc_mine()) {
    uint32_t n = 70000;
    int32_t *a = malloc(4 * n), *b = malloc(4 * n), *o = malloc(4 * n), *p = malloc(4 * n);
    for (uint32_t i = 0; i < n; i++) a[i] = (int32_t)i * 2, b[i] = (int32_t)i * 3;
    MC_POINT("large intersection %d", n);
    s32 r = intersection(n, 4, a, o, n, 4, b, p, cmp_s32_s32);
    MC_CHECK(r == (s32)((n * 2 + 5) / 6), "inter-large", "%d common elements", r);
    for (s32 i = 0; i < r; i++) MC_CHECK(o[i] == 6 * i && p[i] == 6 * i, "inter-large", "element %d", i);
    free(a), free(b), free(o), free(p);
    mc_calls(1);
  }
  /* every length up to 300: equal elements, and none in common but one */
  for (uint32_t n = 1; n <= 300; n++) {
    if (!mc_mine()) continue;
    int32_t a[300], b[300], o[301], p[300];
    for (uint32_t i = 0; i < n; i++) a[i] = (int32_t)i * 2;
    for (uint32_t k = 0; k < n; k++) {
      MC_POINT("%d elements, at %d", n, k);
      int32_t v = a[k];
      MC_CHECK(insertion_index(n, 4, a, &v, cmp_s32_s32) == k, "index-length", "insertion index of an equal element");
      u32 r = remove_element(n, 4, a, o, &v, cmp_s32_s32);
      MC_CHECK(r == k && !memcmp(o, a, k * 4) && !memcmp(o + k, a + k + 1, (n - 1 - k) * 4), "remove-length", "removed at %u, or a wrong array", r);
      v = a[k] + 1;
      MC_CHECK(insertion_index(n, 4, a, &v, cmp_s32_s32) == k + 1, "index-length", "insertion index");
      for (uint32_t i = 0; i < n; i++) b[i] = a[i] + 1 - (i == k);
      s32 c = intersection(n, 4, a, o, n, 4, b, p, cmp_s32_s32);
      MC_CHECK(c == 1 && o[0] == a[k] && p[0] == a[k], "inter-length", "%d common elements, expected the one", c);
      mc_calls(4);
    }
  }
  /* large arrays: counts and sizes beyond 16 bits */
  static const size_t esz_[] = {4, 24, 300};
  for (int z = 0; z < 3; z++)
    for (int at = 0; at < 9; at++) {
      if (!mc_mine()) continue;
      size_t sz = esz_[z];
      uint32_t n = z == 2 ? 300 : 66000, AT[] = {0, 1, 100, n / 2, n - 257, n - 256, n - 255, n - 1, n}, k = AT[at];
      uint8_t *a = malloc(n * sz), *o = malloc((n + 1) * sz), *e = malloc(sz);
      MC_POINT("array of %d elements of %d bytes, at %d", n, (long long)sz, k);
      for (uint32_t i = 0; i < n; i++) {
        int32_t v = (int32_t)i * 2;
        for (size_t j = 4; j < sz; j++) a[i * sz + j] = pay(1, (int)i, j);
        memcpy(a + i * sz, &v, 4);
      }
      int32_t v = (int32_t)k * 2 - 1;
      memset(e, 0x3C, sz);
      memcpy(e, &v, 4);
      MC_CHECK(insertion_index(n, sz, a, e, cmp_s32_s32) == k, "index-large", "insertion index");
      u32 r = insert_element(n, sz, a, o, e, cmp_s32_s32);
      MC_CHECK(r == k && !memcmp(o, a, k * sz) && !memcmp(o + k * sz, e, sz) && !memcmp(o + (k + 1) * sz, a + k * sz, (n - k) * sz), "insert-large", "inserted at %u, or a wrong array", r);
      if (k < n) { /* an element equal to one there */
        int32_t q = (int32_t)k * 2;
        uint8_t *f = malloc(sz);
        memset(f, 0x5A, sz);
        memcpy(f, &q, 4);
        MC_CHECK(insertion_index(n, sz, a, f, cmp_s32_s32) == k, "index-large", "insertion index of an equal element");
        r = insert_element(n, sz, a, o, f, cmp_s32_s32);
        MC_CHECK(r == k && !memcmp(o, a, k * sz) && !memcmp(o + k * sz, f, sz) && !memcmp(o + (k + 1) * sz, a + k * sz, (n - k) * sz), "insert-large", "equal element inserted at %u, or a wrong array", r);
        r = remove_element(n, sz, a, o, f, cmp_s32_s32);
        MC_CHECK(r == k && !memcmp(o, a, k * sz) && !memcmp(o + k * sz, a + (k + 1) * sz, (n - 1 - k) * sz), "remove-large", "equal element removed at %u, or a wrong array", r);
        free(f);
      }
      uint32_t w = k < n ? k : n - 1;
      r = remove_element(n, sz, a, o, e, cmp_s32_s32);
      MC_CHECK(r == w && !memcmp(o, a, w * sz) && !memcmp(o + w * sz, a + (w + 1) * sz, (n - 1 - w) * sz), "remove-large", "removed at %u, or a wrong array", r);
      mc_calls(3);
      free(a), free(o), free(e);
    }
}
MC_SPACES({"intersection", "all pairs of subsets of a universe of 8 (10), element sizes 1..16, outputs allocated exactly", inter, 0},
          {"insert-remove", "all subsets x all probe keys equal to and between elements x element sizes", member, 0},
          {"recognition", "all arrays of up to 6 (8) elements over 4 values for three element types; one duplicate at every position of up to 255; arrays of 300 and 66000 elements, 4 to 300 bytes each", isset, 0})
