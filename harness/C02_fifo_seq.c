/* C02: FIFO as a bounded byte queue, single thread, every history.
 * MC-flavours: san opt
 * MC-libonly: fifo_byte.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/fifo_byte.h>

static uint8_t *ring, *src, *dst;
/* reference model: the stream is pat(0), pat(1), ...; the queue holds
 * stream[rd..wr) */
typedef struct {
  uint64_t rd, wr;
} model_t;
static uint8_t pat(uint64_t i) { return (uint8_t)(mc_mix(i) >> 13); }

#define SRCMAX (1u << 20)
enum { WRITE, READ, PEEK, REMOVE, NOPS };
static const char *opname[] = {"write", "read", "peek", "remove"};

static void apply(fifo_t *f, model_t *m, uint32_t size, int op, uint32_t len) {
  uint64_t used = m->wr - m->rd, space = size - used;
  uint32_t r, want;
  switch (op) {
    case WRITE: {
      want = len < space ? len : (uint32_t)space;
      /* the source holds exactly the bytes that can be taken */
      uint8_t *s = src + SRCMAX - want;
      for (uint32_t i = 0; i < want; i++) s[i] = pat(m->wr + i);
      r = fifo_write(f, s, len);
      m->wr += want;
      break;
    }
    case READ:
    case PEEK: {
      want = len < used ? len : (uint32_t)used;
      uint8_t *d = dst + SRCMAX - want; /* exactly the room needed */
      if (want < 8) memset(dst + SRCMAX - 16, 0x5A, 16);
      r = op == READ ? fifo_read(f, d, len) : fifo_peek(f, d, len);
      for (uint32_t i = 0; i < want; i++)
        MC_CHECK(d[i] == pat(m->rd + i), "fifo-data", "%s(%u): byte %u is wrong",
                 opname[op], len, i);
      if (want < 8)
        for (uint8_t *p = dst + SRCMAX - 16; p < d; p++)
          MC_CHECK(*p == 0x5A, "fifo-overrun", "%s wrote before its buffer",
                   opname[op]);
      if (op == READ) m->rd += want;
      break;
    }
    default:
      want = len < used ? len : (uint32_t)used;
      r = fifo_remove(f, len);
      m->rd += want;
      break;
  }
  mc_calls(1);
  MC_CHECK(r == want, "fifo-count", "%s(%u) returned %u, expected %u",
           opname[op], len, r, want);
  MC_CHECK(fifo_length(f) == m->wr - m->rd, "fifo-length",
           "after %s(%u): length %u, expected %llu", opname[op], len,
           fifo_length(f), (unsigned long long)(m->wr - m->rd));
  MC_CHECK(fifo_space(f) == size - (m->wr - m->rd), "fifo-space",
           "after %s(%u): space %u", opname[op], len, fifo_space(f));
  mc_outcome((uint64_t)r * 1000 + (m->wr - m->rd) * 7 + (uint64_t)op);
}

static void setup(void) {
  if (!ring) {
    src = malloc(SRCMAX);
    dst = malloc(SRCMAX);
  }
}

/* advance the cursor by n through the public interface */
static void advance(fifo_t *f, model_t *m, uint32_t size, uint64_t n) {
  static uint8_t *big;
  if (!big) big = calloc(1, 1u << 20);
  while (n) {
    uint32_t k = n > size ? size : (uint32_t)n;
    uint32_t w = fifo_write(f, big, k);
    uint32_t r = fifo_remove(f, k);
    MC_CHECK(w == k && r == k, "fifo-count", "write/remove(%u) gave %u/%u", k, w,
             r);
    m->wr += k;
    m->rd += k;
    n -= k;
    mc_w->beat++;
  }
}

/* every sequence of depth d from the current state; the FIFO state is saved
 * and restored by copying it (structure + storage) */
static void seqs(fifo_t *f, uint8_t *st, model_t *m, uint32_t size,
                 const uint32_t *lens, int nl, int d, uint64_t code) {
  if (d == 0) {
    mc_history();
    return;
  }
  fifo_t fs = *f;
  model_t ms = *m;
  uint8_t save[64];
  memcpy(save, st, size);
  for (int op = 0; op < NOPS; op++) {
    for (int i = 0; i < nl; i++) {
      MC_POINT("size=%d offset=%d fill=%d path=%x op=%d len=%d", size,
               (long long)ms.rd, (long long)(ms.wr - ms.rd), (long long)code, op,
               lens[i]);
      apply(f, m, size, op, lens[i]);
      seqs(f, st, m, size, lens, nl, d - 1, code * 64 + (uint64_t)(op * nl + i) + 1);
      *f = fs;
      *m = ms;
      memcpy(st, save, size);
    }
  }
}

static void from_all_states(uint32_t size, uint64_t base, int depth) {
  uint32_t lens[24];
  int nl = 0;
  if (size <= 4 || depth == 1) {
    for (uint32_t l = 0; l <= size + 1; l++) lens[nl++] = l;
  } else {
    uint32_t c[] = {0, 1, 2, size / 2, size - 1, size, size + 1};
    for (unsigned i = 0; i < sizeof c / 4; i++) lens[nl++] = c[i];
  }
  lens[nl++] = 0x80000000u;
  lens[nl++] = 0xFFFFFFFFu;
  uint8_t *st = malloc(size);
  fifo_t f0;
  model_t m0 = {0, 0};
  fifo_init(&f0, st, size);
  MC_CHECK(fifo_length(&f0) == 0 && fifo_space(&f0) == size, "fifo-init",
           "a new FIFO of %u is not empty", size);
  if (base) advance(&f0, &m0, size, base);
  for (uint32_t off = 0; off < 2 * size; off++) {
    for (uint32_t fill = 0; fill <= size; fill++) {
      if (!mc_mine()) continue;
      fifo_t f = f0;
      model_t m = m0;
      /* make sure the two histories differ in their storage contents too */
      memset(st, 0xCC, size);
      if (off) advance(&f, &m, size, off);
      for (uint32_t i = 0; i < fill; i++) {
        uint8_t b = pat(m.wr);
        fifo_write(&f, &b, 1);
        m.wr++;
      }
      seqs(&f, st, &m, size, lens, nl, depth, 0);
    }
  }
  free(st);
}

static void s_small(void) {
  setup();
#ifdef MC_SAN
  int d4 = 2;
#else
  int d4 = mc_thorough() ? 5 : 4;
#endif
  from_all_states(1, 0, d4 + 1);
  from_all_states(2, 0, d4 + (mc_thorough() ? 1 : 0));
  from_all_states(4, 0, d4);
  from_all_states(8, 0, 2);
  from_all_states(16, 0, 1);
}

/* the 32-bit cursors wrap: reach 2^32 - k by API calls only */
static void s_wrap(void) {
  setup();
#ifndef MC_SAN
  static const uint32_t sizes[] = {16, 64, 4, 1};
  int n = mc_thorough() ? 4 : 2;
  for (int s = 0; s < n; s++) {
    /* one worker walks one ring size up to the wrap */
    if (mc_shard != s % mc_nshards) continue;
    uint32_t size = sizes[s];
    uint8_t *st = malloc(size);
    fifo_t f0;
    model_t m0 = {0, 0};
    fifo_init(&f0, st, size);
    MC_POINT("size=%d: advance to 2^32-%d", size, 2 * size);
    advance(&f0, &m0, size, (1ull << 32) - 2 * size);
    uint32_t lens[80];
    int nl = 0;
    for (uint32_t l = 0; l <= size + 1; l++) lens[nl++] = l;
    lens[nl++] = 0xFFFFFFFFu;
    for (uint32_t off = 0; off < 4 * size; off++) {
      for (uint32_t fill = 0; fill <= size; fill++) {
        fifo_t f = f0;
        model_t m = m0;
        memset(st, 0xCC, size);
        if (off) advance(&f, &m, size, off);
        for (uint32_t i = 0; i < fill; i++) {
          uint8_t b = pat(m.wr);
          fifo_write(&f, &b, 1);
          m.wr++;
        }
        seqs(&f, st, &m, size, lens, nl, size <= 16 ? 2 : 1, 0);
      }
    }
    free(st);
  }
#endif
}

/* large rings: counts that do not fit 8 or 16 bits */
static void s_large(void) {
  setup();
  for (int k = 7; k <= (mc_thorough() ? 20 : 17); k++) {
    if (k > 10 && k < 15) continue;
    uint32_t size = 1u << k;
    uint32_t v[] = {0, 1, size / 2, size - 1, size, 255, 256, 32768, 65535, 65536, 65537};
    uint32_t lens[] = {0, 1, size / 2, size - 1, size, size + 1, 255, 257, 65535, 65536, 0xFFFFu + size, 0x80000000u, 0xFFFFFFFFu};
    uint8_t *st = malloc(size);
    for (int o = 0; o < 11; o++)
      for (int q = 0; q < 11; q++)
        for (int op = 0; op < NOPS; op++)
          for (int l = 0; l < 13; l++) {
            if (v[o] > size || v[q] > size || (o > 4 && q > 4)) continue;
            if (!mc_mine()) continue;
            fifo_t f;
            model_t m = {0, 0};
            fifo_init(&f, st, size);
            MC_POINT("size=%d offset=%d fill=%d op=%d len=%d", size, v[o], v[q], op, lens[l]);
            if (v[o]) advance(&f, &m, size, v[o]);
            if (v[q]) apply(&f, &m, size, WRITE, v[q]);
            apply(&f, &m, size, op, lens[l]);
            apply(&f, &m, size, WRITE, 3);
            apply(&f, &m, size, PEEK, size);
            apply(&f, &m, size, READ, 0xFFFFFFFFu);
            mc_history();
          }
    free(st);
  }
}

typedef struct {
  uint32_t size;
} ini_t;
static void try_init(void *a) {
  fifo_t f;
  static uint8_t b[8];
  fifo_init(&f, b, ((ini_t *)a)->size);
}
static void s_init(void) {
  for (uint32_t s = 1; s <= 300; s++) {
    if (!mc_mine()) continue;
    MC_POINT("init size=%d", s);
    ini_t a = {s};
    mc_iso_t r = mc_isolate(try_init, &a, 5000);
    mc_calls(1);
    bool pow2 = (s & (s - 1)) == 0;
    MC_CHECK(pow2 == (r == MC_ISO_OK), "fifo-init", "capacity %u %s", s,
             pow2 ? "refused" : "accepted");
  }
}

MC_SPACES({"histories", "ring sizes 1..16, every (cursor offset, fill) start state, "
           "every sequence of write/read/peek/remove with every length 0..size+1, 2^31, "
           "2^32-1 to depth 1..4 (by size)", s_small, 0},
          {"cursor-wrap", "rings of 16 and 64 bytes (thorough: 1, 4) advanced by API calls to the "
           "2^32 wrap of the cursors, then every start state and operation around it", s_wrap, 0},
          {"large", "rings of 2^7..2^10 and 2^15..2^17 (2^20) bytes, cursors and fills at the ends, the middle and around 2^8, 2^15 and 2^16, every operation with 13 lengths, then write, peek and read of everything", s_large, 0},
          {"capacity", "every capacity 1..300 at creation", s_init, 0})
