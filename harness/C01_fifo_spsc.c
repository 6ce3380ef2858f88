/* C01: single-producer / single-consumer byte FIFO, every interleaving.
 *
 * MC-flavours: opt O0
 * MC-libonly: fifo_byte.c
 * MC-libflags: -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1
 * MC-END
 *
 * src/fifo_byte.c is compiled with thread-sanitizer instrumentation but linked
 * against the hooks below, so each load, store and copied byte of the FIFO
 * structure and of its ring storage is a scheduling point.  Producer and
 * consumer run as coroutines whose stacks live inside one arena; a state is
 * saved and restored by copying the arena.  From every state both runnable
 * threads are stepped; states already visited are not expanded again.  A state
 * is (shared memory, per thread: operation number, values read since the
 * operation began, results so far) - the local state of a thread is a function
 * of exactly these, so merged states have the same futures.
 * Memory model: sequential consistency (compiler and CPU reordering of the
 * plain accesses is outside this check).
 */
#define MC_CUSTOM_INIT
#include "mc.h"
#include <swiftnav/fifo_byte.h>

#define STK 8192
#define RING 8
#define MAXOPS 4

enum { OP_WRITE, OP_SPACE_P, OP_LENGTH_P, OP_READ, OP_PEEK, OP_REMOVE, OP_LENGTH_C,
       OP_SPACE_C };
typedef struct {
  uint8_t op, len;
} op_t;

typedef struct {
  void *sp;
  int opi;       /* current operation */
  int done;
  uint32_t acc;  /* accesses since the operation began */
  uint64_t loc;  /* hash of values read since the operation began */
  uint64_t hist; /* hash of results of finished operations */
  /* bounds captured when the current operation began */
  uint32_t lo, hi;
} thr_t;

static struct world {
  uint8_t stack[2][STK] __attribute__((aligned(64)));
  thr_t t[2];
  fifo_t f;
  uint8_t guard0[16];
  uint8_t ring[RING];
  uint8_t guard1[16];
  /* ghost state */
  uint32_t written_done;    /* bytes accepted by finished writes */
  uint32_t write_pending;   /* bytes requested by the write in progress */
  uint32_t removed_done;    /* bytes consumed by finished reads/removes */
  uint32_t remove_pending;
  char err[160];
  int failed;
} W;

static op_t prog[2][MAXOPS];
static int nops[2];
static uint32_t ring_size;
static int cur = -1;
static void *main_sp;

extern void ctx_switch(void **save, void *to);
__asm__(
    ".text\n.globl ctx_switch\nctx_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static uint8_t pat(uint32_t i) { return (uint8_t)(i * 37u + 11u); }

static void bad(const char *fmt, ...) {
  if (W.failed) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(W.err, sizeof W.err, fmt, ap);
  va_end(ap);
  W.failed = 1;
}

static uint32_t u32min(uint32_t a, uint32_t b) { return a < b ? a : b; }

static void do_op(int tid, op_t o) {
  thr_t *t = &W.t[tid];
  uint32_t r = 0;
  uint8_t buf[32];
  switch (o.op) {
    case OP_WRITE: {
      for (uint32_t i = 0; i < sizeof buf; i++) buf[i] = pat(W.written_done + i);
      uint32_t lo_space = ring_size - (W.written_done - W.removed_done);
      W.write_pending = o.len;
      r = fifo_write(&W.f, buf, o.len);
      uint32_t hi_space =
          ring_size - (W.written_done - W.removed_done) + W.remove_pending;
      W.write_pending = 0;
      if (r > o.len) bad("write(%u) returned %u", o.len, r);
      if (r < u32min(o.len, lo_space))
        bad("write(%u) accepted %u with at least %u bytes free", o.len, r,
            lo_space);
      if (r > hi_space)
        bad("write(%u) accepted %u with at most %u bytes free", o.len, r,
            hi_space);
      W.written_done += r;
      break;
    }
    case OP_READ:
    case OP_PEEK: {
      memset(buf, 0xA5, sizeof buf);
      uint32_t base = W.removed_done;
      uint32_t lo = W.written_done - base;
      if (o.op == OP_READ) W.remove_pending = u32min(o.len, ring_size);
      r = o.op == OP_READ ? fifo_read(&W.f, buf, o.len)
                          : fifo_peek(&W.f, buf, o.len);
      W.remove_pending = 0;
      uint32_t hi = W.written_done + W.write_pending - base;
      if (r > o.len) bad("read(%u) returned %u", o.len, r);
      if (r < u32min(o.len, lo))
        bad("read(%u) returned %u with %u bytes written before it", o.len, r,
            lo);
      if (r > hi) bad("read(%u) returned %u, at most %u written", o.len, r, hi);
      for (uint32_t i = 0; i < r && i < sizeof buf; i++)
        if (buf[i] != pat(base + i))
          bad("byte %u of the stream read as 0x%02x, expected 0x%02x", base + i,
              buf[i], pat(base + i));
      for (uint32_t i = r; i < sizeof buf; i++)
        if (buf[i] != 0xA5) bad("read wrote beyond the returned length");
      if (o.op == OP_READ) W.removed_done += r;
      break;
    }
    case OP_REMOVE: {
      uint32_t base = W.removed_done;
      uint32_t lo = W.written_done - base;
      W.remove_pending = u32min(o.len, ring_size);
      r = fifo_remove(&W.f, o.len);
      W.remove_pending = 0;
      uint32_t hi = W.written_done + W.write_pending - base;
      if (r > o.len) bad("remove(%u) returned %u", o.len, r);
      if (r < u32min(o.len, lo)) bad("remove(%u) returned %u of %u", o.len, r, lo);
      if (r > hi) bad("remove(%u) returned %u, at most %u", o.len, r, hi);
      W.removed_done += r;
      break;
    }
    case OP_LENGTH_C: /* consumer side: a lower bound that never undershoots */
    case OP_SPACE_C: {
      uint32_t lo = W.written_done - W.removed_done;
      r = o.op == OP_LENGTH_C ? fifo_length(&W.f) : fifo_space(&W.f);
      uint32_t l = o.op == OP_LENGTH_C ? r : ring_size - r;
      uint32_t hi = W.written_done + W.write_pending - W.removed_done;
      if (l < lo || l > hi) bad("consumer sees length %u outside %u..%u", l, lo, hi);
      break;
    }
    case OP_SPACE_P:
    case OP_LENGTH_P: {
      uint32_t hi = W.written_done - W.removed_done;
      r = o.op == OP_LENGTH_P ? fifo_length(&W.f) : fifo_space(&W.f);
      uint32_t l = o.op == OP_LENGTH_P ? r : ring_size - r;
      uint32_t lo = W.written_done - W.removed_done;
      lo = lo > W.remove_pending ? lo - W.remove_pending : 0;
      if (l < lo || l > hi) bad("producer sees length %u outside %u..%u", l, lo, hi);
      break;
    }
  }
  mc_ncalls++;
  t->hist = (t->hist ^ (r + 1)) * 1099511628211ull + o.op;
}

static void thread_main(int tid) {
  for (;;) {
    thr_t *t = &W.t[tid];
    if (t->opi >= nops[tid]) break;
    t->acc = 0;
    t->loc = 0;
    do_op(tid, prog[tid][t->opi]);
    t->opi++;
    /* yield between operations */
    t->acc = 0xffff;
    t->loc = 0;
    ctx_switch(&t->sp, main_sp);
  }
  W.t[tid].done = 1;
  ctx_switch(&W.t[tid].sp, main_sp);
  abort();
}
static void t0_main(void) { thread_main(0); }
static void t1_main(void) { thread_main(1); }

static void thr_init(int tid) {
  thr_t *t = &W.t[tid];
  memset(t, 0, sizeof *t);
  uintptr_t top = ((uintptr_t)W.stack[tid] + STK) & ~(uintptr_t)63;
  void **sp = (void **)(top - 64);
  *--sp = 0;
  *--sp = (void *)(tid ? t1_main : t0_main);
  for (int i = 0; i < 6; i++) *--sp = 0;
  t->sp = sp;
}

static int shared_addr(const void *p) {
  const uint8_t *a = (const uint8_t *)p;
  if (a >= (const uint8_t *)&W.f && a < (const uint8_t *)(&W.f + 1)) return 1;
  if (a >= W.guard0 && a < W.guard1 + sizeof W.guard1) return 2;
  return 0;
}

/* scheduling point before an access of n bytes at p */
static void point(const void *p, unsigned n, int write) {
  if (cur < 0) return;
  int s = shared_addr(p);
  if (!s) return;
  thr_t *t = &W.t[cur];
  /* fields fixed at initialisation: reads of them commute with everything */
  if (!write && s == 1 &&
      ((const uint8_t *)p >= (const uint8_t *)&W.f.buffer_size))
    return;
  t->acc++;
  t->loc ^= 0x51ed27 + (uintptr_t)((const uint8_t *)p - (const uint8_t *)&W);
  ctx_switch(&t->sp, main_sp);
  /* resumed: the access happens now */
  if (!write) t->loc = (t->loc ^ mc_hash(p, n)) * 1099511628211ull;
}

#define RW(n)                                                        \
  void __tsan_read##n(void *p) { point(p, n, 0); }                   \
  void __tsan_write##n(void *p) { point(p, n, 1); }                  \
  void __tsan_unaligned_read##n(void *p) { point(p, n, 0); }         \
  void __tsan_unaligned_write##n(void *p) { point(p, n, 1); }        \
  void __tsan_volatile_read##n(void *p) { point(p, n, 0); }          \
  void __tsan_volatile_write##n(void *p) { point(p, n, 1); }         \
  void __tsan_read_write##n(void *p) { point(p, n, 1); }             \
  void __tsan_unaligned_read_write##n(void *p) { point(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, uintptr_t n) {
  uint8_t *dd = d;
  const uint8_t *ss = s;
  for (uintptr_t i = 0; i < n; i++) {
    uint8_t v;
    point(ss + i, 1, 0);
    v = ss[i];
    point(dd + i, 1, 1);
    dd[i] = v;
  }
  return d;
}
void *__tsan_memmove(void *d, const void *s, uintptr_t n) {
  uint8_t *dd = d;
  const uint8_t *ss = s;
  if (dd <= ss) return __tsan_memcpy(d, s, n);
  for (uintptr_t i = n; i-- > 0;) {
    uint8_t v;
    point(ss + i, 1, 0);
    v = ss[i];
    point(dd + i, 1, 1);
    dd[i] = v;
  }
  return d;
}
void *__tsan_memset(void *d, int c, uintptr_t n) {
  for (uintptr_t i = 0; i < n; i++) {
    point((uint8_t *)d + i, 1, 1);
    ((uint8_t *)d)[i] = (uint8_t)c;
  }
  return d;
}
void __tsan_read_range(void *p, uintptr_t n) { point(p, (unsigned)n, 0); }
void __tsan_write_range(void *p, uintptr_t n) { point(p, (unsigned)n, 1); }
#define ATOM(n, T)                                                         \
  T __tsan_atomic##n##_load(const volatile T *a, int o) {                  \
    (void)o;                                                               \
    point((const void *)a, sizeof(T), 0);                                  \
    return *a;                                                             \
  }                                                                        \
  void __tsan_atomic##n##_store(volatile T *a, T v, int o) {               \
    (void)o;                                                               \
    point((const void *)a, sizeof(T), 1);                                  \
    *a = v;                                                                \
  }                                                                        \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int o) {              \
    (void)o;                                                               \
    point((const void *)a, sizeof(T), 1);                                  \
    T r = *a;                                                              \
    *a = (T)(r + v);                                                       \
    return r;                                                              \
  }                                                                        \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int o) {              \
    (void)o;                                                               \
    point((const void *)a, sizeof(T), 1);                                  \
    T r = *a;                                                              \
    *a = (T)(r - v);                                                       \
    return r;                                                              \
  }                                                                        \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int o) {               \
    (void)o;                                                               \
    point((const void *)a, sizeof(T), 1);                                  \
    T r = *a;                                                              \
    *a = v;                                                                \
    return r;                                                              \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* ---- explorer ---- */
#define TBL (1u << 18)
static uint64_t tbl[TBL];
static uint32_t tbl_gen_n;
static int seen_add(uint64_t h) {
  if (!h) h = 1;
  uint32_t i = (uint32_t)(h >> 20) & (TBL - 1);
  while (tbl[i]) {
    if (tbl[i] == h) return 1;
    i = (i + 1) & (TBL - 1);
  }
  tbl[i] = h;
  tbl_gen_n++;
  return 0;
}

static uint64_t state_hash(void) {
  uint64_t h = mc_hash(&W.f, sizeof W.f);
  h = h * 31 + mc_hash(W.ring, sizeof W.ring);
  for (int i = 0; i < 2; i++) {
    thr_t *t = &W.t[i];
    uint64_t v[5] = {(uint64_t)t->opi, t->acc, t->loc, t->hist,
                     (uint64_t)t->done};
    h = h * 31 + mc_hash(v, sizeof v);
  }
  uint32_t g[4] = {W.written_done, W.write_pending, W.removed_done,
                   W.remove_pending};
  return h * 31 + mc_hash(g, sizeof g);
}

static struct world *snap;
static int snap_n;
static char sched[4096];
static int sched_n;
static uint64_t n_states, n_trans, n_final;

static void step(int tid) {
  cur = tid;
  ctx_switch(&main_sp, W.t[tid].sp);
  cur = -1;
}

static int guards_ok(void) {
  for (int i = 0; i < 16; i++)
    if (W.guard0[i] != 0xEE || W.guard1[i] != 0xEE) return 0;
  for (uint32_t i = ring_size; i < RING; i++)
    if (W.ring[i] != 0xEE) return 0;
  return 1;
}

static void final_check(void) {
  /* drain sequentially: what is left must be exactly the unread bytes */
  struct world *keep = &snap[snap_n];
  memcpy(keep, &W, sizeof W);
  uint8_t b[32];
  uint32_t left = W.written_done - W.removed_done;
  if (fifo_length(&W.f) != left || fifo_space(&W.f) != ring_size - left)
    bad("at rest: length %u, expected %u", fifo_length(&W.f), left);
  uint32_t r = fifo_read(&W.f, b, sizeof b);
  if (r != left) bad("at rest: drained %u, expected %u", r, left);
  for (uint32_t i = 0; i < r && i < 32; i++)
    if (b[i] != pat(W.removed_done + i)) bad("at rest: byte %u corrupted", i);
  n_final++;
  mc_outcome(W.t[0].hist * 31 + W.t[1].hist);
  if (W.failed) mc_fail("fifo-schedule", "%s; schedule %s", W.err, sched);
  memcpy(&W, keep, sizeof W);
}

static void dfs(void) {
  n_states++;
  mc_w->beat++;
  if (W.t[0].done && W.t[1].done) {
    final_check();
    return;
  }
  int me = snap_n;
  if (me + 2 >= 1024) abort();
  memcpy(&snap[me], &W, sizeof W);
  snap_n++;
  for (int tid = 0; tid < 2; tid++) {
    if (W.t[tid].done) continue;
    sched[sched_n++] = (char)('P' + (tid ? -13 : 0)); /* P or C */
    sched[sched_n] = 0;
    step(tid);
    n_trans++;
    mc_nchecks++;
    if (!guards_ok()) bad("memory next to the ring storage was overwritten");
    if (W.failed) mc_fail("fifo-schedule", "%s; schedule %s", W.err, sched);
    if (!seen_add(state_hash())) dfs();
    sched_n--;
    sched[sched_n] = 0;
    memcpy(&W, &snap[me], sizeof W);
  }
  snap_n--;
}

static void explore(uint32_t size, uint32_t offset, uint32_t fill) {
  memset(tbl, 0, sizeof tbl);
  ring_size = size;
  memset(&W, 0, sizeof W);
  memset(W.guard0, 0xEE, sizeof W.guard0);
  memset(W.guard1, 0xEE, sizeof W.guard1);
  memset(W.ring, 0xEE, sizeof W.ring);
  fifo_init(&W.f, W.ring, size);
  /* reach the starting position through the API: non-initial start states */
  uint8_t b[32];
  for (uint32_t i = 0; i < offset; i++) {
    uint8_t x = pat(i);
    fifo_write(&W.f, &x, 1);
    fifo_read(&W.f, b, 1);
  }
  W.written_done = W.removed_done = offset;
  for (uint32_t i = 0; i < fill; i++) {
    uint8_t x = pat(offset + i);
    fifo_write(&W.f, &x, 1);
  }
  W.written_done += fill;
  thr_init(0);
  thr_init(1);
  sched_n = 0;
  snap_n = 0;
  n_states = n_trans = 0;
  dfs();
  mc_npoints += n_states;
  mc_ncalls += n_trans;
}

static const op_t alp[] = {{OP_WRITE, 1}, {OP_WRITE, 2}, {OP_WRITE, 3},
                           {OP_WRITE, 5}, {OP_SPACE_P, 0}, {OP_LENGTH_P, 0}};
static const op_t alc[] = {{OP_READ, 1},   {OP_READ, 2},     {OP_READ, 3}, {OP_READ, 5},
                           {OP_PEEK, 3},   {OP_REMOVE, 1},   {OP_REMOVE, 4},
                           {OP_LENGTH_C, 0}, {OP_SPACE_C, 0}};
#define NP ((int)(sizeof alp / sizeof alp[0]))
#define NC ((int)(sizeof alc / sizeof alc[0]))

static void run_depth(uint32_t size, int np, int nc, int offs, int fills) {
  nops[0] = np;
  nops[1] = nc;
  long tp = 1, tc = 1;
  for (int i = 0; i < np; i++) tp *= NP;
  for (int i = 0; i < nc; i++) tc *= NC;
  for (long a = 0; a < tp; a++) {
    for (long b = 0; b < tc; b++) {
      if (!mc_mine()) continue;
      long x = a;
      for (int i = 0; i < np; i++, x /= NP) prog[0][i] = alp[x % NP];
      x = b;
      for (int i = 0; i < nc; i++, x /= NC) prog[1][i] = alc[x % NC];
      for (uint32_t off = 0; off < size && (int)off < offs; off++) {
        for (uint32_t fill = 0; fill <= size; fill++) {
          if (fills == 0 && fill) break;
          if (fills == 1 && fill != 0 && fill != size) continue;
          MC_POINT("ring=% offset=% fill=% producer-program=% consumer-program=% "
                   "(%d by %d ops)", size, off, fill, a, b, np, nc);
          explore(size, off, fill);
          mc_history();
        }
      }
    }
  }
}

static void s_small(void) {
  /* all start states, programs of up to 2 operations per thread */
  for (uint32_t size = 1; size <= 4; size *= 2)
    for (int np = 1; np <= 2; np++)
      for (int nc = 1; nc <= 2; nc++) run_depth(size, np, nc, 4, 2);
}
static void s_deep(void) {
  run_depth(2, 3, 2, 2, 1);
  run_depth(4, 2, 3, mc_thorough() ? 4 : 1, mc_thorough() ? 2 : 0);
  if (mc_thorough()) {
    run_depth(4, 3, 3, 4, 0);
    run_depth(2, 3, 3, 2, 1);
    run_depth(8, 2, 2, 8, 2);
  }
}

static void mc_init_hook(void) { snap = calloc(1024, sizeof *snap); }

MC_SPACES({"all-starts", "ring sizes 1,2,4; every start offset and fill level; "
           "every pair of producer (write 1/2/3/5, space, length) and consumer "
           "(read 1/2/3/5, peek, remove, length, space) programs of <=2 operations; every "
           "interleaving of their memory accesses (no preemption bound)",
           s_small, 0},
          {"longer-programs", "3x2 and 2x3 operation programs on rings of 2 and 4 "
           "bytes, every interleaving (thorough: 3x3, ring 8)", s_deep, 0})
