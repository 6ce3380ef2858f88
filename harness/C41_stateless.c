/* C41: a result depends on the arguments only: not on what was called before, and the arguments are not changed.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include "ops.h"
#define TMAX 160
/* what each gives as the first call of a process */
typedef struct { uint64_t w[OUTMAX]; int n; int ok; } res_t;
static res_t *FIRST;
static void first(void *p) {
  int a = *(int *)p;
  run_op(a, 0);
  FIRST[a].n = R.n;
  memcpy(FIRST[a].w, R.w, sizeof(uint64_t) * (size_t)R.n);
  FIRST[a].ok = 1 + inputs_changed;
}
static void baseline(void) {
  if (FIRST) return;
  mc_quiet();
  slots_glo();
  FIRST = mmap(NULL, sizeof(res_t) * NA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int a = 0; a < NA; a++) mc_isolate(first, &a, 10000);
}
static int dirt_of(int k) { static const int d[4] = {0xff, 0x5a, 0, 0x7f}; return d[k & 3]; }
/* one element of the arguments changed: what it gives as the first call of a process */
typedef struct { uint64_t h[TMAX + 1]; int n; } near_t;
static near_t *NEAR;
static uint64_t result(void) { return mc_hash(R.w, sizeof(uint64_t) * (size_t)R.n); }
typedef struct { int a, k, got; } tw_t;
static void near_first(void *p) {
  tw_t *t = p;
  tweak = t->k;
  run_op(t->a, 0);
  NEAR->h[t->k + 1] = result();
  NEAR->n = tweaks;
}
static void near_job(void *p) {
  tw_t *t = p;
  for (t->k = 0; t->k < NEAR->n; t->k++)
    for (int i = 0; i < 4; i++) {
      t->got = i;
      tweak = i & 1 ? t->k : -1;
      run_op(t->a, dirt_of(i));
      if (result() != NEAR->h[tweak + 1] || inputs_changed) return;
    }
  t->got = -1;
}
static void near_args(void) {
  baseline();
  NEAR = mmap(NULL, sizeof *NEAR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tw_t *t = mmap(NULL, sizeof *t, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int a = 0; a < NA; a++) {
    if (!mc_mine()) continue;
    MC_POINT("operation %d with arguments %d alternating with each element of them changed", a / NV, a % NV);
    memset(NEAR, 0, sizeof *NEAR);
    t->a = a;
    t->k = -1;
    mc_iso_t r = mc_isolate(near_first, t, 10000);
    MC_CHECK(r == MC_ISO_OK && NEAR->n <= TMAX, "crash", "operation %s ends the process, or has %d elements", OPS[a / NV].n, NEAR->n);
    int n = NEAR->n;
    for (t->k = 0; t->k < n; t->k++) {
      r = mc_isolate(near_first, t, 10000);
      MC_CHECK(r == MC_ISO_OK, "crash", "operation %s with element %d changed ends the process", OPS[a / NV].n, t->k);
      mc_outcome(NEAR->h[t->k + 1]);
    }
    r = mc_isolate(near_job, t, 20000);
    mc_calls(n * 4);
    mc_history();
    MC_CHECK(r == MC_ISO_OK && t->got < 0, "history", "operation %d (%s, arguments %d) gives another result %s a call with element %d of the arguments changed", a, OPS[a / NV].n, a % NV, t->got & 1 ? "before" : "after", t->k);
  }
}
/* the outcome of an exploration done in a child, so that each starts from a fresh process */
typedef struct { int at[3], which, kind, pos; uint64_t got, want; long calls; } bad_t;
static bad_t *BAD;
static bool cmp_op(int a, int d, const int h[3], int which) {
  run_op(a, d);
  BAD->calls++;
  int k = 0, pos = 0;
  if (inputs_changed) k = 1;
  else if (R.n != FIRST[a].n) k = 2;
  else
    for (pos = 0; pos < R.n; pos++)
      if (R.w[pos] != FIRST[a].w[pos]) { k = 3; break; }
  if (!k) return true;
  for (int i = 0; i < 3; i++) BAD->at[i] = h[i];
  BAD->which = which; BAD->kind = k; BAD->pos = pos; BAD->got = R.w[pos]; BAD->want = FIRST[a].w[pos];
  return false;
}
typedef struct { int a, b; } job_t;
static void pairs_job(void *p) {
  job_t *j = p;
  for (int b = 0; b < NA; b++) {
    int h[3] = {j->a, b, j->a};
    if (!cmp_op(j->a, dirt_of(b), h, 0) || !cmp_op(b, dirt_of(b + 1), h, 1)) return;
  }
}
static void triples_job(void *p) {
  job_t *j = p;
  for (int c = 0; c < NA; c++) {
    int h[3] = {j->a, j->b, c};
    if (!cmp_op(j->a, dirt_of(c), h, 0) || !cmp_op(j->b, dirt_of(c + 1), h, 1) || !cmp_op(c, dirt_of(c + 2), h, 2)) return;
  }
}
static void judge(void (*f)(void *), job_t *j) {
  if (!BAD) BAD = mmap(NULL, sizeof *BAD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(BAD, 0, sizeof *BAD);
  mc_iso_t r = mc_isolate(f, j, 20000);
  mc_calls(BAD->calls);
  mc_history();
  MC_CHECK(r == MC_ISO_OK, "crash", "the calls %s", r == MC_ISO_HANG ? "do not return" : "end the process");
  if (!BAD->kind) return;
  int a = BAD->at[BAD->which];
  MC_CHECK(0, BAD->kind == 1 ? "argument" : "history", "operation %d (%s, arguments %d) %s after the operations %d (%s) and %d (%s): value %d is %016llx, alone it is %016llx", a, OPS[a / NV].n, a % NV,
           BAD->kind == 1 ? "changed its arguments" : "gives another result", BAD->at[0], OPS[BAD->at[0] / NV].n, BAD->at[1], OPS[BAD->at[1] / NV].n, BAD->pos, (unsigned long long)BAD->got, (unsigned long long)BAD->want);
}
static void alone(void) {
  baseline();
  for (int a = 0; a < NA; a++) {
    if (!mc_mine()) continue;
    MC_POINT("operation %d with arguments %d", a / NV, a % NV);
    MC_CHECK(FIRST[a].ok, "crash", "operation %s ends the process", OPS[a / NV].n);
    MC_CHECK(FIRST[a].ok != 2, "argument", "operation %s changed its arguments", OPS[a / NV].n);
    MC_CHECK(FIRST[a].n < OUTMAX, "harness", "too many results");
    mc_calls(1);
    mc_outcome(mc_hash(FIRST[a].w, sizeof(uint64_t) * (size_t)FIRST[a].n));
  }
}
static void pairs(void) {
  baseline();
  for (int a = 0; a < NA; a++) {
    if (!mc_mine()) continue;
    MC_POINT("operation %d with arguments %d alternating with every other", a / NV, a % NV);
    job_t j = {a, 0};
    judge(pairs_job, &j);
  }
}
static void triples(void) {
  baseline();
  for (int a = 0; a < NA; a++)
    for (int b = 0; b < NA; b++) {
      if (!mc_thorough() && (a + b) % 4) continue;
      if (!mc_mine()) continue;
      MC_POINT("operations %d and %d followed by every other", a, b);
      job_t j = {a, b};
      judge(triples_job, &j);
    }
}
MC_SPACES({"alone", "210 operations (70 groups of calls over the whole interface x 3 sets of arguments), each as the first of a process", alone, 0},
          {"pairs", "every history in which one operation alternates with all the others, from a fresh process, with output buffers of other former content", pairs, 0},
          {"near", "every operation alternating with itself with each single element of its arguments changed", near_args, 0},
          {"triples", "every ordered pair of operations (quick: every fourth), repeated before each of all the operations", triples, 0})
