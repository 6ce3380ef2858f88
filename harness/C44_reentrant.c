/* C44: a call interrupted anywhere by another call: both give what they give alone.
 * One preemption, at every machine instruction of the library (and of the inline functions) that the first call
 * executes: a breakpoint is put on the instruction and the other call is made, whole, from its trap handler.
 * MC-flavours: opt O0
 * MC-END
 */
#define _GNU_SOURCE
#include "mc.h"
#include "quiet.h"
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "ops.h"

typedef struct { uint64_t w[OUTMAX]; int n; } res_t;
static res_t *FIRST; /* what each gives as the first call of a process */
static void first(void *p) {
  int a = *(int *)p;
  run_op(a, 0);
  FIRST[a].n = R.n;
  memcpy(FIRST[a].w, R.w, sizeof(uint64_t) * (size_t)R.n);
}
static bool same(const opctx_t *c, int a) { return c->r.n == FIRST[a].n && !memcmp(c->r.w, FIRST[a].w, sizeof(uint64_t) * (size_t)c->r.n); }

extern char __executable_start[], etext[];
enum { PCMAX = 1 << 16, INSMAX = 1 << 18 };
/* shared with the parent */
typedef struct { int a, b, prior, kind; long visit, runs, hits, pcs; uint64_t pc; } job_t;
static job_t *J;
static opctx_t CTX[2];
static uint64_t PC[PCMAX];
static uint64_t INS[INSMAX]; /* where the instructions start, from the disassembler */
static u8 *ORIG; /* the unchanged code */
static int nins;
static int npc;
static int mode;  /* 0: off, 1: collecting, 2: breakpoint, 3: stepping over it */
static u8 *at, was;
static long togo;
static const int *inner; /* the calls made by the interruption, one after the other, ended by -1 */
static bool reached;
static int inner_bad;
static void arm(void) { *(volatile u8 *)at = 0xcc; }
static void disarm(void) { *(volatile u8 *)at = was; }
static void __attribute__((section("trap_text"))) trap(int sig, siginfo_t *si, void *u) {
  (void)sig;
  (void)si;
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  uint64_t pc = (uint64_t)g[REG_RIP];
  if (mode == 1) {
    pc = (uint64_t)--g[REG_RIP];
    *(volatile u8 *)pc = ORIG[pc - (uint64_t)__executable_start];
    if (npc < PCMAX) PC[npc++] = pc;
  } else if (mode == 2) {
    if (pc - 1 != (uint64_t)at) _exit(9);
    g[REG_RIP]--;
    disarm();
    if (--togo > 0) {
      mode = 3;
      g[REG_EFL] |= 0x100;
      return;
    }
    mode = 0;
    reached = true;
    OC = &CTX[1];
    for (int i = 0; inner[i] >= 0; i++) {
      run_op(inner[i], 0x5a);
      if (!same(&CTX[1], inner[i])) inner_bad = inner[i];
    }
    OC = &CTX[0];
  } else if (mode == 3) {
    g[REG_EFL] &= ~0x100;
    mode = 2;
    arm();
  }
}
static int bias(struct dl_phdr_info *i, size_t n, void *p) {
  (void)n;
  *(uint64_t *)p = i->dlpi_addr;
  return 1;
}
static void instructions(void) {
  uint64_t at0 = 0, a;
  dl_iterate_phdr(bias, &at0);
  char line[512], path[300];
  ssize_t k = readlink("/proc/self/exe", line, 250);
  line[k > 0 ? k : 0] = 0;
  snprintf(path, sizeof path, "objdump -d -j .text --no-show-raw-insn '%s'", line);
  FILE *f = popen(path, "r");
  while (f && fgets(line, sizeof line, f)) {
    char c;
    if (line[0] == ' ' && sscanf(line, " %lx%c", &a, &c) == 2 && c == ':' && a + at0 >= (uint64_t)__executable_start && a + at0 < (uint64_t)etext && nins < INSMAX) INS[nins++] = a + at0;
  }
  if (f) pclose(f);
}
/* interruptions: the call before, the calls made */
static struct { int prior, b[NOPS + 1]; } I[2 * NV + 2];
static int ni;
static long vmax;
static void job(void *p) {
  (void)p;
  size_t len = (size_t)(etext - __executable_start);
  uintptr_t t0 = (uintptr_t)__executable_start & ~4095ul, t1 = ((uintptr_t)etext + 4095) & ~4095ul;
  ORIG = malloc(len);
  memcpy(ORIG, __executable_start, len);
  if (mprotect((void *)t0, t1 - t0, PROT_READ | PROT_WRITE | PROT_EXEC)) _exit(8);
  stack_t st = {.ss_sp = malloc(8 << 20), .ss_size = 8 << 20};
  sigaltstack(&st, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = trap;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGTRAP, &sa, NULL);
  CTX[0] = CTX[1] = OC0;
  OC = &CTX[0];
  run_op(J->a, 0); /* also resolves what is bound lazily */
  /* which instructions does it execute? */
  mode = 1;
  for (int i = 0; i < nins; i++) *(volatile u8 *)INS[i] = 0xcc;
  run_op(J->a, 0);
  for (int i = 0; i < nins; i++) *(volatile u8 *)INS[i] = ORIG[INS[i] - (uint64_t)__executable_start];
  mode = 0;
  J->pcs = npc;
  J->kind = 3;
  if (!same(&CTX[0], J->a)) return;
  for (int i = 0; i < npc; i++) {
    at = (u8 *)PC[i];
    was = *at;
    for (int b = 0; b < ni; b++)
      for (long v = 1; v <= vmax; v++) {
        J->b = I[b].b[0];
        inner = I[b].b;
        J->prior = I[b].prior;
        J->visit = v;
        J->pc = PC[i] - (uint64_t)__executable_start;
        J->runs++;
        run_op(J->prior, 0xff);
        J->kind = 4;
        if (!same(&CTX[0], J->prior)) return;
        J->kind = 0;
        inner_bad = -1;
        reached = false;
        togo = v;
        mode = 2;
        arm();
        run_op(J->a, 0x7f);
        disarm();
        mode = 0;
        if (!reached) break;
        J->hits++;
        if (inner_bad >= 0) { J->b = inner_bad; J->kind = 2; return; }
        if (!same(&CTX[0], J->a)) { J->kind = 1; return; }
      }
  }
  J->kind = -1;
}
static void setup(void) {
  if (FIRST) return;
  mc_quiet();
  slots_glo();
  FIRST = mmap(NULL, sizeof(res_t) * NA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  J = mmap(NULL, sizeof *J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  instructions();
  for (int a = 0; a < NA; a++) mc_isolate(first, &a, 10000);
}
static void explore(int a) {
  memset(J, 0, sizeof *J);
  J->a = a;
  J->b = -1;
  mc_iso_t r = mc_isolate(job, NULL, 600000);
  mc_calls(J->runs * 3);
  mc_outcome((uint64_t)J->pcs << 20 | (uint64_t)(J->hits & 0xfffff));
  mc_history();
  const char *bn = J->b < 0 ? "-" : OPS[J->b / NV].n;
  MC_CHECK(r == MC_ISO_OK, "crash", "operation %d (%s, arguments %d) interrupted at +%llx by operation %d (%s) %s", a, OPS[a / NV].n, a % NV, (unsigned long long)J->pc, J->b, bn, r == MC_ISO_HANG ? "does not return" : "ends the process");
  MC_CHECK(J->pcs < PCMAX && nins < INSMAX && nins > 5000, "bound", "operation %d executes %ld of %d instructions", a, J->pcs, nins);
  if (r == MC_ISO_OK)
    MC_CHECK(J->kind < 0, J->kind >= 3 ? "repeat" : "interrupted", "operation %d (%s, arguments %d) interrupted at +%llx, visit %ld, by operation %d (%s, arguments %d)%s: %s gives another result than alone", a, OPS[a / NV].n, a % NV, (unsigned long long)J->pc, J->visit, J->b, bn, J->b < 0 ? 0 : J->b % NV,
             I[0].b[1] >= 0 ? " and others" : "", J->kind == 2 ? "the interrupting call" : "the interrupted call");
}
static bool heavy(int k) {
  static const char *const H[] = {"pvtf", "pvtg", "pvtp", "pvtv", "sing"};
  for (int h = 0; h < 5; h++)
    if (!strcmp(OPS[k].n, H[h])) return true;
  return false;
}
/* a call interrupted by one of the same kind, with the same or other arguments */
static void own(void) {
  setup();
  vmax = mc_thorough() ? 5 : 1;
  for (int a = 0; a < NA; a++) {
#ifndef __OPTIMIZE__
    if (heavy(a / NV) && !mc_thorough()) continue;
#endif
    if (!mc_mine()) continue;
    ni = 0;
    for (int v = 0; v < NV; v++) {
      int b = a / NV * NV + v, c = a / NV * NV + (v + 1) % NV;
      I[ni].prior = a;
      I[ni].b[0] = b;
      I[ni++].b[1] = -1;
      if (b == a || mc_thorough()) {
        I[ni].prior = c;
        I[ni].b[0] = b;
        I[ni++].b[1] = -1;
      }
    }
    MC_POINT("operation %d with arguments %d, interrupted by itself and its likes", a / NV, a % NV);
    explore(a);
  }
}
/* a call interrupted by one call of every other kind, in a row */
static void cross(void) {
  setup();
#ifdef __OPTIMIZE__
  if (!mc_thorough()) return;
#endif
  vmax = 1;
  for (int a = 0; a < NA; a++) {
    int n = 0;
    ni = 1;
    I[0].prior = a;
    for (int k = 0; k < NOPS; k++) {
      bool skip = k == a / NV;
      if (heavy(k)) skip = true;
      if (!skip) I[0].b[n++] = k * NV + (a + 1) % NV;
    }
    I[0].b[n] = -1;
    if (!mc_mine()) continue;
    MC_POINT("operation %d with arguments %d, interrupted by calls of all other kinds", a / NV, a % NV);
    explore(a);
  }
}
MC_SPACES({"own", "210 operations (quick, unoptimised: 195) x every instruction they execute, at its first (thorough: first five) visits, interrupted by the same operation with each of 3 sets of arguments, after a call with the same or with other arguments", own, 0},
          {"cross", "210 operations x every instruction they execute, at its first visit, interrupted by 64 operations of all other kinds", cross, 0})
