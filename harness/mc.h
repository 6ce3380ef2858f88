/*
 * mc.h - bounded exhaustive explorer used by every harness in this directory.
 *
 * A harness declares a list of "spaces".  A space is a deterministic
 * enumeration of a finite set of points (input tuples, operation histories,
 * reachable states, schedules).  For every point the real library code is run
 * and compared with a reference model written in the harness.
 *
 * The enumeration of a space is split over worker processes with mc_mine()
 * (called on some outer loop of the enumeration: iteration k belongs to worker
 * k mod N), so every point is visited by exactly one worker.  Each worker
 * leaves its current point in shared memory before it touches the code under
 * test: a crash, an assert, a sanitizer report or an endless loop is therefore
 * attributed to the exact point and becomes a replayable violation.
 *
 * Violations carry a key.  Keys listed in the known-findings file (passed with
 * --known) are counted and reported, everything else is a violation.
 */
#ifndef MC_H
#define MC_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MC_MAXARGS 24
#define MC_MAXVIOL 16
#define MC_MAXSPACES 24
#define MC_MAXWORKERS 16
#define MC_MAXKNOWN 128
#define MC_KEYLEN 96
#define MC_OUTBITS (1u << 16)

typedef struct {
  const char *name;
  const char *rule;   /* what is enumerated, in words */
  void (*run)(void);
  int tier;           /* 0: quick and thorough, 1: thorough only */
} mc_space_t;

typedef struct {
  char key[MC_KEYLEN];
  int space;
  int known;
  uint64_t count;
  uint64_t ordinal; /* point counter inside the space, for this worker */
  char point[400];
  char msg[500];
} mc_viol_t;

typedef struct {
  volatile uint64_t beat;
  volatile int cur_space;
  volatile int done;
  volatile uint64_t ordinal;
  const char *volatile fmt;
  volatile int nargs;
  volatile long long args[MC_MAXARGS];
  int nviol;
  mc_viol_t viol[MC_MAXVIOL];
  struct {
    uint64_t points, calls, checks, histories;
    char first[400];
    char last[400];
    double secs;
    int maxdepth;
  } sp[MC_MAXSPACES];
} mc_worker_t;

typedef struct {
  mc_worker_t w[MC_MAXWORKERS];
  uint8_t out[MC_MAXSPACES][MC_OUTBITS / 8];
} mc_shared_t;

static mc_shared_t *mc_sh;
static mc_worker_t *mc_w;
static int mc_shard, mc_nshards = 1;
static int mc_tier;                /* 0 quick, 1 thorough */
static int mc_space_idx;
static uint64_t mc_outer;
static uint64_t mc_stop_at;        /* replay: stop after this ordinal */
static char mc_known[MC_MAXKNOWN][MC_KEYLEN];
static int mc_nknown;
static uint64_t mc_ncalls, mc_nchecks, mc_npoints, mc_nhist;
static int mc_replaying;

extern const mc_space_t mc_spaces[];
extern const int mc_nspaces;
#define MC_SPACES(...)                              \
  const mc_space_t mc_spaces[] = {__VA_ARGS__};     \
  const int mc_nspaces = sizeof(mc_spaces) / sizeof(mc_spaces[0]);

static inline bool mc_thorough(void) { return mc_tier > 0; }

/* true if this worker owns the current outer iteration */
static inline bool mc_mine(void) {
  return (int)(mc_outer++ % (uint64_t)mc_nshards) == mc_shard;
}

static void mc_format(char *out, size_t n, const char *fmt,
                      const volatile long long *a, int na) {
  size_t o = 0;
  int i = 0;
  for (const char *p = fmt ? fmt : ""; *p && o + 1 < n; p++) {
    if (*p == '%') {
      char conv = (p[1] == 'x' || p[1] == 'g' || p[1] == 'd') ? *++p : 'd';
      char t[64];
      long long v = i < na ? a[i] : 0;
      i++;
      if (conv == 'x') {
        snprintf(t, sizeof t, "0x%llx", (unsigned long long)v);
      } else if (conv == 'g') {
        double d;
        long long vv = v;
        memcpy(&d, &vv, sizeof d);
        snprintf(t, sizeof t, "%.17g", d);
      } else {
        snprintf(t, sizeof t, "%lld", v);
      }
      for (char *q = t; *q && o + 1 < n; q++) out[o++] = *q;
    } else {
      out[o++] = *p;
    }
  }
  out[o] = 0;
}

static inline long long MC_D(double d) {
  long long v;
  memcpy(&v, &d, sizeof v);
  return v;
}

static void mc_finish_space(void);

static inline void mc_point_(const char *fmt, const long long *a, int na) {
  mc_w->fmt = fmt;
  mc_w->nargs = na;
  for (int i = 0; i < na; i++) mc_w->args[i] = a[i];
  mc_npoints++;
  mc_w->ordinal = mc_npoints;
  mc_w->beat++;
  if (mc_npoints == 1) {
    mc_format(mc_w->sp[mc_space_idx].first, sizeof mc_w->sp[0].first, fmt,
              mc_w->args, na);
  }
}
/* Announce the point about to be executed. */
#define MC_POINT(fmt, ...)                                        \
  do {                                                            \
    const long long mc_a_[] = {__VA_ARGS__};                      \
    mc_point_(fmt, mc_a_, (int)(sizeof(mc_a_) / sizeof(mc_a_[0]))); \
  } while (0)

/* n calls into the code under test were made */
static inline void mc_calls(uint64_t n) { mc_ncalls += n; }
/* one complete history / execution was replayed against the code */
static inline void mc_history(void) { mc_nhist++; }
static inline void mc_depth(int d) {
  if (d > mc_w->sp[mc_space_idx].maxdepth) mc_w->sp[mc_space_idx].maxdepth = d;
}

static inline uint64_t mc_hash(const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  return h;
}
/* record an observed outcome (to show that the points do not all collapse) */
static inline void mc_outcome(uint64_t h) {
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  uint32_t b = (uint32_t)(h % MC_OUTBITS);
  mc_sh->out[mc_space_idx][b / 8] |= (uint8_t)(1u << (b % 8));
}

static void mc_flush_counts(void) {
  mc_w->sp[mc_space_idx].points = mc_npoints;
  mc_w->sp[mc_space_idx].calls = mc_ncalls;
  mc_w->sp[mc_space_idx].checks = mc_nchecks;
  mc_w->sp[mc_space_idx].histories = mc_nhist;
}

static void mc_fail(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
static void mc_fail(const char *key, const char *fmt, ...) {
  int known = 0;
  for (int i = 0; i < mc_nknown; i++) {
    if (0 == strcmp(mc_known[i], key)) known = 1;
  }
  mc_viol_t *v = NULL;
  for (int i = 0; i < mc_w->nviol; i++) {
    if (0 == strcmp(mc_w->viol[i].key, key)) {
      mc_w->viol[i].count++;
      return;
    }
  }
  if (mc_w->nviol < MC_MAXVIOL) {
    v = &mc_w->viol[mc_w->nviol];
    memset(v, 0, sizeof *v);
    snprintf(v->key, sizeof v->key, "%s", key);
    v->space = mc_space_idx;
    v->known = known;
    v->count = 1;
    v->ordinal = mc_npoints;
    mc_format(v->point, sizeof v->point, mc_w->fmt, mc_w->args, mc_w->nargs);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v->msg, sizeof v->msg, fmt, ap);
    va_end(ap);
    mc_w->nviol++;
  }
  if (!known) {
    mc_flush_counts();
    mc_w->done = 2;
    fflush(NULL);
    _exit(3);
  }
}

/* compare the implementation with the model */
#define MC_CHECK(cond, key, ...)          \
  do {                                    \
    mc_nchecks++;                         \
    if (!(cond)) mc_fail(key, __VA_ARGS__); \
  } while (0)

/* ---- isolated execution of one case (known crashes, expected aborts) ---- */
typedef enum { MC_ISO_OK = 0, MC_ISO_CRASH = 1, MC_ISO_HANG = 2 } mc_iso_t;
static mc_iso_t __attribute__((unused))
mc_isolate(void (*fn)(void *), void *arg, int timeout_ms) {
  fflush(NULL);
  pid_t p = fork();
  if (p == 0) {
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) {
      dup2(nul, 2);
      dup2(nul, 1);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    fn(arg);
    _exit(0);
  }
  int st = 0;
  for (int ms = 0; ms < timeout_ms * 10; ms++) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) {
      return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? MC_ISO_OK : MC_ISO_CRASH;
    }
    usleep(100);
    mc_w->beat++;
  }
  kill(p, SIGKILL);
  waitpid(p, &st, 0);
  return MC_ISO_HANG;
}

static double mc_now(void) {
  struct timeval tv;
  gettimeofday(&tv, NULL);
  return (double)tv.tv_sec + (double)tv.tv_usec * 1e-6;
}

/* hook: harness-specific per-process initialisation */
static void mc_init_hook(void);

static void mc_run_worker(int shard, int only_space) {
  mc_shard = shard;
  mc_w = &mc_sh->w[shard];
  mc_init_hook();
  for (int s = 0; s < mc_nspaces; s++) {
    if (only_space >= 0 && s != only_space) continue;
    if (mc_spaces[s].tier > mc_tier) continue;
    mc_space_idx = s;
    mc_w->cur_space = s;
    mc_outer = 0;
    mc_ncalls = mc_nchecks = mc_npoints = mc_nhist = 0;
    mc_w->ordinal = 0;
    mc_w->fmt = "";
    mc_w->nargs = 0;
    double t0 = mc_now();
    mc_spaces[s].run();
    mc_flush_counts();
    mc_format(mc_w->sp[s].last, sizeof mc_w->sp[0].last, mc_w->fmt, mc_w->args,
              mc_w->nargs);
    mc_w->sp[s].secs = mc_now() - t0;
  }
  mc_w->done = 1;
  fflush(NULL);
}

static void mc_jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') {
      fputc('\\', f);
      fputc(c, f);
    } else if (c < 32 || c > 126) {
      fprintf(f, "\\u%04x", c);
    } else {
      fputc(c, f);
    }
  }
  fputc('"', f);
}

static const char *mc_outdir = ".";

static pid_t mc_spawn(int shard, int only_space) {
  fflush(NULL);
  pid_t p = fork();
  if (p == 0) {
    char path[600];
    snprintf(path, sizeof path, "%s/worker%d.err", mc_outdir, shard);
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) dup2(nul, 1);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    mc_run_worker(shard, only_space);
    _exit(0);
  }
  return p;
}

/* exit: 0 ran to completion (violations, if any, are in the result file),
 * 2 machinery error */
int main(int argc, char **argv) {
  const char *resf = NULL, *knownf = NULL;
  double stall = 45, total = 840;
  int rep_space = -1, rep_shard = -1;
  mc_nshards = 8;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--tier") && i + 1 < argc)
      mc_tier = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--out") && i + 1 < argc)
      mc_outdir = argv[++i];
    else if (!strcmp(argv[i], "--result") && i + 1 < argc)
      resf = argv[++i];
    else if (!strcmp(argv[i], "--known") && i + 1 < argc)
      knownf = argv[++i];
    else if (!strcmp(argv[i], "--workers") && i + 1 < argc)
      mc_nshards = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--stall") && i + 1 < argc)
      stall = atof(argv[++i]);
    else if (!strcmp(argv[i], "--total") && i + 1 < argc)
      total = atof(argv[++i]);
    else if (!strcmp(argv[i], "--space") && i + 1 < argc)
      rep_space = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--shard") && i + 1 < argc)
      rep_shard = atoi(argv[++i]);
  }
  if (mc_nshards > MC_MAXWORKERS) mc_nshards = MC_MAXWORKERS;
  if (mc_nspaces > MC_MAXSPACES) return 2;
  if (knownf) {
    FILE *f = fopen(knownf, "r");
    char line[256];
    while (f && fgets(line, sizeof line, f) && mc_nknown < MC_MAXKNOWN) {
      line[strcspn(line, "\r\n")] = 0;
      if (line[0]) snprintf(mc_known[mc_nknown++], MC_KEYLEN, "%s", line);
    }
    if (f) fclose(f);
  }
  mc_sh = (mc_shared_t *)mmap(NULL, sizeof *mc_sh, PROT_READ | PROT_WRITE,
               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mc_sh == MAP_FAILED) return 2;
  double t0 = mc_now();
  pid_t pid[MC_MAXWORKERS];
  uint64_t beat[MC_MAXWORKERS];
  double last[MC_MAXWORKERS];
  int retried[MC_MAXWORKERS] = {0};
  int running = 0, err = 0;
  for (int i = 0; i < mc_nshards; i++) {
    pid[i] = 0;
    if (rep_shard >= 0 && i != rep_shard) continue;
    pid[i] = mc_spawn(i, rep_space);
    beat[i] = 0;
    last[i] = mc_now();
    running++;
  }
  while (running > 0) {
    usleep(2000);
    double now = mc_now();
    for (int i = 0; i < mc_nshards; i++) {
      if (pid[i] <= 0) continue;
      int st;
      pid_t r = waitpid(pid[i], &st, WNOHANG);
      mc_worker_t *w = &mc_sh->w[i];
      if (r == pid[i]) {
        pid[i] = 0;
        running--;
        if (w->done) continue;
        /* died in the middle of a point: that point is the violation */
        if (w->nviol < MC_MAXVIOL) {
          mc_viol_t *v = &w->viol[w->nviol++];
          memset(v, 0, sizeof *v);
          v->space = w->cur_space;
          v->count = 1;
          v->ordinal = w->ordinal;
          mc_format(v->point, sizeof v->point, w->fmt, w->args, w->nargs);
          snprintf(v->key, sizeof v->key, "crash:%s",
                   mc_spaces[w->cur_space].name);
          char path[600], buf[4096];
          snprintf(path, sizeof path, "%s/worker%d.err", mc_outdir, i);
          FILE *f = fopen(path, "r");
          size_t n = f ? fread(buf, 1, sizeof buf - 1, f) : 0;
          if (f) fclose(f);
          buf[n] = 0;
          const char *p = strstr(buf, "ERROR: AddressSanitizer");
          if (!p) p = strstr(buf, "runtime error");
          if (!p) p = strstr(buf, "Assertion");
          if (!p) p = buf;
          snprintf(v->msg, sizeof v->msg, "worker ended abnormally (%s %d): %.400s",
                   WIFSIGNALED(st) ? "signal" : "exit",
                   WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), p);
        }
        continue;
      }
      if (w->beat != beat[i]) {
        beat[i] = w->beat;
        last[i] = now;
      } else if (now - last[i] > (retried[i] ? 3 : 1) * stall) {
        kill(pid[i], SIGKILL);
        waitpid(pid[i], &st, 0);
        pid[i] = 0;
        running--;
        if (!retried[i]) {
          /* re-run the same deterministic shard with a longer limit */
          memset(w, 0, sizeof *w);
          retried[i] = 1;
          pid[i] = mc_spawn(i, rep_space);
          beat[i] = 0;
          last[i] = mc_now();
          running++;
        } else if (w->nviol < MC_MAXVIOL) {
          mc_viol_t *v = &w->viol[w->nviol++];
          memset(v, 0, sizeof *v);
          v->space = w->cur_space;
          v->count = 1;
          v->ordinal = w->ordinal;
          mc_format(v->point, sizeof v->point, w->fmt, w->args, w->nargs);
          snprintf(v->key, sizeof v->key, "hang:%s",
                   mc_spaces[w->cur_space].name);
          snprintf(v->msg, sizeof v->msg,
                   "no progress on one point for more than %.0f s", 3 * stall);
        }
      }
      if (now - t0 > total) {
        err = 2;
        kill(pid[i], SIGKILL);
        waitpid(pid[i], &st, 0);
        pid[i] = 0;
        running--;
      }
    }
  }
  FILE *f = resf ? fopen(resf, "w") : stdout;
  if (!f) return 2;
  fprintf(f, "{\"wall\": %.3f, \"timeout\": %s, \"spaces\": [", mc_now() - t0,
          err ? "true" : "false");
  int firstsp = 1;
  for (int s = 0; s < mc_nspaces; s++) {
    if (mc_spaces[s].tier > mc_tier) continue;
    uint64_t p = 0, c = 0, k = 0, h = 0, outs = 0;
    double secs = 0;
    int md = 0;
    for (int i = 0; i < mc_nshards; i++) {
      p += mc_sh->w[i].sp[s].points;
      c += mc_sh->w[i].sp[s].calls;
      k += mc_sh->w[i].sp[s].checks;
      h += mc_sh->w[i].sp[s].histories;
      if (mc_sh->w[i].sp[s].secs > secs) secs = mc_sh->w[i].sp[s].secs;
      if (mc_sh->w[i].sp[s].maxdepth > md) md = mc_sh->w[i].sp[s].maxdepth;
    }
    for (uint32_t b = 0; b < MC_OUTBITS / 8; b++)
      outs += (uint64_t)__builtin_popcount(mc_sh->out[s][b]);
    fprintf(f, "%s\n {\"name\": ", firstsp ? "" : ",");
    firstsp = 0;
    mc_jstr(f, mc_spaces[s].name);
    fprintf(f, ", \"rule\": ");
    mc_jstr(f, mc_spaces[s].rule);
    fprintf(f,
            ", \"points\": %" PRIu64 ", \"calls\": %" PRIu64
            ", \"checks\": %" PRIu64 ", \"histories\": %" PRIu64
            ", \"outcomes\": %" PRIu64 ", \"maxdepth\": %d, \"secs\": %.2f, \"samples\": [",
            p, c, k, h, outs, md, secs);
    int first = 1;
    for (int i = 0; i < mc_nshards && i < 2; i++) {
      if (mc_sh->w[i].sp[s].first[0]) {
        if (!first) fputs(", ", f);
        mc_jstr(f, mc_sh->w[i].sp[s].first);
        first = 0;
      }
      if (mc_sh->w[i].sp[s].last[0]) {
        if (!first) fputs(", ", f);
        mc_jstr(f, mc_sh->w[i].sp[s].last);
        first = 0;
      }
    }
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"violations\": [");
  int first = 1;
  for (int i = 0; i < mc_nshards; i++) {
    for (int v = 0; v < mc_sh->w[i].nviol; v++) {
      mc_viol_t *x = &mc_sh->w[i].viol[v];
      fprintf(f, "%s\n {\"key\": ", first ? "" : ",");
      first = 0;
      mc_jstr(f, x->key);
      fprintf(f, ", \"known\": %s, \"space_idx\": %d, \"space\": ",
              x->known ? "true" : "false", x->space);
      mc_jstr(f, mc_spaces[x->space].name);
      fprintf(f, ", \"shard\": %d, \"nshards\": %d, \"ordinal\": %" PRIu64
                 ", \"count\": %" PRIu64 ", \"point\": ",
              i, mc_nshards, x->ordinal, x->count);
      mc_jstr(f, x->point);
      fprintf(f, ", \"msg\": ");
      mc_jstr(f, x->msg);
      fprintf(f, "}");
    }
  }
  fprintf(f, "]}\n");
  if (resf) fclose(f);
  (void)mc_stop_at;
  (void)mc_replaying;
  return err;
}

#ifndef MC_CUSTOM_INIT
static void mc_init_hook(void) {}
#endif

/* small helpers shared by harnesses */
static inline bool __attribute__((unused))
mc_close(double a, double b, double abs_tol, double rel_tol) {
  if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
  if (isinf(a) || isinf(b)) return a == b;
  double d = fabs(a - b);
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
  return d <= abs_tol || d <= rel_tol * m;
}
/* deterministic filler, not used to choose what is explored */
static inline uint64_t __attribute__((unused)) mc_mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
#endif
