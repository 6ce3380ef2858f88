/* C12: logging dispatch, default sink, path truncation, rate limit.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <swiftnav/logging.h>
#include <swiftnav/signal.h>

/* ---- recording sinks ---- */
typedef struct {
  int sink, detailed, level, line;
  char file[300], msg[300];
} rec_t;
static rec_t rec[8];
static int nrec;
static void record(int sink, int det, int level, const char *file, int line, const char *fmt, va_list ap) {
  if (nrec < 8) {
    rec_t *r = &rec[nrec];
    r->sink = sink;
    r->detailed = det;
    r->level = level;
    r->line = line;
    snprintf(r->file, sizeof r->file, "%s", file ? file : "");
    vsnprintf(r->msg, sizeof r->msg, fmt, ap);
  }
  nrec++;
}
#define SINK(n)                                                                         \
  static void slog##n(int level, const char *msg, ...) {                                 \
    va_list ap;                                                                         \
    va_start(ap, msg);                                                                  \
    record(n, 0, level, NULL, 0, msg, ap);                                              \
    va_end(ap);                                                                         \
  }                                                                                     \
  static void dslog##n(int level, const char *f, const int line, const char *msg, ...) { \
    va_list ap;                                                                         \
    va_start(ap, msg);                                                                  \
    record(n, 1, level, f, line, msg, ap);                                              \
    va_end(ap);                                                                         \
  }
SINK(1)
SINK(2)
SINK(3)
static const pfn_log sinks[] = {NULL, slog1, slog2, slog3};
static const pfn_detailed_log dsinks[] = {NULL, dslog1, dslog2, dslog3};

/* ---- the macros at every compile-time threshold ---- */
static int evals; /* number of argument evaluations */
static int ev(int v) {
  evals++;
  return v;
}
static int dline;
#define EMIT(t)                                                                               \
  static void emit_##t(int lv, int det) {                                                     \
    if (!det) switch (lv) {                                                                   \
        case 0: log_emerg("m %d %s %g", ev(lv), "x", 1.5); break;                              \
        case 1: log_alert("m %d %s %g", ev(lv), "x", 1.5); break;                              \
        case 2: log_crit("m %d %s %g", ev(lv), "x", 1.5); break;                               \
        case 3: log_error("m %d %s %g", ev(lv), "x", 1.5); break;                              \
        case 4: log_warn("m %d %s %g", ev(lv), "x", 1.5); break;                               \
        case 5: log_notice("m %d %s %g", ev(lv), "x", 1.5); break;                             \
        case 6: log_info("m %d %s %g", ev(lv), "x", 1.5); break;                               \
        case 7: log_debug("m %d %s %g", ev(lv), "x", 1.5); break;                              \
      }                                                                                       \
    else {                                                                                    \
      dline = __LINE__;                                                                       \
      switch (lv) {                                                                           \
        case 0: detailed_log_emerg("m %d %s %g", ev(lv), "x", 1.5); break;                     \
        case 1: detailed_log_alert("m %d %s %g", ev(lv), "x", 1.5); break;                     \
        case 2: detailed_log_crit("m %d %s %g", ev(lv), "x", 1.5); break;                      \
        case 3: detailed_log_error("m %d %s %g", ev(lv), "x", 1.5); break;                     \
        case 4: detailed_log_warn("m %d %s %g", ev(lv), "x", 1.5); break;                      \
        case 5: detailed_log_notice("m %d %s %g", ev(lv), "x", 1.5); break;                    \
        case 6: detailed_log_info("m %d %s %g", ev(lv), "x", 1.5); break;                      \
        case 7: detailed_log_debug("m %d %s %g", ev(lv), "x", 1.5); break;                     \
      }                                                                                       \
    }                                                                                         \
  }
EMIT(dflt) /* LOG_LEVEL as the header sets it: informational */
#undef LOG_LEVEL
#define LOG_LEVEL LOG_EMERG
EMIT(0)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_ALERT
EMIT(1)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_CRIT
EMIT(2)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_ERROR
EMIT(3)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_WARN
EMIT(4)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_NOTICE
EMIT(5)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_INFO
EMIT(6)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_DEBUG
EMIT(7)
#undef DEBUG
#define DEBUG true
#undef LOG_LEVEL
#define LOG_LEVEL LOG_INFO
EMIT(dbg) /* DEBUG switches log_debug on */
static void (*const emit[])(int, int) = {emit_0, emit_1, emit_2, emit_3, emit_4, emit_5, emit_6, emit_7, emit_dflt, emit_dbg};
static int passes(int cfg, int lv, int det) {
  if (cfg < 8) return lv <= cfg;
  if (cfg == 8) return lv <= 6;
  return lv <= 6 || (!det && lv == 7);
}
static const char *names[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"};

/* standard error captured in a file */
static int capfd = -1, oldfd = -1;
static void cap_begin(void) {
  fflush(stderr);
  if (capfd < 0) {
    capfd = memfd_create("log", 0);
    if (capfd < 0) abort();
  }
  if (ftruncate(capfd, 0) || lseek(capfd, 0, SEEK_SET)) abort();
  oldfd = dup(2);
  dup2(capfd, 2);
}
static void cap_end(char *out, size_t n) {
  fflush(stderr);
  dup2(oldfd, 2);
  close(oldfd);
  ssize_t r = pread(capfd, out, n - 1, 0);
  out[r > 0 ? r : 0] = 0;
}

static void expect(int cur, int cfg, int lv, int det) {
  char text[512] = "", want[512] = "", m[64];
  nrec = 0;
  evals = 0;
  memset(rec, 0, sizeof rec);
  cap_begin();
  emit[cfg](lv, det);
  cap_end(text, sizeof text);
  mc_calls(1);
  int on = passes(cfg, lv, det);
  snprintf(m, sizeof m, "m %d x 1.5", lv);
  MC_CHECK(evals == on, "arguments", "arguments were evaluated %d times", evals);
  if (cur == 0) {
    MC_CHECK(nrec == 0, "old-sink", "a removed implementation was called");
    if (on && !det) snprintf(want, sizeof want, "%s: %s\n", names[lv], m);
    if (on && det) snprintf(want, sizeof want, "(lsn::C12_logging.c:%d) %s: %s\n", dline, names[lv], m);
    MC_CHECK(!strcmp(text, want), "default-sink", "standard error got '%s', expected '%s'", text, want);
  } else {
    MC_CHECK(text[0] == 0, "stderr", "standard error got '%s' although a sink is installed", text);
    MC_CHECK(nrec == on, "dispatch", "message delivered %d times, expected %d", nrec, on);
    if (on && nrec == 1) {
      MC_CHECK(rec[0].sink == cur && rec[0].detailed == det, "sink", "went to sink %d (detailed %d)", rec[0].sink, rec[0].detailed);
      MC_CHECK(rec[0].level == lv, "level", "level %d, expected %d", rec[0].level, lv);
      MC_CHECK(!strcmp(rec[0].msg, m), "message", "message '%s'", rec[0].msg);
      if (det) MC_CHECK(!strcmp(rec[0].file, "C12_logging.c") && rec[0].line == dline, "location", "%s:%d", rec[0].file, rec[0].line);
    }
  }
  mc_outcome((uint64_t)(cur * 1000 + cfg * 100 + lv * 2 + det));
}

static void dispatch(void) {
  /* every history of up to 4 installs, a message of every level in every
   * configuration after it */
  for (int h = 0; h < 625; h++) {
    int x = h, cur = 0;
    if (!mc_mine()) continue;
    logging_set_implementation(NULL, NULL);
    for (int i = 0; i < 4; i++, x /= 5) {
      int d = x % 5;
      if (d == 4) continue; /* no operation */
      logging_set_implementation(sinks[d], dsinks[d]);
      cur = d;
      mc_calls(1);
      MC_POINT("history=%d step=%d", h, i);
      expect(cur, 8, (h + i) % 7, i & 1);
    }
    for (int cfg = 0; cfg < 10; cfg++)
      for (int lv = 0; lv < 8; lv++)
        for (int det = 0; det < 2; det++) {
          MC_POINT("history=%d config=%d level=%d detailed=%d", h, cfg, lv, det);
          expect(cur, cfg, lv, det);
        }
    mc_history();
  }
  logging_set_implementation(NULL, NULL);
}
/* half an implementation is refused */
static void half(void *a) {
  if (*(int *)a)
    logging_set_implementation(slog1, NULL);
  else
    logging_set_implementation(NULL, dslog1);
}
static void levels(void) {
  if (!mc_mine()) return;
  for (int i = 0; i < 8; i++) {
    MC_POINT("level name %d", i);
    MC_CHECK(!strcmp(level_string[i], names[i]), "level-name", "level %d is called %s", i, level_string[i]);
    mc_calls(1);
    mc_outcome((uint64_t)i);
  }
  for (int k = 0; k < 2; k++) {
    MC_POINT("half implementation %d", k);
    MC_CHECK(mc_isolate(half, &k, 4000) == MC_ISO_CRASH, "half", "half an implementation was accepted");
    mc_calls(1);
    mc_history();
  }
}

/* ---- base name of every path over a 3 letter alphabet ---- */
static void paths(void) {
  static const char abc[] = {'a', '/', '.', 'Z'};
  int L = mc_thorough() ? 10 : 8;
  for (int len = 0; len <= L; len++) {
    uint64_t tot = 1ull << (2 * len);
    for (uint64_t c = 0; c < tot; c++) {
      if ((c & 15) == 0 && !mc_mine()) {
        c += 15;
        continue;
      }
      char *p = malloc((size_t)len + 1), in[16], want[16] = "";
      for (int i = 0; i < len; i++) p[i] = abc[c >> (2 * i) & 3];
      p[len] = 0;
      strcpy(in, p);
      /* model: drop trailing slashes, keep what follows the last slash */
      int e = len;
      while (e > 0 && in[e - 1] == '/') e--;
      if (len == 0) {
      } else if (e == 0) {
        strcpy(want, "/");
      } else {
        int b = e;
        while (b > 0 && in[b - 1] != '/') b--;
        memcpy(want, in + b, (size_t)(e - b));
        want[e - b] = 0;
      }
      MC_POINT("path length=%d code=%x", len, (long long)c);
      const char *r = truncate_path_(p);
      mc_calls(1);
      mc_history();
      MC_CHECK(!strcmp(r, want), "path", "base name of '%s' is '%s', expected '%s'", in, r, want);
      mc_outcome(mc_hash(want, strlen(want)));
      free(p);
    }
  }
}

/* ---- long and awkward messages through the default sink and a sink of one's own ---- */
static void dbg_functions(void) {
  DEBUG_ENTRY();
  DEBUG_EXIT();
}
static void lengths(void) {
  static char text[6000], want[6000], arg[5000], path[300];
  static const int line[] = {0, 1, 65536, 2147483647, -1};
  for (int n = 0; n <= 4200; n = n < 300 ? n + 1 : n + (mc_thorough() ? 1 : 61)) {
    if (!mc_mine()) continue;
    for (int kind = 0; kind < 3; kind++) {
      for (int i = 0; i < n; i++) arg[i] = kind == 0 ? (char)('a' + i % 26) : kind == 1 ? "%s%n%d% "[i % 8] : (char)(1 + i % 255);
      arg[n] = 0;
      for (int lv = 0; lv < 8; lv++) {
        MC_POINT("message of %d characters, kind %d, level %d", n, kind, lv);
        logging_set_implementation(NULL, NULL);
        cap_begin();
        log_(lv, "<%s>", arg);
        cap_end(text, sizeof text);
        snprintf(want, sizeof want, "%s: <%s>\n", names[lv], arg);
        MC_CHECK(!strcmp(text, want), "long-message", "standard error got %d characters, expected %d", (int)strlen(text), (int)strlen(want));
        mc_calls(1);
        if (n < 1 || n > 254 || kind == 1) continue;
        for (int i = 0; i < n; i++) path[i] = arg[i] == '/' ? '_' : arg[i];
        path[n] = 0;
        cap_begin();
        detailed_log_(lv, path, line[(n + lv) % 5], "%s%c%5.2f%%", arg, 'x', 2.5);
        cap_end(text, sizeof text);
        snprintf(want, sizeof want, "(lsn::%s:%d) %s: %sx 2.50%%\n", path, line[(n + lv) % 5], names[lv], arg);
        MC_CHECK(!strcmp(text, want), "long-detailed", "standard error got '%s'", text);
        mc_calls(1);
      }
    }
    mc_outcome((uint64_t)n);
  }
  if (!mc_mine()) return;
  MC_POINT("function entry and exit");
  logging_set_implementation(slog3, dslog3);
  nrec = 0;
  dbg_functions();
  logging_set_implementation(NULL, NULL);
  mc_calls(1);
  MC_CHECK(nrec == 2 && !strcmp(rec[0].msg, "<dbg_functions>\n") && !strcmp(rec[1].msg, "</dbg_functions>\n") && rec[0].level == 7 && rec[1].level == 7, "entry-exit", "%d messages, '%s' '%s'", nrec, rec[0].msg, rec[1].msg);
}
/* ---- rate limiting: one call site, driven through every 6 step history ---- */
static int fired;
static void site(u32 tow) { LOG_RATE_LIMIT(tow, fired++); }
static void rate(void) {
  static const uint32_t steps[] = {0, 1, 998, 999, 1000, 1001, 5000, 604800};
  uint32_t last = 0;
  bool any = false;
  /* each worker is a fresh process: first its first call */
  uint32_t t = 500;
  int depth = mc_thorough() ? 5 : 4;
  uint64_t tot = 1;
  for (int i = 0; i < depth; i++) tot *= 8;
  for (uint64_t h = 0; h < tot; h++) {
    if (!mc_mine()) continue;
    if (t > 4000000000u) break;
    uint64_t x = h;
    for (int i = 0; i < depth; i++, x /= 8) {
      t += steps[x % 8];
      MC_POINT("rate limit history=%d step=%d time=%d", (long long)h, i, t);
      bool want = !any || t - last >= 1000;
      fired = 0;
      site(t);
      mc_calls(1);
      MC_CHECK(fired == want, "rate", "at %u (last %u): fired %d times", t, last, fired);
      if (want) last = t, any = true;
      mc_outcome((uint64_t)fired * 8 + x % 8);
    }
    mc_history();
    mc_depth(depth);
    if (t > 1000000000u) {
      /* time restarts: the difference wraps to a large number and fires */
      t = 500;
      site(t);
      last = t;
    }
  }
}
/* ---- messages about a signal start with its name ---- */
#define ABOUT(kind, id)                                                                                   \
  switch (n) {                                                                                            \
    case 0: kind##_##id(s, "plain"); break;                                                               \
    case 1: kind##_##id(s, "%d", ev(7)); break;                                                           \
    case 2: kind##_##id(s, "%d %s", ev(7), "x"); break;                                                   \
    case 3: kind##_##id(s, "%d %s %g %c", ev(7), "x", 0.5, 'c'); break;                                    \
    case 4: kind##_##id(s, "%d%d%d%d%d%d%d%d%d%d", 1, 2, 3, 4, 5, 6, 7, 8, 9, ev(7)); break;                \
  }
static const char *about_text[] = {"plain", "7", "7 x", "7 x 0.5 c", "1234567897"};
static void signals(void) {
  static const int lvl[] = {3, 4, 6, 7};
  logging_set_implementation(slog2, dslog2);
  for (int c = 0; c < CODE_COUNT; c++)
    for (int sat = 0; sat < 256; sat++) {
      gnss_signal_t s = {(u16)sat, (code_t)c};
      if (!sid_valid(s)) continue;
      if (!mc_mine()) continue;
      char name[SID_STR_LEN_MAX], want[400];
      sid_to_string(name, sizeof name, s);
      for (int n = 0; n < 5; n++)
        for (int l = 0; l < 4; l++)
          for (int det = 0; det < 2; det++) {
            MC_POINT("code %d satellite %d, message %d of level %d, detailed %d", c, sat, n, lvl[l], det);
            nrec = evals = 0;
            memset(rec, 0, sizeof rec);
            dline = 0;
            switch (l * 2 + det) {
              case 0: ABOUT(log_error, sid) break;
              case 1: ABOUT(detailed_log_error, sid) break;
              case 2: ABOUT(log_warn, sid) break;
              case 3: ABOUT(detailed_log_warn, sid) break;
              case 4: ABOUT(log_info, sid) break;
              case 5: ABOUT(detailed_log_info, sid) break;
              case 6: ABOUT(log_debug, sid) break;
              case 7: ABOUT(detailed_log_debug, sid) break;
            }
            mc_calls(1);
            int on = passes(9, lvl[l], det);
            MC_CHECK(nrec == on, "signal-dispatch", "delivered %d times, expected %d", nrec, on);
            MC_CHECK(evals == (on && n > 0), "signal-arguments", "arguments were evaluated %d times", evals);
            if (!on) continue;
            snprintf(want, sizeof want, "%s %s", name, about_text[n]);
            MC_CHECK(!strcmp(rec[0].msg, want) && rec[0].level == lvl[l] && rec[0].detailed == det && rec[0].sink == 2, "signal-message", "'%s' of level %d, expected '%s'", rec[0].msg, rec[0].level, want);
            mc_outcome(mc_hash(rec[0].msg, strlen(rec[0].msg)));
          }
    }
  logging_set_implementation(NULL, NULL);
}
MC_SPACES({"dispatch", "every history of 4 install/remove operations over 3 sinks, then every level x threshold configuration x plain/detailed", dispatch, 0},
          {"levels", "all level names; incomplete implementations", levels, 0},
          {"paths", "every path up to length 8 (10) over {a,/,.,Z}", paths, 0},
          {"rate", "every 4 (5) step history of 8 time steps at one rate-limited call site", rate, 0},
          {"signals", "messages about every signal of every code: 5 shapes x 4 levels x plain/detailed", signals, 0},
          {"lengths", "messages of 0 to 300 and up to 4200 characters, 3 kinds of content, 8 levels, file names up to 254 characters", lengths, 0})
