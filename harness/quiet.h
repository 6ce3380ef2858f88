/* silence the library's log output */
#ifndef MC_QUIET_H
#define MC_QUIET_H
#include <swiftnav/logging.h>
static void quiet_log(int level, const char *msg, ...) {
  (void)level;
  (void)msg;
}
static void quiet_dlog(int level, const char *file, const int line, const char *msg, ...) {
  (void)level;
  (void)file;
  (void)line;
  (void)msg;
}
static inline void mc_quiet(void) { logging_set_implementation(quiet_log, quiet_dlog); }
#endif
