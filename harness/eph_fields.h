/* Shared by the ephemeris decoder harnesses: what a decoded Kepler ephemeris
 * should be, field by field. */
#ifndef EPH_FIELDS_H
#define EPH_FIELDS_H
#include <swiftnav/ephemeris.h>
#include <swiftnav/nav_meas.h>
#define PI_GPS 3.1415926535898L
typedef long double ld;
static int same(double got, ld want) {
  ld d = fabsl((ld)got - want);
  return d <= fabsl(want) * 1e-14L;
}
static ld sc(int64_t v, int exp2) { return ldexpl((ld)v, exp2); }
#define FIELD(got, want, name) MC_CHECK(same(got, want), name, name " is %.17g, expected %.17Lg", (double)(got), (ld)(want))
#endif
