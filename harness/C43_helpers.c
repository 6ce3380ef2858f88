/* C43: constants and elementary helpers.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include <swiftnav/array_tools.h>
#include <swiftnav/bits.h>
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/signal.h>

/* the published values; digits as the interface documents print them */
typedef struct { double got, want; } cst;
#define CT(x) 299792458.0 / (x)
static const double F0 = 10.23e6;
static void constants(void) {
  const cst T[] = {
      {M_PI, 3.14159265358979323846}, {M_PI_2, 1.57079632679489661923}, {M_SQRT2, 1.41421356237309504880}, {M_PI_F, 3.14159265f}, {R2D * M_PI, 180}, {D2R * 180, M_PI}, {R2D_F, 57.2957795f},
      {AS2R * 3600 * 180, M_PI}, {STD_GRAVITY_ACCELERATION, 9.80665}, {FLOAT_EQUALITY_EPS, 1e-12},
      {GPS_PI, 3.1415926535898}, {GPS_OMEGAE_DOT, 7.2921151467e-5}, {GPS_GM, 3.986005e14}, {GPS_C, 299792458}, {GPS_F, -4.442807633e-10}, {GPS_C_NO_VAC, 299792458 / 1.0002926},
      {GPS_L1_HZ, 154 * F0}, {GPS_L2_HZ, 120 * F0}, {GPS_L5_HZ, 115 * F0}, {GPS_L1_LAMBDA, CT(154 * F0)}, {GPS_L2_LAMBDA, CT(120 * F0)}, {GPS_L5_LAMBDA, CT(115 * F0)},
      {GPS_L1_LAMBDA_NO_VAC, 299792458 / 1.0002926 / (154 * F0)}, {GPS_CA_CHIPPING_RATE, 1.023e6}, {GPS_L5_CHIPPING_RATE, F0}, {GPS_CM_CHIPPING_RATE, 511.5e3}, {GPS_CL_CHIPPING_RATE, 511.5e3},
      {GPS_L1CA_CHIPS_NUM, 1023}, {GPS_L1C_CHIPS_NUM, 10230}, {GPS_L2CM_CHIPS_NUM, 20460}, {GPS_L2CL_CHIPS_NUM, 1534500}, {GPS_L5_CHIPS_NUM, 10230}, {GPS_L1CA_PRN_PERIOD_MS, 1}, {GPS_L1C_PRN_PERIOD_MS, 10},
      {GPS_L2CM_PRN_PERIOD_MS, 20}, {GPS_L2CL_PRN_PERIOD_MS, 1500}, {GPS_L2CL_PRN_START_INTERVAL_MS, 20}, {GPS_L2CL_PRN_CHIPS_PER_INTERVAL, 20460}, {GPS_L2CL_PRN_START_POINTS, 75}, {GPS_L5_PRN_PERIOD_MS, 1},
      {GLO_L1_HZ, 1602e6}, {GLO_L2_HZ, 1246e6}, {GLO_L1_LAMBDA, CT(1602e6)}, {GLO_L2_LAMBDA, CT(1246e6)}, {GLO_L1_DELTA_HZ, 562.5e3}, {GLO_L2_DELTA_HZ, 437.5e3}, {GLO_A_E, 6378136}, {GLO_J02, 1.08262575e-3},
      {GLO_GM, 3.986004418e14}, {GLO_OMEGAE_DOT, 7.292115e-5}, {GLO_CA_CHIPPING_RATE, 511e3}, {GLO_CA_CHIPS_NUM, 511}, {GLO_PRN_PERIOD_MS, 1}, {GLO_L1CA_BIT_LENGTH_MS, 20},
      {SBAS_L1_HZ, 154 * F0}, {SBAS_L5_HZ, 115 * F0}, {SBAS_L1_LAMBDA, CT(154 * F0)}, {SBAS_L5_LAMBDA, CT(115 * F0)}, {SBAS_L1CA_CHIPPING_RATE, 1.023e6}, {SBAS_L1CA_CHIPS_NUM, 1023}, {SBAS_L1CA_PRN_PERIOD_MS, 1},
      {SBAS_L5_CHIPPING_RATE, F0}, {SBAS_L5_CHIPS_NUM, 10230}, {SBAS_L5_PRN_PERIOD_MS, 1},
      {BDS2_B1I_HZ, 1561.098e6}, {BDS2_B2_HZ, 1207.14e6}, {BDS3_B1C_HZ, 1575.42e6}, {BDS3_B3_HZ, 1268.52e6}, {BDS3_B7_HZ, 1207.14e6}, {BDS3_B5_HZ, 1176.45e6}, {BDS2_B1I_LAMBDA, CT(1561.098e6)}, {BDS2_B2_LAMBDA, CT(1207.14e6)},
      {BDS2_B1I_CHIPPING_RATE, 2.046e6}, {BDS2_B2_CHIPPING_RATE, 2.046e6}, {BDS3_B1C_CHIPPING_RATE, 1.023e6}, {BDS3_B3_CHIPPING_RATE, F0}, {BDS3_B7_CHIPPING_RATE, F0}, {BDS3_B5_CHIPPING_RATE, F0},
      {BDS2_B1I_CHIPS_NUM, 2046}, {BDS2_B2_CHIPS_NUM, 2046}, {BDS3_B1C_CHIPS_NUM, 10230}, {BDS3_B3_CHIPS_NUM, 10230}, {BDS3_B7_CHIPS_NUM, 10230}, {BDS3_B5_CHIPS_NUM, 10230},
      {BDS2_B1I_PRN_PERIOD_MS, 1}, {BDS2_B2_PRN_PERIOD_MS, 1}, {BDS3_B1C_PRN_PERIOD_MS, 10}, {BDS3_B3_PRN_PERIOD_MS, 1}, {BDS3_B7_PRN_PERIOD_MS, 1}, {BDS3_B5_PRN_PERIOD_MS, 1}, {BDS2_B1I_BIT_LENGTH_MS, 20},
      {BDS2_GM, 3.986004418e14}, {BDS2_OMEGAE_DOT, 7.292115e-5},
      {GAL_E1_HZ, 1575.42e6}, {GAL_E6_HZ, 1278.75e6}, {GAL_E7_HZ, 1207.14e6}, {GAL_E8_HZ, 1191.795e6}, {GAL_E5_HZ, 1176.45e6}, {GAL_E1_LAMBDA, CT(1575.42e6)}, {GAL_E6_LAMBDA, CT(1278.75e6)}, {GAL_E7_LAMBDA, CT(1207.14e6)},
      {GAL_E8_LAMBDA, CT(1191.795e6)}, {GAL_E5_LAMBDA, CT(1176.45e6)}, {GAL_E1_CHIPPING_RATE, 1.023e6}, {GAL_E6_CHIPPING_RATE, 5.115e6}, {GAL_E7_CHIPPING_RATE, F0}, {GAL_E5_CHIPPING_RATE, F0},
      {GAL_E1B_CHIPS_NUM, 4092}, {GAL_E1C_CHIPS_NUM, 4092}, {GAL_E6_CHIPS_NUM, 5115}, {GAL_E7_CHIPS_NUM, 10230}, {GAL_E5_CHIPS_NUM, 10230}, {GAL_E1B_PRN_PERIOD_MS, 4}, {GAL_E1C_PRN_PERIOD_MS, 4}, {GAL_E6B_PRN_PERIOD_MS, 1},
      {GAL_E6C_PRN_PERIOD_MS, 1}, {GAL_E7I_PRN_PERIOD_MS, 1}, {GAL_E7Q_PRN_PERIOD_MS, 1}, {GAL_E5I_PRN_PERIOD_MS, 1}, {GAL_E5Q_PRN_PERIOD_MS, 1}, {GAL_GM, 3.986004418e14},
      {QZS_L1_HZ, 154 * F0}, {QZS_L2_HZ, 120 * F0}, {QZS_L5_HZ, 115 * F0}, {QZS_L1_LAMBDA, CT(154 * F0)}, {QZS_L2_LAMBDA, CT(120 * F0)}, {QZS_L5_LAMBDA, CT(115 * F0)}, {QZS_L1CA_CHIPPING_RATE, 1.023e6},
      {QZS_L1CA_CHIPS_NUM, 1023}, {QZS_L2CM_CHIPS_NUM, 20460}, {QZS_L2CL_CHIPS_NUM, 1534500}, {QZS_L1CA_PRN_PERIOD_MS, 1}, {QZS_L1CA_BIT_LENGTH_MS, 20}, {QZS_L2CL_PRN_START_INTERVAL_MS, 20}, {QZS_CNAV_MSG_LENGTH, 300},
#ifdef QZS_L2CL_PRN_PERIOD_MS
      {QZS_L2CL_PRN_CHIPS_PER_INTERVAL, 20460}, {QZS_L2CL_PRN_START_POINTS, 75},
#else /* the two above use it */
      {0, 1500},
#endif
      /* Doppler of one and the same speed on the other carriers */
      {GPS_L2_DOPPLER_MAX_HZ * 154, (double)GPS_L1_DOPPLER_MAX_HZ * 120}, {GPS_L5_DOPPLER_MAX_HZ * 154, (double)GPS_L1_DOPPLER_MAX_HZ * 115}, {GLO_L2_DOPPLER_MAX_HZ * 1602, (double)GLO_L1_DOPPLER_MAX_HZ * 1246},
      {SBAS_L5_DOPPLER_MAX_HZ * 154, (double)SBAS_L1_DOPPLER_MAX_HZ * 115}, {BDS2_B2_DOPPLER_MAX_HZ * 1526, (double)BDS2_B1I_DOPPLER_MAX_HZ * 1180}, {BDS3_B3_DOPPLER_MAX_HZ * 1526, (double)BDS2_B1I_DOPPLER_MAX_HZ * 1240},
      {BDS3_B7_DOPPLER_MAX_HZ * 1526, (double)BDS2_B1I_DOPPLER_MAX_HZ * 1180}, {BDS3_B5_DOPPLER_MAX_HZ * 1526, (double)BDS2_B1I_DOPPLER_MAX_HZ * 1150}, {GAL_E6_DOPPLER_MAX_HZ * 154, (double)GAL_E1_DOPPLER_MAX_HZ * 125},
      {GAL_E7_DOPPLER_MAX_HZ * 154, (double)GAL_E1_DOPPLER_MAX_HZ * 118}, {GAL_E8_DOPPLER_MAX_HZ * 154, (double)GAL_E1_DOPPLER_MAX_HZ * 116.5}, {GAL_E5_DOPPLER_MAX_HZ * 154, (double)GAL_E1_DOPPLER_MAX_HZ * 115},
      {QZS_L2_DOPPLER_MAX_HZ * 154, (double)QZS_L1_DOPPLER_MAX_HZ * 120}, {QZS_L5_DOPPLER_MAX_HZ * 154, (double)QZS_L1_DOPPLER_MAX_HZ * 115},
      {C_2P3, 8}, {C_2P4, 16}, {POW_TWO_4, 16}, {C_2P7, 128}, {POW_TWO_7, 128}, {C_2P11, 2048}, {C_2P14, 16384}, {C_2P16, 65536}};
  for (unsigned i = 0; i < sizeof T / sizeof *T; i++) {
    if (!mc_mine()) continue;
    MC_POINT("constant %d", (int)i);
    MC_CHECK(mc_close(T[i].got, T[i].want, 0, i == 3 || i == 6 ? 3e-7 : 1e-12), "constant", "%.17g, published value %.17g", T[i].got, T[i].want);
    mc_calls(1);
    mc_outcome(mc_hash(&T[i].got, 8));
  }
  /* powers of two: the scale factors lose nothing that shows in a scaled 32 bit field */
  static const struct { double v; int e; } P[] = {{C_1_2P5, 5}, {C_1_2P6, 6}, {C_1_2P11, 11}, {C_1_2P19, 19}, {C_1_2P20, 20}, {C_1_2P21, 21}, {C_1_2P23, 23}, {C_1_2P24, 24}, {C_1_2P27, 27}, {C_1_2P29, 29}, {C_1_2P30, 30}, {C_1_2P31, 31}, {C_1_2P32, 32}, {C_1_2P33, 33}, {C_1_2P34, 34}, {C_1_2P35, 35}, {C_1_2P38, 38}, {C_1_2P39, 39}, {C_1_2P40, 40}, {C_1_2P43, 43}, {C_1_2P46, 46}, {C_1_2P50, 50}, {C_1_2P51, 51}, {C_1_2P55, 55}, {C_1_2P59, 59}, {C_1_2P66, 66}, {C_1_2P68, 68}};
  for (unsigned i = 0; i < sizeof P / sizeof *P; i++) {
    if (!mc_mine()) continue;
    MC_POINT("2 to the power -%d", P[i].e);
    MC_CHECK(fabs(ldexp(P[i].v, P[i].e) - 1) < 1e-12, "power", "%.17g, expected %.17g", P[i].v, ldexp(1, -P[i].e));
    mc_calls(1);
  }
}
/* equality of floating numbers: every pair over magnitudes, distances and signs */
static void equality(void) {
  static const double B[] = {0, 1e-300, 1e-13, 9e-13, 1e-12, 1.1e-12, 1e-9, 0.1, 1, 3.5, 1000, 1e6, 1e15, 1e300, INFINITY, NAN};
  static const double D[] = {0, 1e-320, 1e-20, 1e-14, 4e-13, 9.9e-13, 1.01e-12, 2e-12, 1e-11, 1e-6, 1, 1e20};
  for (int i = 0; i < 32; i++)
    for (int d = 0; d < 24; d++) {
      if (!mc_mine()) continue;
      double a = i & 1 ? -B[i / 2] : B[i / 2], b = a + (d & 1 ? -D[d / 2] : D[d / 2]);
      long double gap = fabsl((long double)a - b);
      MC_POINT("%g and %g", MC_D(a), MC_D(b));
      bool w = gap < 1e-12L;
      mc_calls(2);
      if (gap != gap)
        w = false;
      else if (fabsl(gap - 1e-12L) < 1e-18L)
        continue;
      MC_CHECK(double_equal(a, b) == w && double_equal(b, a) == w, "equal", "equal: %d, expected %d", double_equal(a, b), w);
      float f = (float)a, g = (float)b;
      gap = fabsl((long double)f - g);
      if (fabsl(gap - 1e-12L) < 1e-18L) continue;
      w = gap == gap && gap < 1e-12L;
      MC_CHECK(float_equal(f, g) == w && float_equal(g, f) == w, "equal-float", "equal: %d, expected %d", float_equal(f, g), w);
      mc_outcome((uint64_t)w);
    }
}
/* the arithmetic macros, on every pair over the corners of three types */
#define PAIRS(type, unsig, fmt, ...)                                                                                                               \
  {                                                                                                                                               \
    static const type V[] = {__VA_ARGS__};                                                                                                         \
    int n = (int)(sizeof V / sizeof *V);                                                                                                           \
    for (int i = 0; i < n; i++)                                                                                                                    \
      for (int j = 0; j < n; j++) {                                                                                                                \
        if (!mc_mine()) continue;                                                                                                                  \
        type a = V[i], b = V[j];                                                                                                                   \
        MC_POINT(#type " %g and %g", MC_D((double)a), MC_D((double)b));                                                                            \
        type lo = a, hi = a;                                                                                                                       \
        if (b < lo) lo = b;                                                                                                                        \
        if (b > hi) hi = b;                                                                                                                        \
        mc_calls(5);                                                                                                                               \
        MC_CHECK(MIN(a, b) == lo && MAX(a, b) == hi, "min-max", "smaller " fmt ", larger " fmt, MIN(a, b), MAX(a, b));                             \
        MC_CHECK(2 * MIN(a, b + 0) == 2 * lo && MAX(a, b + 0) - hi == 0, "min-max", "inside an expression");                                       \
        if (!unsig) MC_CHECK(SIGN(a) == (a < 0 ? -1 : 1) && 1 - SIGN(a - 0) == 1 - (a < 0 ? -1 : 1), "sign", "sign %d", SIGN(a));                   \
        if (!unsig) MC_CHECK(ABS(a) == (a < 0 ? 0 - a : a) && ABS(a - 1) == (a < 1 ? 1 - a : a - 1), "abs", "absolute value");                      \
        if (unsig || (a < 1e9 && a > -1e9 && b > -1e9 && b < 1e9)) MC_CHECK(CLAMP_DIFF(a, b) == (a > b ? (type)(a - b) : 0), "clamp", "difference");   \
        mc_outcome((uint64_t)(i * n + j));                                                                                                         \
      }                                                                                                                                            \
  }
static void macros(void) {
  PAIRS(int, 0, "%d", 0, 1, -1, 2, -2, 7, 100, -100, 32767, -32768, 65536, 1000000000, -1000000000, 1073741822, -1073741823)
  PAIRS(double, 0, "%g", 0, 1, -1, 0.5, -0.5, 1e-300, -1e-300, 1e300, -1e300, 604800, 3.25, -2.75)
  PAIRS(unsigned, 1, "%u", 0, 1, 2, 7, 254, 255, 256, 65535, 65536, 2147483647u, 2147483648u, 4294967294u, 4294967295u)
  if (!mc_mine()) return;
  MC_POINT("sizes");
  u8 a8[17];
  double ad[5][3];
  gnss_signal_t as[9];
  MC_CHECK(ARRAY_SIZE(a8) == 17 && ARRAY_SIZE(ad) == 5 && ARRAY_SIZE2(ad) == 15 && ARRAY_SIZE(as) == 9, "array-size", "sizes %d %d %d %d", (int)ARRAY_SIZE(a8), (int)ARRAY_SIZE(ad), (int)ARRAY_SIZE2(ad), (int)ARRAY_SIZE(as));
  MC_CHECK((get_endianess() == SWIFT_LITTLE_ENDIAN) == (*(const u8 *)&(const u16){1} == 1), "endian", "byte order %d", (int)get_endianess());
  mc_calls(5);
}
/* every n-th time: separate call sites for each n, driven through 100 calls, argument evaluated harmlessly */
static int ran;
#define SITE(n) static void site_##n(void) { DO_EVERY(n, ran++); }
SITE(1) SITE(2) SITE(3) SITE(5) SITE(7) SITE(10) SITE(64) SITE(0)
static void every(void) {
  static void (*const S[])(void) = {site_1, site_2, site_3, site_5, site_7, site_10, site_64, site_0};
  static const int N[] = {1, 2, 3, 5, 7, 10, 64, 0};
  static unsigned done[8]; /* calls made in this process */
  for (int s = 0; s < 8; s++) {
    if (!mc_mine()) continue;
    for (int k = 0; k < 400; k++) {
      MC_POINT("every %d times, call %d", N[s], (int)done[s]);
      ran = 0;
      S[s]();
      int w = N[s] > 0 && done[s] % (unsigned)N[s] == 0;
      done[s]++;
      mc_calls(1);
      MC_CHECK(ran == w, "every", "ran %d times, expected %d", ran, w);
      mc_outcome((uint64_t)ran);
    }
    mc_history();
  }
}
/* search in small arrays */
static void search(void) {
  for (int n = 0; n < 256; n++)
    for (int at = -1; at < n; at = at < 4 || at > n - 6 ? at + 1 : at + 7) {
      if (!mc_mine()) continue;
      u8 *a = malloc((size_t)n + !n);
      u16 *b = malloc(2 * ((size_t)n + !n));
      for (int v = 0; v < 5; v++) {
        static const int X[] = {0, 1, 127, 128, 255}, Y[] = {0, 1, 255, 256, 65535};
        for (int i = 0; i < n; i++) a[i] = (u8)(X[v] + (i == at ? 0 : 1 + i % 254)), b[i] = (u16)(Y[v] + (i == at ? 0 : i % 2 ? 256 : 1));
        MC_POINT("%d elements, value at %d", n, at);
        MC_CHECK(is_value_in_array(a, (u8)n, (u8)X[v]) == (at >= 0), "search", "found: %d", at < 0);
        MC_CHECK(is_value_in_array_u16(b, (u8)n, (u16)Y[v]) == (at >= 0), "search-16", "found: %d", at < 0);
        mc_calls(2);
      }
      mc_outcome((uint64_t)(at >= 0));
      free(a);
      free(b);
    }
}
MC_SPACES({"constants", "every published constant and scale factor", constants, 0}, {"equality", "32 numbers x 24 distances, both orders, double and float", equality, 0},
          {"macros", "every pair over the corner values of int, unsigned and double", macros, 0}, {"every", "8 call sites, 400 calls each", every, 0}, {"search", "arrays of 0 to 255 elements, position of the value", search, 0})
