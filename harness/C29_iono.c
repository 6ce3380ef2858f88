/* C29: Klobuchar ionosphere model and its page of the GPS message.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "pat.h"
#include "quiet.h"
#include "eph_fields.h"
#include <swiftnav/ionosphere.h>

#define PIL 3.14159265358979323846264338L
/* IS-GPS-200 20.3.3.5.2.5; returns metres, and how close to a case change it is */
static ld ref(ld tow, ld lat, ld lon, ld az, ld el, const ionosphere_t *k, ld *edge, ld *floor_) {
  ld E = el / PIL, psi = 0.0137L / (E + 0.11L) - 0.022L, pi_ = lat / PIL + psi * cosl(az);
  if (pi_ > 0.416L) pi_ = 0.416L;
  if (pi_ < -0.416L) pi_ = -0.416L;
  ld li = lon / PIL + psi * sinl(az) / cosl(pi_ * PIL), pm = pi_ + 0.064L * cosl((li - 1.617L) * PIL);
  ld t = fmodl(43200 * li + tow, 86400);
  if (t < 0) t += 86400;
  ld amp = k->a0 + k->a1 * pm + k->a2 * pm * pm + k->a3 * pm * pm * pm, per = k->b0 + k->b1 * pm + k->b2 * pm * pm + k->b3 * pm * pm * pm;
  if (amp < 0) amp = 0;
  if (per < 72000) per = 72000;
  ld x = 2 * PIL * (t - 50400) / per, F = 1 + 16 * (0.53L - E) * (0.53L - E) * (0.53L - E), c = 299792458.0L;
  *floor_ = F * 5e-9L * c;
  *edge = fminl(fabsl(fabsl(x) - 1.57L), fminl(t, 86400 - t));
  if (fabsl(x) >= 1.57L) return *floor_;
  return F * (5e-9L + amp * (1 - x * x / 2 + x * x * x * x / 24)) * c;
}
static const ionosphere_t K[] = {
    {{0, 0}, 0, 0, 0, 0, 0, 0, 0, 0},
    {{0, 0}, 0.1583e-7, -0.7451e-8, -0.5960e-7, 0.1192e-6, 0.1290e6, -0.2130e6, 0.6554e5, 0.3277e6},
    {{0, 0}, 127 / 1073741824., 127 / 134217728., 127 / 16777216., 127 / 16777216., 127 * 2048., 127 * 16384., 127 * 65536., 127 * 65536.},
    {{0, 0}, -128 / 1073741824., -128 / 134217728., -128 / 16777216., -128 / 16777216., -128 * 2048., -128 * 16384., -128 * 65536., -128 * 65536.},
    {{0, 0}, 3e-8, -127 / 134217728., 127 / 16777216., -127 / 16777216., 90000, -127 * 16384., 127 * 65536., -127 * 65536.},
    {{0, 0}, 1.1e-8, 0, 0, 0, 72000, 0, 0, 0},
    {{0, 0}, 2.2e-8, 1.5e-8, -5.96e-8, -1.19e-7, 96256, 32768, -196608, -65536},
    {{0, 0}, 0, 127 / 134217728., 0, 0, 0, 127 * 16384., 0, 0},
    {{0, 0}, 0, 0, 127 / 16777216., 0, 0, 0, 127 * 65536., 0},
    {{0, 0}, 0, 0, 0, 127 / 16777216., 0, 0, 0, 127 * 65536.}};
#define NK 10
static void one(double tow, double lat, double lon, double az, double el, int k) {
  gps_time_t t = {.tow = tow, .wn = 2100};
  ionosphere_t keep = K[k];
  double g = calc_ionosphere(&t, lat, lon, az, el, &keep);
  mc_calls(1);
  ld edge, fl, w = ref(tow, lat, lon, az, el, &K[k], &edge, &fl);
  MC_CHECK(!memcmp(&keep, &K[k], sizeof keep), "input", "the coefficients were modified");
  MC_CHECK(g >= (double)fl - 1e-9, "floor", "%.9g m is below the night value %.9Lg m", g, fl);
  if (edge > 1e-6L) MC_CHECK(fabsl(g - w) < 1e-6L + 1e-9L * fabsl(w), "delay", "%.9g m, expected %.9Lg m", g, w);
  MC_CHECK(g == g && fabs(g) < 1e9, "finite", "%g m", g);
  mc_outcome(mc_hash(&g, 4) & 0xffff);
}
static void grid(void) {
  mc_quiet();
  int th = mc_thorough();
  int nla = th ? 25 : 13, nlo = th ? 25 : 9, na = th ? 17 : 9, ne = th ? 13 : 7, nt = th ? 25 : 13;
  for (int la = 0; la < nla; la++)
    for (int lo = 0; lo < nlo; lo++)
      for (int a = 0; a < na; a++)
        for (int e = 0; e < ne; e++) {
          if (!mc_mine()) continue;
          for (int t = 0; t < nt; t++)
            for (int k = 0; k < NK; k++) {
              double lat = (-90 + 180. * la / (nla - 1)) * 3.14159265358979 / 180, lon = (-180 + 360. * lo / (nlo - 1)) * 3.14159265358979 / 180, az = 2 * 3.14159265358979 * a / (na - 1), el = 3.14159265358979 / 2 * e / (ne - 1), tow = 604799. * t / (nt - 1);
              MC_POINT("tow %g latitude %g longitude %g azimuth %g elevation %g coefficients %d", MC_D(tow), MC_D(lat), MC_D(lon), MC_D(az), MC_D(el), k);
              one(tow, lat, lon, az, el, k);
            }
        }
}
/* a whole week at fixed places, and periodicity */
static void week(void) {
  mc_quiet();
  static const double LL[][2] = {{0, 0}, {0.7, -2.1}, {-0.6, 2.6}, {1.5, 3.1}, {-1.2, -3.1}, {0.3, 1.0}};
  for (int p = 0; p < 6; p++)
    for (int k = 0; k < NK; k++)
      for (int h = 0; h < 168; h++) {
        if (!mc_mine()) continue;
        for (int s = 0; s < 3600; s += mc_thorough() ? 15 : 100) {
          double tow = h * 3600 + s;
          MC_POINT("tow %g place %d coefficients %d", MC_D(tow), p, k);
          one(tow, LL[p][0], LL[p][1], 1.1 * p, 0.2 + 0.2 * p, k);
          if (h >= 144) continue;
          gps_time_t a = {.tow = tow, .wn = 2100}, b = {.tow = tow + 86400, .wn = 1};
          double x = calc_ionosphere(&a, LL[p][0], LL[p][1], 1.1 * p, 0.2 + 0.2 * p, &K[k]), y = calc_ionosphere(&b, LL[p][0], LL[p][1], 1.1 * p, 0.2 + 0.2 * p, &K[k]);
          ld edge, fl;
          (void)ref(tow, LL[p][0], LL[p][1], 1.1 * p, 0.2 + 0.2 * p, &K[k], &edge, &fl);
          if (edge > 1e-6L) MC_CHECK(fabs(x - y) < 1e-6 + 1e-9 * fabs(x), "daily", "%.9g m, a day later %.9g m", x, y);
        }
      }
}
/* the coefficients one by one and in pairs */
static void coeffs(void) {
  mc_quiet();
  for (int i = 0; i < 8; i++)
    for (int j = i; j < 8; j++)
      for (int vi = 0; vi < 9; vi++)
        for (int vj = 0; vj < 9; vj++) {
          if (!mc_mine()) continue;
          static const int V[] = {-128, -77, -13, -1, 0, 1, 20, 66, 127};
          static const double S[] = {1 / 1073741824., 1 / 134217728., 1 / 16777216., 1 / 16777216., 2048, 16384, 65536, 65536};
          ionosphere_t k = K[1];
          double *f[] = {&k.a0, &k.a1, &k.a2, &k.a3, &k.b0, &k.b1, &k.b2, &k.b3};
          *f[i] = V[vi] * S[i];
          *f[j] = V[vj] * S[j];
          for (int q = 0; q < 48; q++) {
            double tow = 1800. * q + 3 * 86400, lat = -1.4 + 0.059 * q, lon = -3.1 + 0.13 * ((q * 7) % 48), az = 0.13 * q, el = 0.05 + 0.031 * q;
            gps_time_t t = {.tow = tow, .wn = 2100};
            MC_POINT("coefficient %d is %d, %d is %d, case %d", i, V[vi], j, V[vj], q);
            double g = calc_ionosphere(&t, lat, lon, az, el, &k);
            mc_calls(1);
            ld edge, fl, w = ref(tow, lat, lon, az, el, &k, &edge, &fl);
            if (edge > 1e-6L) MC_CHECK(fabsl(g - w) < 1e-6L + 1e-9L * fabsl(w), "delay", "%.9g m, expected %.9Lg m", g, w);
            MC_CHECK(g >= (double)fl - 1e-9, "floor", "%.9g m is below the night value %.9Lg m", g, fl);
          }
        }
}
static void page(void) {
  mc_quiet();
  static const u32 NOISE[] = {0, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA};
  static const struct { int word, first, e; } P[8] = {{3, 9, -30}, {3, 17, -27}, {4, 1, -24}, {4, 9, -24}, {4, 17, 11}, {5, 1, 14}, {5, 9, 16}, {5, 17, 16}};
  for (int f = 0; f < 8; f++)
    for (int v = 0; v < 256; v++)
      for (int b = 0; b < 5; b++)
        for (int n = 0; n < 4; n++) {
          if (!mc_mine()) continue;
          u32 w[8];
          int val[8];
          for (int i = 0; i < 8; i++) w[i] = NOISE[n];
          w[0] = (w[0] & ~((u32)0xFF << 22)) | (u32)(1 << 6 | 56) << 22;
          for (int i = 0; i < 8; i++) {
            val[i] = i == f ? v : b == 0 ? 0 : b == 1 ? 255 : b == 2 ? 17 * i + 3 : b == 3 ? 255 - v : 128;
            u32 *p = &w[P[i].word - 3], sh = (u32)(30 - P[i].first - 7);
            *p = (*p & ~((u32)255 << sh)) | (u32)val[i] << sh;
          }
          u32 keep[8];
          memcpy(keep, w, sizeof w);
          ionosphere_t o;
          memset(&o, 0x6b, sizeof o);
          MC_POINT("coefficient %d is %d, background %d, other bits %x", f, v, b, (int)NOISE[n]);
          bool r = decode_iono_parameters(w, &o);
          mc_calls(1);
          MC_CHECK(r && !memcmp(keep, w, sizeof w), "page", "returned %d", r);
          const double g[] = {o.a0, o.a1, o.a2, o.a3, o.b0, o.b1, o.b2, o.b3};
          for (int i = 0; i < 8; i++) FIELD(g[i], sc((int8_t)val[i], P[i].e), "coefficient");
          mc_outcome(mc_hash(g, sizeof g));
        }
  for (int id = 0; id < 256; id++)
    for (int n = 0; n < 4; n++) {
      if (!mc_mine()) continue;
      u32 w[8];
      for (int i = 0; i < 8; i++) w[i] = NOISE[n];
      w[0] = (w[0] & ~((u32)0xFF << 22)) | (u32)id << 22;
      ionosphere_t o;
      memset(&o, 0x6b, sizeof o);
      MC_POINT("data id %d sv id %d", id >> 6, id & 63);
      bool r = decode_iono_parameters(w, &o);
      mc_calls(1);
      MC_CHECK(r == (id == (64 | 56)), "page-type", "returned %d", r);
    }
}
/* BeiDou subframe 1: the coefficients are consecutive in the 22 information bits of words 5 to 8 */
static void bds(void) {
  mc_quiet();
  static const u32 NOISE[] = {0, 0x3FFFFFFF, 0x15555555, 0x2AAAAAAA};
  static const int E[8] = {-30, -27, -24, -24, 11, 14, 16, 16};
  for (int f = 0; f < 8; f++)
    for (int v = 0; v < 256; v++)
      for (int b = 0; b < 5; b++)
        for (int n = 0; n < 4; n++) {
          if (!mc_mine()) continue;
          u32 w[10], keep[10];
          int val[8];
          for (int i = 0; i < 10; i++) w[i] = NOISE[n];
          for (int i = 0; i < 8; i++) {
            val[i] = i == f ? v : b == 0 ? 0 : b == 1 ? 255 : b == 2 ? 17 * i + 3 : b == 3 ? 255 - v : 128;
            for (int k = 0; k < 8; k++) {
              int pos = 6 + 8 * i + k; /* word 5 begins with the end of another field */
              u32 *p = &w[4 + pos / 22], m = 1u << (29 - pos % 22);
              *p = val[i] >> (7 - k) & 1 ? *p | m : *p & ~m;
            }
          }
          memcpy(keep, w, sizeof w);
          ionosphere_t o;
          memset(&o, 0x6b, sizeof o);
          MC_POINT("BeiDou coefficient %d is %d, background %d, other bits %x", f, v, b, (int)NOISE[n]);
          decode_bds_d1_iono(w, &o);
          mc_calls(1);
          MC_CHECK(!memcmp(keep, w, sizeof w), "page", "the words were modified");
          MC_CHECK(o.toa.wn == (int)(w[2] >> 17 & 0x1fff) + 1356, "week", "week %d", o.toa.wn);
          const double g[] = {o.a0, o.a1, o.a2, o.a3, o.b0, o.b1, o.b2, o.b3};
          for (int i = 0; i < 8; i++) FIELD(g[i], sc((int8_t)val[i], E[i]), "coefficient");
          mc_outcome(mc_hash(g, sizeof g));
        }
}
MC_SPACES({"grid", "13 latitudes x 9 longitudes x 9 azimuths x 7 elevations x 13 times x 10 coefficient sets (25 x 25 x 17 x 13 x 25)", grid, 0},
          {"week", "a week in steps of 100 s (15 s) at 6 places x 10 coefficient sets, and the same a day later", week, 0},
          {"coefficients", "every pair of coefficients x 9 x 9 values x 48 geometries", coeffs, 0},
          {"page", "8 coefficients x 256 codes x 5 backgrounds x 4 fillings of unused bits, all page types", page, 0},
          {"bds", "BeiDou: 8 coefficients x 256 codes x 5 backgrounds x 4 fillings of the other bits", bds, 0})
