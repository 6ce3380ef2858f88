/* C39: record equality.
 * MC-lang: cxx
 * MC-flavours: san opt msan
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>
#include <cstddef>
#include <cmath>

enum Kind { DBL, FLT, S16_, U16_, U8_, U32_ };
struct Fld { size_t off; Kind k; double lsb; };
#define P2(n) std::ldexp(1.0, -(n))
static const double PI = 3.1415926535898;
#define E(m) offsetof(ephemeris_t, m)
#define A(m) offsetof(almanac_t, m)
#define I(m) offsetof(ionosphere_t, m)

struct Rec {
  int type; // 0 ephemeris, 1 almanac, 2 ionosphere
  code_t code;
  int n;
  Fld f[40];
  void add(size_t o, Kind k, double l) { f[n].off = o; f[n].k = k; f[n].lsb = l; n++; }
};
static Rec make(int type, code_t code) {
  Rec r;
  memset(&r, 0, sizeof r);
  r.type = type;
  r.code = code;
  constellation_t c = type < 2 ? code_to_constellation(code) : CONSTELLATION_INVALID;
  if (type == 0) {
    r.add(E(toe.wn), S16_, 1);
    r.add(E(toe.tow), DBL, c == CONSTELLATION_BDS ? 8 : c == CONSTELLATION_GAL ? 60 : c == CONSTELLATION_SBAS || c == CONSTELLATION_GLO ? 1 : 16);
    r.add(E(valid), U8_, 1);
    r.add(E(health_bits), U8_, 1);
    if (c == CONSTELLATION_SBAS) {
      for (size_t i = 0; i < 3; i++) {
        r.add(E(data.xyz.pos) + 8 * i, DBL, 0.08);
        r.add(E(data.xyz.vel) + 8 * i, DBL, 0.000625);
        r.add(E(data.xyz.acc) + 8 * i, DBL, 0.0000125);
      }
      r.add(E(data.xyz.a_gf0), DBL, P2(31));
      r.add(E(data.xyz.a_gf1), DBL, P2(40));
    } else if (c == CONSTELLATION_GLO) {
      for (size_t i = 0; i < 3; i++) {
        r.add(E(data.glo.pos) + 8 * i, DBL, 1e3 * P2(11));
        r.add(E(data.glo.vel) + 8 * i, DBL, 1e3 * P2(20));
        r.add(E(data.glo.acc) + 8 * i, DBL, 1e3 * P2(30));
      }
      r.add(E(data.glo.gamma), DBL, P2(40));
      r.add(E(data.glo.tau), DBL, P2(30));
      r.add(E(data.glo.d_tau), DBL, P2(30));
      r.add(E(data.glo.fcn), U16_, 1);
      r.add(E(data.glo.iod), U8_, 1);
    } else {
      bool g = c == CONSTELLATION_GAL, b = c == CONSTELLATION_BDS;
      double t = g ? P2(32) : b ? 1e-10 : P2(31);
      r.add(E(data.kepler.tgd.gps_s), FLT, t);
      r.add(E(data.kepler.tgd.gps_s) + 4, FLT, t);
      r.add(E(data.kepler.crc), DBL, b ? P2(6) : P2(5));
      r.add(E(data.kepler.crs), DBL, b ? P2(6) : P2(5));
      double h = b ? P2(31) : P2(29);
      r.add(E(data.kepler.cuc), DBL, h);
      r.add(E(data.kepler.cus), DBL, h);
      r.add(E(data.kepler.cic), DBL, h);
      r.add(E(data.kepler.cis), DBL, h);
      r.add(E(data.kepler.dn), DBL, PI * P2(43));
      r.add(E(data.kepler.m0), DBL, PI * P2(31));
      r.add(E(data.kepler.ecc), DBL, P2(33));
      r.add(E(data.kepler.sqrta), DBL, P2(19));
      r.add(E(data.kepler.omega0), DBL, PI * P2(31));
      r.add(E(data.kepler.omegadot), DBL, PI * P2(43));
      r.add(E(data.kepler.w), DBL, PI * P2(31));
      r.add(E(data.kepler.inc), DBL, PI * P2(31));
      r.add(E(data.kepler.inc_dot), DBL, PI * P2(43));
      r.add(E(data.kepler.af0), DBL, g ? P2(34) : b ? P2(33) : P2(31));
      r.add(E(data.kepler.af1), DBL, g ? P2(46) : b ? P2(50) : P2(43));
      r.add(E(data.kepler.af2), DBL, g ? P2(59) : b ? P2(66) : P2(55));
      r.add(E(data.kepler.toc.wn), S16_, 1);
      r.add(E(data.kepler.toc.tow), DBL, b ? 8 : g ? 60 : 16);
      r.add(E(data.kepler.iodc), U16_, 1);
      r.add(E(data.kepler.iode), U16_, 1);
    }
  } else if (type == 1) {
    r.add(A(toa.wn), S16_, 1);
    r.add(A(toa.tow), DBL, c == CONSTELLATION_GPS ? 4096 : 1);
    r.add(A(ura), FLT, 0.1);
    r.add(A(fit_interval), U32_, 1);
    r.add(A(valid), U8_, 1);
    r.add(A(health_bits), U8_, 1);
    if (c == CONSTELLATION_SBAS) {
      for (size_t i = 0; i < 3; i++) {
        r.add(A(data.xyz.pos) + 8 * i, DBL, 2600);
        r.add(A(data.xyz.vel) + 8 * i, DBL, 10);
        r.add(A(data.xyz.acc) + 8 * i, DBL, 0.0000125);
      }
    } else if (c == CONSTELLATION_GLO) {
      r.add(A(data.glo.lambda), DBL, P2(20));
      r.add(A(data.glo.t_lambda), DBL, P2(5));
      r.add(A(data.glo.i), DBL, P2(20));
      r.add(A(data.glo.t), DBL, P2(9));
      r.add(A(data.glo.t_dot), DBL, P2(14));
      r.add(A(data.glo.epsilon), DBL, P2(20));
      r.add(A(data.glo.omega), DBL, P2(15));
    } else {
      r.add(A(data.kepler.m0), DBL, P2(23));
      r.add(A(data.kepler.ecc), DBL, P2(21));
      r.add(A(data.kepler.sqrta), DBL, P2(11));
      r.add(A(data.kepler.omega0), DBL, P2(23));
      r.add(A(data.kepler.omegadot), DBL, P2(38));
      r.add(A(data.kepler.w), DBL, P2(23));
      r.add(A(data.kepler.inc), DBL, P2(19));
      r.add(A(data.kepler.af0), DBL, P2(20));
      r.add(A(data.kepler.af1), DBL, P2(38));
    }
  } else {
    r.add(I(toa.tow), DBL, 4096);
    r.add(I(toa.wn), S16_, 1);
    r.add(I(a0), DBL, P2(30));
    r.add(I(a1), DBL, P2(27));
    r.add(I(a2), DBL, P2(24));
    r.add(I(a3), DBL, P2(24));
    r.add(I(b0), DBL, 2048);
    r.add(I(b1), DBL, 16384);
    r.add(I(b2), DBL, 65536);
    r.add(I(b3), DBL, 65536);
  }
  return r;
}
union Buf { ephemeris_t e; almanac_t a; ionosphere_t i; unsigned char raw[sizeof(ephemeris_t) + 8]; Buf() {} };

static void put(Buf *b, const Fld &f, long v) {
  unsigned char *p = b->raw + f.off;
  double d = (double)v * f.lsb;
  float fl = (float)d;
  s16 s = (s16)v; u16 u = (u16)v; u8 c = (u8)v; u32 w = (u32)v;
  if (f.k == DBL) memcpy(p, &d, 8);
  else if (f.k == FLT) memcpy(p, &fl, 4);
  else if (f.k == S16_) memcpy(p, &s, 2);
  else if (f.k == U16_) memcpy(p, &u, 2);
  else if (f.k == U8_) memcpy(p, &c, 1);
  else memcpy(p, &w, 4);
}
// base values of the fields as integers of the broadcast step
static long base_of(const Rec &r, int f, int b) {
  const Fld &x = r.f[f];
  bool wn = r.type == 2 ? x.k == S16_ : x.k == S16_;
  bool tow = x.lsb >= 1 && x.k == DBL && (f == 1 || f == 0 || x.off == E(data.kepler.toc.tow));
  if (b == 0) return wn ? 0 : 0;
  if (wn) return 2100 + (f & 1);
  if (tow) return (long)(300000 / x.lsb);
  if (x.k != DBL && x.k != FLT) return b == 1 ? 1 : 0x5a + f % 5;
  long m = x.k == FLT ? 100 : 1000000;
  return b == 1 ? m + 37 * f : -(m / 3) - 11 * f;
}
static void build(Buf *o, const Rec &r, const long *v, int sat, code_t code, int pad) {
  memset(o->raw, pad == 0 ? 0 : pad == 1 ? 0xff : 0xa5, sizeof o->raw);
  if (r.type == 0) { o->e.sid.sat = (u16)sat; o->e.sid.code = code; o->e.ura = pad == 0 ? 2.0f : pad == 1 ? 2.8f : 6144.0f; o->e.fit_interval = pad == 1 ? 14400 : 7200; o->e.source = (u8)(pad == 1); }
  if (r.type == 1) { o->a.sid.sat = (u16)sat; o->a.sid.code = code; }
  for (int f = 0; f < r.n; f++) put(o, r.f[f], v[f]);
}
static bool eq(const Rec &r, const Buf *x, const Buf *y) {
  mc_calls(1);
  if (r.type == 0) return ephemeris_equal(&x->e, &y->e);
  if (r.type == 1) return almanac_equal(&x->a, &y->a);
  return x->i == y->i;
}
static const struct { int type; code_t code, other; int sat; } K[] = {
    {0, CODE_GPS_L1CA, CODE_GPS_L2CM, 5}, {0, CODE_QZS_L1CA, CODE_QZS_L2CM, 195}, {0, CODE_GAL_E1B, CODE_GAL_E7I, 11}, {0, CODE_BDS2_B1, CODE_BDS3_B3I, 21}, {0, CODE_GLO_L1OF, CODE_GLO_L2OF, 7}, {0, CODE_SBAS_L1CA, CODE_SBAS_L5I, 131},
    {1, CODE_GPS_L1CA, CODE_GPS_L2CM, 5}, {1, CODE_GLO_L1OF, CODE_GLO_L2OF, 7}, {1, CODE_SBAS_L1CA, CODE_SBAS_L5I, 131}, {2, CODE_INVALID, CODE_INVALID, 0}};
#define NK (int)(sizeof K / sizeof *K)
#define NB 3

static void expect(const Rec &r, const Buf *x, const Buf *y, bool want, const char *what) {
  bool ab = eq(r, x, y), ba = eq(r, y, x);
  MC_CHECK(ab == want && ba == want, r.type == 0 ? "ephemeris" : r.type == 1 ? "almanac" : "ionosphere", "%s: compared %d and %d, expected %d", what, (int)ab, (int)ba, (int)want);
  mc_outcome((uint64_t)(ab * 2 + ba));
}

static long fit(const Fld &f, long v) {
  return f.k == U8_ ? v & 0xff : f.k == U16_ || f.k == S16_ ? v & 0x7fff : f.k == U32_ ? v & 0xffffffffL : v;
}
static void singles(void) {
  mc_quiet();
  static const long D[] = {0, 1, -1, 2, -2, 3, 16, -16, 128, -1000, 65536};
  for (int k = 0; k < NK; k++)
    for (int b = 0; b < NB; b++) {
      Rec r = make(K[k].type, K[k].code);
      long v[40], w[40];
      for (int f = 0; f < r.n; f++) v[f] = base_of(r, f, b);
      for (int p = 0; p < 9; p++) {
        Buf x, y;
        build(&x, r, v, K[k].sat, K[k].code, p % 3);
        if (mc_mine()) {
          MC_POINT("record kind %d base %d identical, padding %d", k, b, p);
          build(&y, r, v, K[k].sat, K[k].code, p / 3);
          Buf kx = x, ky = y;
          expect(r, &x, &y, true, "identical records");
          expect(r, &x, &x, true, "the record itself");
          MC_CHECK(!memcmp(kx.raw, x.raw, sizeof x.raw) && !memcmp(ky.raw, y.raw, sizeof y.raw), "modified", "a compared record was modified");
        }
        for (int f = 0; f < r.n; f++)
          for (int d = 1; d < (int)(sizeof D / sizeof *D); d++) {
            if (!mc_mine()) continue;
            MC_POINT("record kind %d base %d field %d changed by %d steps, padding %d", k, b, f, (int)D[d], p);
            memcpy(w, v, sizeof w);
            w[f] = fit(r.f[f], v[f] + D[d]);
            if (w[f] == v[f]) continue;
            if (r.f[f].off == E(toe.tow) && r.type == 0 && w[f] < 0) continue;
            build(&y, r, w, K[k].sat, K[k].code, p / 3);
            expect(r, &x, &y, false, "one field differs");
            /* the same two objects again with the difference gone, back, and in both */
            put(&y, r.f[f], v[f]);
            bool e1 = eq(r, &x, &y);
            put(&y, r.f[f], w[f]);
            bool e2 = eq(r, &x, &y);
            put(&x, r.f[f], w[f]);
            bool e3 = eq(r, &x, &y);
            put(&x, r.f[f], v[f]);
            bool e4 = eq(r, &x, &y);
            MC_CHECK(e1 && !e2 && e3 && !e4, "again", "the same objects with the difference gone, back, in both, and back: %d %d %d %d", (int)e1, (int)e2, (int)e3, (int)e4);
            put(&y, r.f[f], v[f]);
            expect(r, &x, &y, true, "one field set back");
            put(&y, r.f[f], w[f]);
            expect(r, &x, &y, false, "one field differs again");
            put(&x, r.f[f], w[f]);
            expect(r, &x, &y, true, "one field changed in both");
            put(&x, r.f[f], v[f]);
            expect(r, &x, &y, false, "one field set back in one");
          }
        if (r.type < 2)
          for (int s = 1; s < 4; s++) {
            if (!mc_mine()) continue;
            MC_POINT("record kind %d base %d other signal %d, padding %d", k, b, s, p);
            build(&y, r, v, K[k].sat + (s & 1), s & 2 ? K[k].other : K[k].code, p / 3);
            expect(r, &x, &y, false, "other signal");
          }
      }
    }
}
/* two fields changed in opposite and equal amounts: no cancelling or combining */
static void pairs(void) {
  mc_quiet();
  static const long D[] = {1, -1, 4096};
  for (int k = 0; k < NK; k++)
    for (int b = 0; b < NB; b++) {
      Rec r = make(K[k].type, K[k].code);
      long v[40], w[40];
      for (int f = 0; f < r.n; f++) v[f] = base_of(r, f, b);
      for (int f = 0; f < r.n; f++)
        for (int g = f + 1; g < r.n; g++)
          for (int d = 0; d < 9; d++) {
            if (!mc_mine()) continue;
            MC_POINT("record kind %d base %d fields %d and %d changed, way %d", k, b, f, g, d);
            Buf x, y;
            memcpy(w, v, sizeof w);
            w[f] = fit(r.f[f], v[f] + D[d % 3]);
            w[g] = fit(r.f[g], v[g] + D[d / 3]);
            if (w[f] == v[f] && w[g] == v[g]) continue;
            build(&x, r, v, K[k].sat, K[k].code, d & 1);
            build(&y, r, w, K[k].sat, K[k].code, 2 * (d & 1));
            expect(r, &x, &y, false, "two fields differ");
          }
      for (int f = 0; f < r.n; f++)
        for (int g = f + 1; g < r.n; g++) { /* values exchanged */
          if (!mc_mine() || r.f[f].k != r.f[g].k) continue;
          MC_POINT("record kind %d base %d fields %d and %d exchanged", k, b, f, g);
          Buf x, y;
          build(&x, r, v, K[k].sat, K[k].code, 0);
          size_t n = r.f[f].k == DBL ? 8 : r.f[f].k == FLT || r.f[f].k == U32_ ? 4 : r.f[f].k == U8_ ? 1 : 2;
          y = x;
          memcpy(y.raw + r.f[f].off, x.raw + r.f[g].off, n);
          memcpy(y.raw + r.f[g].off, x.raw + r.f[f].off, n);
          bool same = !memcmp(x.raw + r.f[f].off, x.raw + r.f[g].off, n);
          expect(r, &x, &y, same, "two fields exchanged");
        }
    }
}
/* records of different constellations never compare equal, whatever else they hold */
static void kinds(void) {
  mc_quiet();
  for (int k = 0; k < NK - 1; k++)
    for (int l = 0; l < NK - 1; l++)
      for (int b = 0; b < NB; b++) {
        if (!mc_mine() || k == l || K[k].type != K[l].type) continue;
        MC_POINT("record kind %d against %d, base %d", k, l, b);
        Rec r = make(K[k].type, K[k].code);
        long v[40];
        for (int f = 0; f < r.n; f++) v[f] = base_of(r, f, b);
        Buf x, y;
        build(&x, r, v, 5, K[k].code, 0);
        y = x;
        if (r.type == 0) y.e.sid.code = K[l].code; else y.a.sid.code = K[l].code;
        expect(r, &x, &y, false, "other constellation");
      }
}
MC_SPACES({"single", "6 ephemeris, 3 almanac and the ionosphere record x 3 contents x every field changed alone by each of 10 step counts, and each signal change x 9 combinations of padding, unused union bytes and excluded fields", singles, 0},
          {"pairs", "the same records x every pair of fields x 9 combined changes, and every exchange of two field values", pairs, 0},
          {"kinds", "same bytes under two constellations", kinds, 0})
