/* C34: dense linear algebra.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <math.h>
#include <stdlib.h>
#include <swiftnav/linear_algebra.h>

typedef long double ld;
#define MX 12
/* outputs live between canaries, inputs in blocks of their exact size */
#define CAN 0x7a5a5a5a5a5a5a5aull
typedef struct { double *raw, *p; u32 n; } out_t;
static out_t out(u32 n) {
  out_t o = {malloc((n + 4) * 8), 0, n};
  uint64_t c = CAN;
  for (u32 i = 0; i < n + 4; i++) memcpy(o.raw + i, &c, 8);
  o.p = o.raw + 2;
  return o;
}
static void done(out_t *o) {
  uint64_t c = CAN;
  MC_CHECK(!memcmp(o->raw, &c, 8) && !memcmp(o->raw + 1, &c, 8) && !memcmp(o->p + o->n, &c, 8) && !memcmp(o->p + o->n + 1, &c, 8), "extent", "written outside the output");
  free(o->raw);
}
static double *in(u32 n, const double *v) {
  double *p = malloc(n ? n * 8 : 1);
  memcpy(p, v, n * 8);
  return p;
}
static void oc(ld v) {
  double d = (double)v;
  mc_outcome(mc_hash(&d, 8));
}
/* exact determinant of an integer (or dyadic) matrix by fraction free elimination */
static ld det(u32 n, const double *a) {
  ld m[MX][MX], prev = 1, sg = 1;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) m[i][j] = a[i * n + j];
  for (u32 k = 0; k + 1 < n; k++) {
    u32 p = k;
    while (p < n && m[p][k] == 0) p++;
    if (p == n) return 0;
    if (p != k) {
      for (u32 j = 0; j < n; j++) {
        ld t = m[p][j];
        m[p][j] = m[k][j], m[k][j] = t;
      }
      sg = -sg;
    }
    for (u32 i = k + 1; i < n; i++)
      for (u32 j = k + 1; j < n; j++) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
    prev = m[k][k];
  }
  return sg * m[n - 1][n - 1];
}
static ld norm1(u32 n, u32 m, const double *a) {
  ld r = 0;
  for (u32 i = 0; i < n * m; i++) r = fmaxl(r, fabsl(a[i]));
  return r;
}
static void inverse_one(u32 n, const double *a) {
  double *x = in(n * n, a);
  out_t b = out(n * n);
  int r = matrix_inverse(n, x, b.p);
  mc_calls(1);
  ld d = det(n, a);
  MC_CHECK(!memcmp(x, a, n * n * 8), "input", "the matrix was modified");
  /* elimination with rounding cannot tell every singular matrix of order 5 and above */
  int zero = 0;
  for (u32 i = 0; i < n; i++) {
    int zr = 1, zc = 1;
    for (u32 j = 0; j < n; j++) zr &= a[i * n + j] == 0, zc &= a[j * n + i] == 0;
    zero |= zr | zc;
  }
  if (d == 0) {
    if (n <= 4 || zero) MC_CHECK(r != 0, "singular", "a singular matrix of order %u was inverted", n);
  } else {
    MC_CHECK(r == 0, "regular", "a matrix of order %u with determinant %Lg was refused", n, d);
    if (r == 0) {
      ld w = 0, lim = 1e-10L * (1 + norm1(n, n, a) * norm1(n, n, b.p));
      for (u32 i = 0; i < n; i++)
        for (u32 j = 0; j < n; j++) {
          ld s = 0;
          for (u32 k = 0; k < n; k++) s += (ld)a[i * n + k] * b.p[k * n + j];
          ld e = fabsl(s - (i == j));
          w = e == e ? fmaxl(w, e) : INFINITY;
        }
      MC_CHECK(w < lim, "inverse", "order %u: product with the inverse is off by %Lg", n, w);
    }
  }
  oc(d);
  free(x);
  done(&b);
}
static void qr_one(u32 n, const double *a) {
  double *x = in(n * n, a);
  out_t qt = out(n * n), r = out(n * n), s = out(n), y = out(n);
  s32 c = qrdecomp_square(x, n, qt.p, r.p);
  mc_calls(1);
  ld d = det(n, a);
  MC_CHECK(!memcmp(x, a, n * n * 8), "input", "the matrix was modified");
  MC_CHECK((c == 0) == (d != 0), "qr-singular", "order %u determinant %Lg: returned %d", n, d, c);
  ld wo = 0, wf = 0, wt = 0, sc = 1e-11L * (1 + norm1(n, n, a));
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      ld o = 0, f = 0;
      for (u32 k = 0; k < n; k++) o += (ld)qt.p[i * n + k] * qt.p[j * n + k], f += (ld)qt.p[k * n + i] * r.p[k * n + j];
      ld e = fabsl(o - (i == j)), g = fabsl(f - a[i * n + j]);
      wo = e == e ? fmaxl(wo, e) : INFINITY, wf = g == g ? fmaxl(wf, g) : INFINITY;
      if (i > j) wt = fmaxl(wt, fabsl(r.p[i * n + j]));
    }
  MC_CHECK(wo < 1e-11L, "qr-orthogonal", "order %u: Q is not orthogonal by %Lg", n, wo);
  MC_CHECK(wf < sc, "qr-product", "order %u: QR differs from A by %Lg", n, wf);
  MC_CHECK(wt == 0, "qr-triangular", "order %u: R has %Lg below the diagonal", n, wt);
  for (u32 v = 0; v < n + 1; v++) {
    double b[MX];
    for (u32 i = 0; i < n; i++) b[i] = v < n ? (i == v) : (double)i - 1.5;
    double *bb = in(n, b);
    s32 q = qrsolve(x, n, n, bb, s.p);
    mc_calls(1);
    MC_CHECK((q == 0) == (d != 0), "solve-singular", "order %u determinant %Lg: returned %d", n, d, q);
    if (q == 0 && d != 0) {
      qtmult(qt.p, n, bb, y.p);
      rsolve(r.p, n, n, y.p, y.p);
      ld lim = 1e-10L * (1 + norm1(n, n, a) * norm1(n, 1, s.p));
      for (u32 i = 0; i < n; i++) {
        ld t = 0, u = 0;
        for (u32 k = 0; k < n; k++) t += (ld)a[i * n + k] * s.p[k], u += (ld)a[i * n + k] * y.p[k];
        MC_CHECK(fabsl(t - b[i]) < lim && fabsl(u - b[i]) < lim, "solve", "order %u row %u: %Lg and %Lg, expected %g", n, i, t, u, b[i]);
      }
    }
    MC_CHECK(!memcmp(b, bb, n * 8), "input", "the right side was modified");
    free(bb);
  }
  free(x);
  done(&qt), done(&r), done(&s), done(&y);
}
static void decode(uint64_t c, u32 n, int base, int off, double *a) {
  for (u32 i = 0; i < n; i++, c /= (uint64_t)base) a[i] = (double)(int)(c % (uint64_t)base) - off;
}
static uint64_t ipow(uint64_t b, u32 e) {
  uint64_t r = 1;
  while (e--) r *= b;
  return r;
}
static void each_square(void (*f)(u32, const double *), int heavy) {
  double a[MX * MX];
  struct { u32 n; int base, off; int t; } S[] = {{1, 9, 4, 0}, {2, 9, 4, 0}, {3, 3, 1, 0}, {3, 5, 2, 1}, {4, 2, 0, 0}, {4, 2, 1, 0}, {4, 3, 1, 2}};
  for (unsigned s = 0; s < sizeof S / sizeof *S; s++) {
    if (S[s].t == 2 && !mc_thorough()) continue;
    if (S[s].t == 1 && heavy && !mc_thorough()) continue;
    uint64_t N = ipow((uint64_t)S[s].base, S[s].n * S[s].n);
    uint64_t blk = N > 4096 ? 1024 : 1;
    for (uint64_t b = 0; b < N; b += blk) {
      if (!mc_mine()) continue;
      for (uint64_t c = b; c < N && c < b + blk; c++) {
        decode(c, S[s].n * S[s].n, S[s].base, S[s].off, a);
        if (S[s].n == 4 && S[s].base == 2 && S[s].off == 1)
          for (int i = 0; i < 16; i++) a[i] = a[i] < 0 ? -1 : 1;
        MC_POINT("order %u, entries %d..%d, number %u", S[s].n, -S[s].off, S[s].base - 1 - S[s].off, (u32)c);
        f(S[s].n, a);
      }
    }
  }
  /* Toeplitz matrices of order 5 to 7 (entries -1..1 on the diagonals), scaled rows */
  for (u32 n = 5; n <= 7; n++) {
    uint64_t N = ipow(3, n == 7 ? 9 : 2 * n - 1);
    for (uint64_t b = 0; b < N; b += 81) {
      if (!mc_mine()) continue;
      for (uint64_t c = b; c < b + 81 && c < N; c++) {
        if (n == 6 && !mc_thorough() && c % 7) continue;
        double d[2 * MX] = {0};
        decode(c, n == 7 ? 9 : 2 * n - 1, 3, 1, d);
        for (u32 i = 0; i < n; i++)
          for (u32 j = 0; j < n; j++) a[i * n + j] = d[i + n - 1 - j] * (double)(1 << (i % 3));
        MC_POINT("Toeplitz order %u number %u", n, (u32)c);
        f(n, a);
      }
    }
  }
  /* permutations times a diagonal, and one extra entry, orders 1 to 8 */
  for (u32 n = 1; n <= 8; n++)
    for (u32 rot = 0; rot < n; rot++)
      for (u32 st = 1; st < n + 1; st++)
        for (u32 ex = 0; ex < n * n; ex++) {
          if (!mc_mine()) continue;
          memset(a, 0, sizeof a);
          u32 g = n, h = st;
          while (h) {
            u32 t = g % h;
            g = h, h = t;
          }
          for (u32 i = 0; i < n; i++) a[i * n + (i * st + rot) % n] = (double)(1 << (i % 5)) * (i & 1 ? -1 : 1);
          if (g != 1) continue;
          a[ex] += 3;
          MC_POINT("order %u, permutation step %u rotation %u, extra entry %u", n, st, rot, ex);
          f(n, a);
        }
  /* widely scaled rows and columns */
  for (u32 n = 1; n <= 6; n++)
    for (int sr = -40; sr <= 40; sr += 20)
      for (int q = 0; q < 64; q++) {
        if (!mc_mine()) continue;
        uint64_t x = mc_mix((uint64_t)q * 977 + n);
        for (u32 i = 0; i < n * n; i++) a[i] = (double)((int)(x >> (i % 29) & 7) - 3);
        for (u32 i = 0; i < n; i++) a[i * n + i] += 9;
        if (f == inverse_one)
          for (u32 i = 0; i < n * n; i++) a[i] = ldexp(a[i], sr);
        MC_POINT("order %u, scale 2^%d, number %d", n, sr, q);
        f(n, a);
      }
}
static void inverse(void) { each_square(inverse_one, 0); }
static void qr(void) { each_square(qr_one, 1); }

static void ls_one(u32 n, u32 m, const double *a, int wk) {
  static const double W[3][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 0.5, 4, 1, 8, 0.25, 2}, {3, 1, 2, 1, 5, 1, 1, 4}};
  double aw[MX * MX], b[MX], *x = in(n * m, a), *ww = in(n, W[wk]);
  for (u32 i = 0; i < n; i++) b[i] = (double)((int)(i * i * 3 % 7) - 2);
  double *bb = in(n, b);
  for (u32 i = 0; i < m; i++)
    for (u32 j = 0; j < m; j++) {
      aw[i * m + j] = 0;
      for (u32 k = 0; k < n; k++) aw[i * m + j] += W[wk][k] * a[k * m + i] * a[k * m + j];
    }
  ld d = n >= m ? det(m, aw) : 0;
  for (int form = 0; form < 4; form++) {
    out_t s = out(m), v = out(m * m);
    int r = matrix_wlsq_solve(n, m, x, bb, wk ? ww : NULL, form & 1 ? NULL : s.p, form & 2 ? NULL : v.p);
    mc_calls(1);
    if (n < m) MC_CHECK(r == -1, "wlsq-shape", "returned %d for fewer rows than columns", r);
    else if (m <= 4) MC_CHECK((r == 0) == (d != 0), "wlsq-rank", "determinant of the normal matrix %Lg: returned %d", d, r);
    if (r == 0 && d != 0) {
      ld lim = 1e-9L;
      if (!(form & 1))
        for (u32 i = 0; i < m; i++) {
          ld t = 0;
          for (u32 k = 0; k < n; k++) {
            ld e = -b[k];
            for (u32 j = 0; j < m; j++) e += (ld)a[k * m + j] * s.p[j];
            t += W[wk][k] * a[k * m + i] * e;
          }
          MC_CHECK(fabsl(t) < lim, "wlsq", "%u by %u weights %d: residual not orthogonal to column %u by %Lg", n, m, wk, i, t);
        }
      if (!(form & 2))
        for (u32 i = 0; i < m; i++)
          for (u32 j = 0; j < m; j++) {
            ld t = 0;
            for (u32 k = 0; k < m; k++) t += (ld)aw[i * m + k] * v.p[k * m + j];
            MC_CHECK(fabsl(t - (i == j)) < lim, "covariance", "%u by %u weights %d: element %u %u off by %Lg", n, m, wk, i, j, t - (i == j));
          }
    }
    uint64_t can = CAN;
    if (form & 1) MC_CHECK(!memcmp(s.p, &can, 8), "absent", "solution written without a pointer");
    done(&s), done(&v);
  }
  MC_CHECK(!memcmp(x, a, n * m * 8) && !memcmp(bb, b, n * 8) && !memcmp(ww, W[wk], n * 8), "input", "an argument was modified");
  oc(d * 4);
  free(x), free(ww), free(bb);
}
/* pseudo-inverses: (A'WA) B = A' for tall matrices, B (AWA') = A' for wide ones */
static void pinv_one(u32 n, u32 m, const double *a, int wk) {
  static const double W[3][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 0.5, 4, 1, 8, 0.25, 2}, {3, 1, 2, 1, 5, 1, 1, 4}};
  u32 q = n > m ? m : n, big = n > m ? n : m;
  double nm[MX * MX], *x = in(n * m, a), *ww = in(big, W[wk]);
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) {
      nm[i * q + j] = 0;
      for (u32 k = 0; k < big; k++) nm[i * q + j] += W[wk][k] * (n > m ? a[k * m + i] * a[k * m + j] : a[i * m + k] * a[j * m + k]);
    }
  ld d = n == m ? det(n, a) : det(q, nm);
  for (int f = 0; f < 5; f++) {
    if (wk && f != 1 && f != 3) continue;
    out_t b = out(n * m);
    int r = f == 0 ? matrix_pseudoinverse(n, m, x, b.p) : f == 1 ? matrix_atwaiat(n, m, x, ww, b.p) : f == 2 ? matrix_ataiat(n, m, x, b.p) : f == 3 ? matrix_atawati(n, m, x, ww, b.p) : matrix_ataati(n, m, x, b.p);
    mc_calls(1);
    int ok = f == 0 ? 1 : f <= 2 ? n > m : n < m;
    if (!ok) MC_CHECK(r == -1, "pinv-shape", "function %d returned %d for %u by %u", f, r, n, m);
    else {
      if (q <= 4) MC_CHECK((r == 0) == (d != 0), "pinv-rank", "function %d, %u by %u, determinant %Lg: returned %d", f, n, m, d, r);
      if (r == 0 && d != 0) {
        ld w = 0;
        if (n == m) {
          for (u32 i = 0; i < n; i++)
            for (u32 j = 0; j < n; j++) {
              ld t = 0;
              for (u32 k = 0; k < n; k++) t += (ld)a[i * n + k] * b.p[k * n + j];
              t = fabsl(t - (i == j));
              w = t == t ? fmaxl(w, t) : INFINITY;
            }
        } else
          for (u32 i = 0; i < m; i++)
            for (u32 j = 0; j < n; j++) {
              ld t = -a[j * m + i];
              if (n > m)
                for (u32 k = 0; k < m; k++) t += (ld)nm[i * m + k] * b.p[k * n + j];
              else
                for (u32 k = 0; k < n; k++) t += (ld)b.p[i * n + k] * nm[k * n + j];
              t = fabsl(t);
              w = t == t ? fmaxl(w, t) : INFINITY;
            }
        MC_CHECK(w < 1e-9L, "pinv", "function %d, %u by %u, weights %d: defining equation off by %Lg", f, n, m, wk, w);
      }
    }
    done(&b);
  }
  MC_CHECK(!memcmp(x, a, n * m * 8) && !memcmp(ww, W[wk], big * 8), "input", "an argument was modified");
  oc(d * 4);
  free(x), free(ww);
}
static void each_rect(void (*f)(u32, u32, const double *, int)) {
  double a[MX * MX];
  for (u32 n = 1; n <= 6; n++)
    for (u32 m = 1; m <= 5; m++) {
      u32 c = n * m;
      int base = c <= 6 ? 5 : c <= 8 || (mc_thorough() && c <= 12) ? 3 : c <= (mc_thorough() ? 20u : 12u) ? 2 : 0;
      int pm = base == 2;
      for (int var = 0; var < (pm ? 2 : 1); var++) {
        uint64_t N = base ? ipow((uint64_t)base, c) : 512, blk = N > 4096 ? 512 : 8;
        for (uint64_t b = 0; b < N; b += blk) {
          if (!mc_mine()) continue;
          for (uint64_t k = b; k < N && k < b + blk; k++) {
            if (base) decode(k, c, base, base / 2, a);
            else {
              uint64_t x = mc_mix(k * 131 + c);
              for (u32 i = 0; i < c; i++) a[i] = (double)((int)((x >> (2 * (i % 31))) & 3) - 1);
            }
            if (pm)
              for (u32 i = 0; i < c; i++) a[i] = var ? (a[i] < 0 ? -1 : 1) : a[i] + 1;
            for (int w = 0; w < 3; w++) {
              MC_POINT("%u by %u, %d values, variant %d, number %u, weights %d", n, m, base, var, (u32)k, w);
              f(n, m, a, w);
            }
          }
        }
      }
    }
}
static void lsq(void) { each_rect(ls_one); }
static void pinv(void) { each_rect(pinv_one); }

static double val(int set, u32 i) { return set == 0 ? (double)(i + 1) : set == 1 ? (double)((int)(i * 7 % 11) - 5) : set == 2 ? ldexp((double)(i % 5) - 2, (int)(i % 7) * 8 - 20) : set == 3 ? (i & 1 ? -1e8 : 1e8) + i : 0; }
static void shapes(void) {
  for (u32 n = 1; n <= 6; n++)
    for (u32 m = 1; m <= 6; m++)
      for (u32 p = 1; p <= 6; p++)
        for (int sa = 0; sa < 5; sa++)
          for (int sb = 0; sb < 5; sb++) {
            if (!mc_mine()) continue;
            MC_POINT("%u %u %u, values %d and %d", n, m, p, sa, sb);
            double ta[36], tb[36];
            for (u32 i = 0; i < 36; i++) ta[i] = val(sa, i), tb[i] = val(sb, i + 3);
            double *a = in(n * m, ta), *b = in(m * p, tb), *b2 = in(n * m, tb);
            out_t c = out(n * p), t = out(n * m), s = out(n * m), cp = out(n * m), dg = out(n * m), tu = out(n * n), ey = out(n * n);
            matrix_multiply(n, m, p, a, b, c.p);
            for (u32 i = 0; i < n; i++)
              for (u32 j = 0; j < p; j++) {
                ld w = 0, mag = 0;
                for (u32 k = 0; k < m; k++) w += (ld)ta[i * m + k] * tb[k * p + j], mag += fabsl((ld)ta[i * m + k] * tb[k * p + j]);
                MC_CHECK(fabsl(c.p[i * p + j] - w) <= 1e-15L * mag, "multiply", "element %u %u is %.17g, expected %.17Lg", i, j, c.p[i * p + j], w);
              }
            matrix_transpose(n, m, a, t.p);
            matrix_copy(n, m, a, cp.p);
            static const double G[] = {0, 1, -1, 0.5, -3};
            double g = G[(n + m + p) % 5];
            matrix_add_sc(n, m, a, b2, g, s.p);
            matrix_copy(n, m, a, dg.p);
            double *dd = in(m, tb);
            matrix_multiply_diag_right(n, m, dg.p, dd);
            for (u32 i = 0; i < n; i++)
              for (u32 j = 0; j < m; j++) {
                double v = ta[i * m + j];
                MC_CHECK(t.p[j * n + i] == v, "transpose", "element %u %u", i, j);
                MC_CHECK(cp.p[i * m + j] == v, "copy", "element %u %u", i, j);
                MC_CHECK(dg.p[i * m + j] == v * tb[j], "diagonal", "element %u %u", i, j);
                MC_CHECK(fabs(s.p[i * m + j] - (v + g * tb[i * m + j])) <= 1e-15 * (fabs(v) + fabs(g * tb[i * m + j])), "add", "element %u %u", i, j);
              }
            for (u32 i = 0; i < n * n; i++) tu.p[i] = ta[i] + 1;
            matrix_triu(n, tu.p);
            matrix_eye(n, ey.p);
            for (u32 i = 0; i < n; i++)
              for (u32 j = 0; j < n; j++) {
                MC_CHECK(tu.p[i * n + j] == (j < i ? 0 : ta[i * n + j] + 1), "triu", "element %u %u", i, j);
                MC_CHECK(ey.p[i * n + j] == (i == j), "eye", "element %u %u", i, j);
              }
            /* integer products, also near the ends of the types */
            s32 ia[36], ib[36], ic[40];
            s64 la[36], lb[36], lc[40];
            for (u32 i = 0; i < 36; i++) ia[i] = (s32)((int)(i * 5 % 13) - 6) * (sa == 1 ? 1000 : 1), ib[i] = (s32)((int)(i * 3 % 7) - 3) * (sb == 1 ? 10000 : 1), la[i] = (s64)ia[i] * (sa == 2 ? 1000000 : 1), lb[i] = (s64)ib[i] * (sb == 2 ? 1000000 : 1);
            for (u32 i = 0; i < 40; i++) ic[i] = 0x5a5a5a5a, lc[i] = 0x5a5a5a5a5a5a5a5a;
            matrix_multiply_i(n, m, p, ia, ib, ic + 2);
            matrix_multiply_s64(n, m, p, la, lb, lc + 2);
            mc_calls(9);
            for (u32 i = 0; i < n; i++)
              for (u32 j = 0; j < p; j++) {
                s64 w = 0, v = 0;
                for (u32 k = 0; k < m; k++) w += (s64)ia[i * m + k] * ib[k * p + j], v += la[i * m + k] * lb[k * p + j];
                MC_CHECK(ic[2 + i * p + j] == w, "multiply-i", "element %u %u is %d", i, j, ic[2 + i * p + j]);
                MC_CHECK(lc[2 + i * p + j] == v, "multiply-s64", "element %u %u", i, j);
              }
            MC_CHECK(ic[1] == 0x5a5a5a5a && ic[2 + n * p] == 0x5a5a5a5a && lc[1] == 0x5a5a5a5a5a5a5a5a && lc[2 + n * p] == 0x5a5a5a5a5a5a5a5a, "extent", "integer product written outside the output");
            mc_outcome(mc_hash(c.p, n * p * 8));
            free(a), free(b), free(b2), free(dd);
            done(&c), done(&t), done(&s), done(&cp), done(&dg), done(&tu), done(&ey);
          }
  /* submatrices: every choice of up to three rows and columns, in any order */
  for (u32 n = 1; n <= 4; n++)
    for (u32 m = 1; m <= 4; m++)
      for (u32 nr = 0; nr <= 3; nr++)
        for (u32 nc = 0; nc <= 3; nc++)
          for (u32 rc = 0; rc < ipow(n, nr); rc++)
            for (u32 cc = 0; cc < ipow(m, nc); cc++) {
              if (!mc_mine()) continue;
              MC_POINT("submatrix of %u by %u: %u rows %u, %u columns %u", n, m, nr, rc, nc, cc);
              double ta[16];
              for (u32 i = 0; i < 16; i++) ta[i] = i + 1;
              double *a = in(n * m, ta);
              u32 R[3], C[3], q = rc;
              for (u32 i = 0; i < nr; i++, q /= n) R[i] = q % n;
              q = cc;
              for (u32 i = 0; i < nc; i++, q /= m) C[i] = q % m;
              out_t s = out(nr * nc);
              submatrix(nr, nc, m, a, R, C, s.p);
              mc_calls(1);
              for (u32 i = 0; i < nr; i++)
                for (u32 j = 0; j < nc; j++) MC_CHECK(s.p[i * nc + j] == ta[R[i] * m + C[j]], "submatrix", "element %u %u", i, j);
              done(&s);
              if (rc == 0 && cc == 0 && nr <= n && nc <= m) {
                out_t u = out(nr * nc);
                submatrix_ul(nr, nc, m, a, u.p);
                for (u32 i = 0; i < nr; i++)
                  for (u32 j = 0; j < nc; j++) MC_CHECK(u.p[i * nc + j] == ta[i * m + j], "submatrix-ul", "element %u %u", i, j);
                done(&u);
              }
              free(a);
            }
}
static void vectors(void) {
  for (u32 n = 1; n <= 6; n++)
    for (uint64_t c = 0; c < ipow(n <= 3 ? 5 : 3, 2 * n > 10 ? 10 : 2 * n); c++) {
      if (!mc_mine()) continue;
      MC_POINT("vectors of length %u, number %u", n, (u32)c);
      double v[12] = {0};
      decode(c, 2 * n > 10 ? 10 : 2 * n, n <= 3 ? 5 : 3, n <= 3 ? 2 : 1, v);
      double *a = in(n, v), *b = in(n, v + n);
      ld dot = 0, aa = 0, dd = 0, sum = 0;
      for (u32 i = 0; i < n; i++) dot += (ld)a[i] * b[i], aa += (ld)a[i] * a[i], dd += (ld)(a[i] - b[i]) * (a[i] - b[i]), sum += a[i];
      MC_CHECK(vector_dot(n, a, b) == (double)dot, "dot", "dot product");
      MC_CHECK(fabsl(vector_norm(n, a) - sqrtl(aa)) < 1e-14L, "norm", "norm");
      if (n) MC_CHECK(fabsl(vector_mean(n, a) - sum / n) < 1e-15L, "mean", "mean");
      MC_CHECK(fabsl(vector_distance(n, a, b) - sqrtl(dd)) < 1e-14L, "distance", "distance");
      static const double G[] = {0, 1, -1, 2.5};
      for (int g = 0; g < 4; g++) {
        out_t s = out(n), p = out(n), q = out(n);
        vector_add_sc(n, a, b, G[g], s.p), vector_add(n, a, b, p.p), vector_subtract(n, a, b, q.p);
        for (u32 i = 0; i < n; i++) MC_CHECK(s.p[i] == a[i] + G[g] * b[i] && p.p[i] == a[i] + b[i] && q.p[i] == a[i] - b[i], "sum", "element %u", i);
        done(&s), done(&p), done(&q);
      }
      mc_calls(16);
      if (aa > 0) {
        out_t z = out(n);
        memcpy(z.p, a, n * 8);
        vector_normalize(n, z.p);
        for (u32 i = 0; i < n; i++) MC_CHECK(fabsl(z.p[i] - a[i] / sqrtl(aa)) < 1e-15L, "normalize", "element %u", i);
        done(&z);
      }
      if (n == 3) {
        out_t x = out(3);
        vector_cross(a, b, x.p);
        for (u32 i = 0; i < 3; i++) MC_CHECK(x.p[i] == a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3], "cross", "element %u", i);
        done(&x);
      }
      MC_CHECK(!memcmp(a, v, n * 8) && !memcmp(b, v + n, n * 8), "input", "an argument was modified");
      free(a), free(b);
      oc(dot * 64 + aa);
    }
  static const double X[] = {0, 1, -1, 1e-13, 5e-13, 9e-13, 2e-12, 1e-6, 1e6, -1e-13, 1 + 5e-13};
  for (int i = 0; i < 11; i++)
    for (int j = 0; j < 11; j++) {
      if (!mc_mine()) continue;
      MC_POINT("closeness of values %d and %d", i, j);
      double d = fabs(X[i] - X[j]);
      MC_CHECK(double_approx_eq(X[i], X[j]) == (d < 1e-12), "approx", "%g apart", d);
      MC_CHECK(double_within(X[i], X[j], 1e-9) == (d < 1e-9) && double_within(X[i], X[j], 3) == (d < 3) && !double_within(X[i], X[j], 0), "within", "%g apart", d);
      mc_calls(4);
    }
}
static void udu_one(u32 n, const double *l) {
  /* M = L L' with L lower triangular (packed), positive definite when no diagonal entry is zero */
  double full[MX * MX] = {0}, M[MX * MX];
  for (u32 i = 0, k = 0; i < n; i++)
    for (u32 j = 0; j <= i; j++) full[i * n + j] = l[k++];
  for (u32 i = 0; i < n; i++)
    if (full[i * n + i] == 0) return;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      M[i * n + j] = 0;
      for (u32 k = 0; k < n; k++) M[i * n + j] += full[i * n + k] * full[j * n + k];
    }
  out_t m = out(n * n), u = out(n * n), d = out(n), r = out(n * n);
  memcpy(m.p, M, n * n * 8);
  matrix_udu(n, m.p, u.p, d.p);
  matrix_reconstruct_udu(n, u.p, d.p, r.p);
  mc_calls(2);
  for (u32 i = 0; i < n; i++) {
    MC_CHECK(d.p[i] > 0, "udu-d", "order %u: D %u is %g", n, i, d.p[i]);
    for (u32 j = 0; j < n; j++) {
      if (j <= i) MC_CHECK(u.p[i * n + j] == (i == j), "udu-unit", "order %u: U %u %u is %g", n, i, j, u.p[i * n + j]);
      ld t = 0;
      for (u32 k = 0; k < n; k++) t += (ld)u.p[i * n + k] * d.p[k] * u.p[j * n + k];
      MC_CHECK(fabsl(t - M[i * n + j]) < 1e-10L, "udu", "order %u: product differs at %u %u by %Lg", n, i, j, t - M[i * n + j]);
      MC_CHECK(fabsl(r.p[i * n + j] - M[i * n + j]) < 1e-10L, "udu-reconstruct", "order %u: element %u %u is %g, expected %g", n, i, j, r.p[i * n + j], M[i * n + j]);
    }
  }
  mc_outcome(mc_hash(d.p, n * 8));
  done(&m), done(&u), done(&d), done(&r);
}
static void udu(void) {
  for (u32 n = 1; n <= 6; n++) {
    u32 c = n * (n + 1) / 2;
    int base = n <= 3 ? 5 : n == 4 ? 3 : n == 5 && mc_thorough() ? 3 : 2;
    uint64_t N = ipow((uint64_t)base, c);
    if (n == 6) N = ipow(2, c - n);
    for (uint64_t b = 0; b < N; b += 64) {
      if (!mc_mine()) continue;
      for (uint64_t k = b; k < b + 64 && k < N; k++) {
        double l[32];
        if (n == 6) { /* unit diagonal, strictly lower part of zeros and ones */
          uint64_t q = k;
          for (u32 i = 0, p = 0; i < n; i++)
            for (u32 j = 0; j <= i; j++, p++) {
              if (i == j) l[p] = 1;
              else l[p] = (double)(q & 1), q >>= 1;
            }
        } else decode(k, c, base, base / 2, l);
        if (n == 5 && base == 2)
          for (u32 i = 0; i < c; i++) l[i] = l[i] < 0 ? -1 : 1;
        MC_POINT("order %u, %d values, number %u", n, base, (u32)k);
        udu_one(n, l);
      }
    }
  }
}
MC_SPACES({"inverse", "all small integer matrices, structured ones to order 8", inverse, 0}, {"qr", "the same matrices, decomposition and solving", qr, 0}, {"lsq", "all small integer systems, weights, optional outputs", lsq, 0},
          {"pinv", "all small integer matrices of every shape", pinv, 0}, {"shapes", "products and rearrangements for every shape", shapes, 0}, {"vectors", "all small integer vectors", vectors, 0},
          {"udu", "all small integer positive definite matrices", udu, 0})
