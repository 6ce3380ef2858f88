/* Histories in which a call alternates with the same call with one single
 * element of its arguments changed, a little or a lot: what one call computes
 * must not be taken for the answer of another. */
#ifndef NEAR_H
#define NEAR_H
static const double NEAR_D[] = {1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 0.3};
#define NEAR_ND 6
/* p: the elements, scale: the size of a large change (0: change by sign only,
 * negative: no change of sign), f: performs the call and judges its result */
static void near_each(double *const *p, const double *scale, int n, void (*f)(void)) {
  f();
  for (int i = 0; i < n; i++) {
    double was = *p[i], s = scale[i] < 0 ? -scale[i] : scale[i];
    for (int k = 0; k < NEAR_ND; k++)
      for (int g = -1; g <= 1; g += 2) {
        if (was + g * NEAR_D[k] * s == was) continue;
        *p[i] = was + g * NEAR_D[k] * s;
        f();
        *p[i] = was;
        f();
      }
    if (scale[i] >= 0 && was != 0) {
      *p[i] = -was;
      f();
      *p[i] = was;
      f();
    }
  }
}
/* the same for message fields: every single bit of every field in turn */
#define NEAR_BITS(v, nf, len, call)                \
  call;                                            \
  for (int f_ = 0; f_ < (nf); f_++)                \
    for (int k_ = 0; k_ < (int)(len(f_)); k_++) {  \
      (v)[f_] ^= 1ull << k_;                       \
      call;                                        \
      (v)[f_] ^= 1ull << k_;                       \
      call;                                        \
    }
#endif
