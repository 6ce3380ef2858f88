/* Field value patterns: all values of a narrow field; of a wide one all values
 * of its top and bottom bits against zeros and ones, walking bits and
 * alternating patterns. */
#ifndef PAT_H
#define PAT_H
#include <stdint.h>
static inline int pat_full(void) { return mc_thorough() ? 16 : 12; }
static inline uint64_t pat_count(int bits) {
  if (bits <= pat_full()) return 1ull << bits;
  return 4 * 1024 + 2 * (uint64_t)bits + 6;
}
static inline uint64_t pat(int bits, uint64_t i) {
  uint64_t all = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if (bits <= pat_full()) return i;
  if (i < 1024) return i;
  i -= 1024;
  if (i < 1024) return (all & ~1023ull) | i;
  i -= 1024;
  if (i < 1024) return i << (bits - 10);
  i -= 1024;
  if (i < 1024) return (i << (bits - 10)) | (all >> 10);
  i -= 1024;
  if (i < (uint64_t)bits) return 1ull << i;
  i -= (uint64_t)bits;
  if (i < (uint64_t)bits) return all ^ (1ull << i);
  i -= (uint64_t)bits;
  static const uint64_t w[] = {0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 0x123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x0F0F0F0F0F0F0F0Full, 0x8000000180000001ull};
  return w[i] & all;
}
static inline int64_t sgn(uint64_t v, int bits) { return (v >> (bits - 1)) & 1 ? (int64_t)(v | (bits == 64 ? 0 : ~0ull << bits)) : (int64_t)v; }
/* sign-magnitude */
static inline int64_t smag(uint64_t v, int bits) {
  int64_t m = (int64_t)(v & ((1ull << (bits - 1)) - 1));
  return (v >> (bits - 1)) & 1 ? -m : m;
}
#endif
