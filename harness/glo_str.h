/* GLONASS navigation strings with check bits, from the code's definition: data
 * bit b (9..85) has as its syndrome the (b-8)th integer >= 3 that is not a
 * power of two; bits 1..7 make the seven syndrome sums zero, bit 8 the overall
 * parity. Bits are numbered 1..85 from the least significant end. */
#ifndef GLO_STR_H
#define GLO_STR_H
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
static int gs_get(const glo_string_t *s, int bit) { return (s->word[(bit - 1) / 32] >> ((bit - 1) % 32)) & 1; }
static void gs_flip(glo_string_t *s, int bit) { s->word[(bit - 1) / 32] ^= (u32)1 << ((bit - 1) % 32); }
static void gs_put(glo_string_t *s, int first, int len, uint64_t v) {
  for (int i = 0; i < len; i++)
    if (gs_get(s, first + i) != (int)((v >> i) & 1)) gs_flip(s, first + i);
}
static int gs_syn(int b) {
  static int tab[86];
  if (!tab[85])
    for (int k = 9, s = 3; k <= 85; s++)
      if (s & (s - 1)) tab[k++] = s;
  return tab[b];
}
static void gs_seal(glo_string_t *s) {
  int syn = 0, par = 0;
  gs_put(s, 1, 8, 0);
  for (int b = 9; b <= 85; b++)
    if (gs_get(s, b)) syn ^= gs_syn(b), par ^= 1;
  gs_put(s, 1, 7, (uint64_t)syn);
  for (int i = 0; i < 7; i++) par ^= (syn >> i) & 1;
  gs_put(s, 8, 1, (uint64_t)par);
}
#endif
