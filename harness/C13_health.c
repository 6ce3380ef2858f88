/* C13: satellite health verdicts.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include "quiet.h"
#include <swiftnav/ephemeris.h>
#include <swiftnav/shm.h>

/* which signals a five bit health code of IS-GPS-200 table 20-VIII takes out;
 * one bit per kind: C/A on L1, L2C, P on L1, P on L2 */
enum { CA1 = 1, C2 = 2, P1 = 4, P2 = 8 };
static int kind(int c) {
  switch (c) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_QZS_L1CA: case CODE_AUX_QZS: return CA1;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: return C2;
    case CODE_GPS_L1P: return P1;
    case CODE_GPS_L2P: return P2;
    default: return 0;
  }
}
static const int dead[32] = {
    /* all ok */ 0, /* all signals weak/dead/no data */ -1, -1, -1, /* L1 P */ P1, P1, P1, /* L2 P */ P2, P2, P2,
    /* L1 C */ CA1, CA1, CA1, /* L2 C */ C2, C2, C2, /* L1 & L2 P */ P1 | P2, P1 | P2, P1 | P2, /* L1 & L2 C */ CA1 | C2, CA1 | C2, CA1 | C2,
    /* L1 */ CA1 | P1, CA1 | P1, CA1 | P1, /* L2 */ C2 | P2, C2 | P2, C2 | P2, /* out, will be out, only URA, multiple */ -1, -1, -1, -1};
static bool ok6(int h, int c) {
  int d = dead[h & 31];
  if (d == -1 || (d & kind(c))) return false;
  bool nav = c == CODE_GPS_L1CA || c == CODE_AUX_GPS || c == CODE_GPS_L1P; /* signals carrying the legacy message */
  return !(nav && (h & 32));
}
static void words(void) {
  mc_quiet();
  for (int c = -1; c < CODE_COUNT; c++)
    for (int h = 0; h < 256; h++) {
      if (!mc_mine()) continue;
      MC_POINT("code %d health word %x", c, h);
      MC_CHECK(check_6bit_health_word((u8)(h & 63), (code_t)c) == ok6(h & 63, c), "word6", "6 bit verdict");
      MC_CHECK(check_alma_page25_health_word((u8)(h & 63), (code_t)c) == ok6(h & 63, c), "page25", "page 25 verdict");
      MC_CHECK(check_8bit_health_word((u8)h, (code_t)c) == (h < 32 && ok6(h, c)), "word8", "8 bit verdict");
      for (int d = 0; d < 256; d++) {
        bool w = (h >> 5) == 0 || (d >> (h >> 5) & 1);
        MC_CHECK(check_nav_dhi((u8)h, (u8)d) == w, "dhi", "data health with disabled errors %x", d);
      }
      mc_calls(259);
      mc_outcome((uint64_t)(c * 512 + h));
    }
  static const u32 bg[] = {0, 0xFFFFFFFF, 0xA5A5A5A5, 0x5A5A5A5A};
  for (int b = 0; b < 4; b++)
    for (int v = 0; v < 64; v++)
      for (int bit = -1; bit < 32; bit++) {
        if (!mc_mine()) continue;
        u32 w = (bg[b] & ~(0x3Fu << 8)) | (u32)v << 8;
        if (bit >= 0 && (bit < 8 || bit > 13)) w ^= 1u << bit;
        u8 out = 0xEE;
        MC_POINT("word 3 of subframe 1 %x", w);
        shm_gps_decode_shi_ephemeris(w, &out);
        MC_CHECK(out == v, "shi", "health %x", out);
        mc_calls(1);
      }
}
static int cons_of(int code) {
  if (code == CODE_SBAS_L1CA || (code >= CODE_SBAS_L5I && code <= CODE_SBAS_L5X) || code == CODE_AUX_SBAS) return 1;
  if (code == CODE_GLO_L1OF || code == CODE_GLO_L2OF || code == CODE_GLO_L1P || code == CODE_GLO_L2P) return 2;
  if (code == CODE_BDS2_B1 || code == CODE_BDS2_B2 || (code >= CODE_BDS3_B1CI && code <= CODE_BDS3_B3X) || code == CODE_AUX_BDS) return 3;
  if ((code >= CODE_QZS_L1CA && code <= CODE_QZS_L5X) || code == CODE_AUX_QZS) return 4;
  if ((code >= CODE_GAL_E1B && code <= CODE_GAL_E5X) || code == CODE_AUX_GAL) return 5;
  return 0;
}
static void ephe(void) {
  mc_quiet();
  static const float ura[] = {-1e9f, -1.f, -0.001f, -0.f, 0.f, 0.01f, 2.f, 2.8f, 6.f, 4096.f, 6144.f, 6144.01f, 1e9f, INFINITY, -INFINITY};
  for (int c = 0; c < CODE_COUNT; c++)
    for (int h = 0; h < 256; h++)
      for (int u = 0; u < 15; u++)
        for (int valid = 0; valid < 2; valid++) {
          if (!mc_mine()) continue;
          static ephemeris_t e;
          memset(&e, 0x5A, sizeof e);
          e.sid.code = (code_t)c;
          e.sid.sat = 1;
          e.valid = (u8)valid;
          e.health_bits = (u8)h;
          e.ura = ura[u];
          int k = cons_of(c);
          bool acc = ura[u] >= 0, w;
          if (!valid) w = true;
          else if (k == 0) w = acc && ura[u] <= 6144.f && ok6(h, c);
          else if (k == 1 || k == 4) w = h == 0;
          else w = acc && h == 0;
          MC_POINT("ephemeris health code %d health %x ura %g valid %d", c, h, MC_D(ura[u]), valid);
          MC_CHECK(ephemeris_healthy(&e, (code_t)c) == w, "ephemeris", "verdict, expected %d", w);
          mc_calls(1);
          mc_outcome((uint64_t)(c * 256 + h));
        }
}
/* the verdict on one word must not depend on the one asked for before */
static void pairs(void) {
  mc_quiet();
  for (int c = -1; c < CODE_COUNT; c++)
    for (int h = 0; h < 64; h++) {
      if (!mc_mine()) continue;
      MC_POINT("code %d health word %x after every other code and word", c, h);
      for (int c2 = -1; c2 < CODE_COUNT; c2++)
        for (int h2 = 0; h2 < 64; h2 += c2 == c ? 1 : 7) {
          bool w = ok6(h, c);
          int o = c2 == c ? h2 : (h + h2) & 63; /* the same word and others */
          check_6bit_health_word((u8)o, (code_t)c2);
          MC_CHECK(check_6bit_health_word((u8)h, (code_t)c) == w, "pair6", "6 bit verdict after code %d word %x", c2, o);
          check_alma_page25_health_word((u8)o, (code_t)c2);
          MC_CHECK(check_alma_page25_health_word((u8)h, (code_t)c) == w, "pair25", "page 25 verdict after code %d word %x", c2, o);
          check_8bit_health_word((u8)o, (code_t)c2);
          MC_CHECK(check_8bit_health_word((u8)h, (code_t)c) == (h < 32 && w), "pair8", "8 bit verdict after code %d word %x", c2, o);
          mc_calls(6);
        }
      mc_history();
    }
  /* one record looked at again after one of its members has changed */
  static const float ura[] = {-1.f, 2.f, 6144.01f};
  for (int c = 0; c < CODE_COUNT; c++)
    for (int h = 0; h < 64; h++) {
      if (!mc_mine()) continue;
      static ephemeris_t e;
      memset(&e, 0, sizeof e);
      e.sid.code = (code_t)c, e.sid.sat = 1;
      for (int k = 0; k < 2 * 3 * 8 * 2; k++) {
        /* a walk that changes one member at a time and comes back */
        int valid = k & 1, u = (k >> 1) % 3, m = k / 6 % 8;
        for (int o = 0; o < 5; o++) {
          int v2 = o == 1 ? !valid : valid, u2 = o == 2 ? (u + 1) % 3 : o == 3 ? (u + 2) % 3 : u, h2 = o == 4 ? h ^ 1 << (m % 6) : h;
          e.valid = (u8)v2, e.ura = ura[u2], e.health_bits = (u8)h2;
          int kk = cons_of(c);
          bool acc = ura[u2] >= 0, w = !v2 ? true : kk == 0 ? acc && ura[u2] <= 6144.f && ok6(h2, c) : kk == 1 || kk == 4 ? h2 == 0 : acc && h2 == 0;
          MC_POINT("ephemeris code %d health %x ura %g valid %d after a change of one member", c, h2, MC_D(ura[u2]), v2);
          MC_CHECK(ephemeris_healthy(&e, (code_t)c) == w, "ephemeris-again", "verdict, expected %d", w);
          mc_calls(1);
        }
      }
      mc_history();
    }
}
MC_SPACES({"words", "every code x every 6 and 8 bit health word x every disabled-error mask; every health field of word 3 with single-bit surroundings", words, 0},
          {"ephemeris", "every code x every health byte x 15 accuracies x valid flag", ephe, 0},
          {"pairs", "every code and 6 bit word after every other code and word; every ephemeris after a change of one member", pairs, 0})
