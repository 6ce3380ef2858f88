/* C08: sets of satellite signal ids.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <swiftnav/sid_set.h>

/* the constellation layout, written down independently of signal.c */
static const struct { char cons; int first, n; } C[6] = {
    {'G', 1, 32}, {'S', 120, 19}, {'R', 1, 28}, {'C', 1, 64}, {'J', 193, 10}, {'E', 1, 36}};
static int cons_of(int code) {
  if (code == CODE_SBAS_L1CA || (code >= CODE_SBAS_L5I && code <= CODE_SBAS_L5X) || code == CODE_AUX_SBAS) return 1;
  if (code == CODE_GLO_L1OF || code == CODE_GLO_L2OF || code == CODE_GLO_L1P || code == CODE_GLO_L2P) return 2;
  if (code == CODE_BDS2_B1 || code == CODE_BDS2_B2 || (code >= CODE_BDS3_B1CI && code <= CODE_BDS3_B3X) || code == CODE_AUX_BDS) return 3;
  if ((code >= CODE_QZS_L1CA && code <= CODE_QZS_L5X) || code == CODE_AUX_QZS) return 4;
  if ((code >= CODE_GAL_E1B && code <= CODE_GAL_E5X) || code == CODE_AUX_GAL) return 5;
  return 0;
}
#define NID 4096
static gnss_signal_t ids[NID];
static int satkey[NID], nids;
static void setup(void) {
  if (nids) return;
  for (int c = 0; c < CODE_COUNT; c++) {
    int k = cons_of(c);
    for (int s = 0; s < C[k].n; s++) {
      ids[nids].code = (code_t)c;
      ids[nids].sat = (u16)(C[k].first + s);
      satkey[nids] = k * 256 + s;
      nids++;
    }
  }
}
static int find(int code, int sat) {
  for (int i = 0; i < nids; i++)
    if (ids[i].code == code && ids[i].sat == sat) return i;
  return -1;
}

static void singles(void) {
  setup();
  for (int i = 0; i < nids; i++) {
    if (!mc_mine()) continue;
    MC_POINT("single id code=%d sat=%d", ids[i].code, ids[i].sat);
    gnss_sid_set_t s;
    memset(&s, 0xA5, sizeof s);
    sid_set_init(&s);
    MC_CHECK(sid_set_get_sat_count(&s) == 0 && sid_set_get_sig_count(&s) == 0, "empty", "a fresh set is not empty");
    sid_set_add(&s, ids[i]);
    MC_CHECK(sid_set_get_sat_count(&s) == 1 && sid_set_get_sig_count(&s) == 1, "one", "counts after one addition: %u sats %u signals",
             sid_set_get_sat_count(&s), sid_set_get_sig_count(&s));
    for (int j = 0; j < nids; j++)
      MC_CHECK(sid_set_contains(&s, ids[j]) == (j == i), "one-member", "membership of code %d sat %d", ids[j].code, ids[j].sat);
    sid_set_remove(&s, ids[i]);
    MC_CHECK(sid_set_get_sat_count(&s) == 0 && sid_set_get_sig_count(&s) == 0 && !sid_set_contains(&s, ids[i]), "one-removed",
             "not empty after removal");
    /* the full set without one id */
    for (int j = 0; j < nids; j++) sid_set_add(&s, ids[j]);
    sid_set_remove(&s, ids[i]);
    MC_CHECK(sid_set_get_sig_count(&s) == (u32)nids - 1, "all-but-one", "%u signals, expected %d", sid_set_get_sig_count(&s), nids - 1);
    MC_CHECK(sid_set_get_sat_count(&s) == 32 + 19 + 28 + 64 + 10 + 36, "all-sats", "%u satellites", sid_set_get_sat_count(&s));
    for (int j = 0; j < nids; j++)
      MC_CHECK(sid_set_contains(&s, ids[j]) == (j != i), "all-member", "membership of code %d sat %d", ids[j].code, ids[j].sat);
    mc_calls(3 * (unsigned)nids + 8);
    mc_history();
    mc_outcome((uint64_t)i);
  }
}
static void pairs(void) {
  setup();
  for (int i = 0; i < nids; i++) {
    if (!mc_mine()) continue;
    for (int j = 0; j < nids; j++) {
      MC_POINT("pair code=%d sat=%d then code=%d sat=%d", ids[i].code, ids[i].sat, ids[j].code, ids[j].sat);
      gnss_sid_set_t s;
      sid_set_init(&s);
      sid_set_add(&s, ids[i]);
      bool has = sid_set_contains(&s, ids[j]);
      sid_set_add(&s, ids[j]);
      unsigned nsig = i == j ? 1 : 2, nsat = satkey[i] == satkey[j] ? 1 : 2;
      MC_CHECK(has == (i == j), "pair-before", "second id present before it was added");
      MC_CHECK(sid_set_get_sig_count(&s) == nsig && sid_set_get_sat_count(&s) == nsat, "pair-count", "%u signals %u satellites",
               sid_set_get_sig_count(&s), sid_set_get_sat_count(&s));
      MC_CHECK(sid_set_contains(&s, ids[i]) && sid_set_contains(&s, ids[j]), "pair-member", "an added id is missing");
      sid_set_remove(&s, ids[i]);
      MC_CHECK(sid_set_get_sig_count(&s) == nsig - 1 && !sid_set_contains(&s, ids[i]) && sid_set_contains(&s, ids[j]) == (i != j),
               "pair-remove", "removal of the first id");
      mc_calls(10);
      mc_history();
    }
    mc_outcome((uint64_t)i);
  }
}
static int A[12], nA;
static void rec(gnss_sid_set_t *s, unsigned model, int depth, int maxd, uint64_t code) {
  if (depth == maxd) return;
  for (int op = 0; op < 2 * nA; op++) {
    if (depth == 1 && !mc_mine()) continue;
    gnss_sid_set_t t = *s;
    unsigned m = op < nA ? model | 1u << op : model & ~(1u << (op - nA));
    uint64_t c = code * 32 + (unsigned)op + 1;
    MC_POINT("history %x (5 bits per operation, +1: add 0.. / remove)", c);
    if (op < nA) sid_set_add(&t, ids[A[op]]);
    else sid_set_remove(&t, ids[A[op - nA]]);
    unsigned sats = 0;
    for (int i = 0; i < nA; i++) {
      MC_CHECK(sid_set_contains(&t, ids[A[i]]) == (m >> i & 1), "hist-member", "membership of alphabet element %d", i);
      if (m >> i & 1) {
        bool dup = false;
        for (int j = 0; j < i; j++)
          if ((m >> j & 1) && satkey[A[j]] == satkey[A[i]]) dup = true;
        sats += !dup;
      }
    }
    MC_CHECK(sid_set_get_sig_count(&t) == (u32)__builtin_popcount(m), "hist-sig", "%u signals, expected %d", sid_set_get_sig_count(&t), __builtin_popcount(m));
    MC_CHECK(sid_set_get_sat_count(&t) == sats, "hist-sat", "%u satellites, expected %u", sid_set_get_sat_count(&t), sats);
    mc_calls((unsigned)nA + 3);
    mc_history();
    mc_depth(depth + 1);
    mc_outcome(m);
    rec(&t, m, depth + 1, maxd, c);
  }
}
static void hist(void) {
  setup();
  /* same satellite on several codes, same number in several constellations,
   * last satellite of the widest constellation, neighbours */
  static const int a[][2] = {{CODE_GPS_L1CA, 1}, {CODE_GPS_L2CM, 1}, {CODE_GPS_L1CA, 32}, {CODE_GLO_L1OF, 1}, {CODE_GLO_L2OF, 1},
                             {CODE_BDS2_B1, 64}, {CODE_AUX_BDS, 64}, {CODE_BDS2_B2, 33}, {CODE_GAL_E1B, 36}, {CODE_SBAS_L1CA, 120}, {CODE_QZS_L1CA, 202}};
  nA = 0;
  for (int i = 0; i < 11; i++) {
    A[nA] = find(a[i][0], a[i][1]);
    if (A[nA] >= 0) nA++;
  }
  gnss_sid_set_t s;
  sid_set_init(&s);
  rec(&s, 0, 0, mc_thorough() ? 6 : 5, 0);
}
MC_SPACES({"single", "every valid id alone, and the set of all ids without it, with membership of every id", singles, 0},
          {"pair", "every ordered pair of valid ids: add, add, remove", pairs, 0},
          {"history", "every add/remove history of depth 5 (6) over 11 ids colliding in satellite, code and constellation", hist, 0})
