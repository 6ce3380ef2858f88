/* C10: the GLONASS slot map.
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
#include <swiftnav/constants.h>
#include <swiftnav/glo_map.h>
#include "quiet.h"

static int held, nlock, badlock, looking, inner; /* looking: the harness reads the map; a reader may take the lock too */
static u8 seen[29], model[29];
static void snap(u8 *v) {
  looking = 1;
  inner = 0;
  for (u16 s = 1; s <= 28; s++) {
    gnss_signal_t sid = construct_sid(s & 1 ? CODE_GLO_L1OF : CODE_GLO_L2OF, s);
    v[s] = glo_map_valid(sid) ? (u8)glo_map_get_fcn(sid) : 0;
  }
  if (inner) badlock |= 8; /* a query kept the lock */
  looking = 0;
}
static void on_lock(void) {
  if (looking) {
    if (inner++) badlock |= 1;
    return;
  }
  if (held) badlock |= 1;
  held = 1;
  nlock++;
  u8 v[29];
  snap(v);
  if (memcmp(v + 1, seen + 1, 28)) badlock |= 2; /* changed while not held */
}
static int nother;
static void other(void) { if (!looking) nother++; }
static void on_unlock(void) {
  if (looking) {
    if (inner-- != 1) badlock |= 4;
    return;
  }
  if (!held) badlock |= 4;
  held = 0;
  snap(seen);
}
static void reset(void) {
  mc_quiet();
  glo_map_init(NULL, NULL);
  glo_map_clear_all();
  memset(model, 0, sizeof model);
  memset(seen, 0, sizeof seen);
  held = nlock = badlock = 0;
  glo_map_init(on_lock, on_unlock);
}
static const int S[3] = {1, 14, 28}, F[3] = {1, 8, 14};
static const int BAD[][2] = {{0, 1}, {15, 1}, {1, 0}, {1, 29}, {255, 14}, {65535, 28}, {8, 65535}, {257, 1}, {8, 256 + 14}};
#define NOPS (9 + 3 + 1 + 9)
static void apply(int op) {
  int changed = 0;
  nlock = 0;
  badlock = 0;
  if (op < 9) {
    glo_map_set_slot_id((u16)F[op % 3], (u16)S[op / 3]);
    model[S[op / 3]] = (u8)F[op % 3];
    changed = 1;
  } else if (op < 12) {
    glo_map_clear_slot_id((u16)S[op - 9]);
    model[S[op - 9]] = 0;
    changed = 1;
  } else if (op == 12) {
    glo_map_clear_all();
    memset(model, 0, sizeof model);
    changed = 2;
  } else
    glo_map_set_slot_id((u16)BAD[op - 13][0], (u16)BAD[op - 13][1]);
  MC_CHECK(!held && !badlock, "lock", "lock discipline violated (%d): 1 nested, 2 changed without the lock, 4 unlock without lock, 8 kept by a query", badlock);
  if (changed == 1) MC_CHECK(nlock == 1, "lock-once", "%d lock acquisitions for one change", nlock);
  u8 v[29];
  snap(v);
  MC_CHECK(!memcmp(v + 1, seen + 1, 28), "lock-change", "the map changed outside the lock");
}
static void verify(bool full) {
  u8 v[29];
  snap(v);
  for (int s = 1; s <= 28; s++) MC_CHECK(v[s] == model[s], "slot", "slot %d has channel %d, expected %d", s, v[s], model[s]);
  for (u16 f = 1; f <= 14; f++) {
    u16 a = 99, b = 99, n = 0, w[2] = {0, 0};
    for (u16 s = 1; s <= 28; s++)
      if (model[s] == f) {
        if (n < 2) w[n] = s;
        n++;
      }
    u8 r = glo_map_get_slot_id(f, &a, &b);
    MC_CHECK(r == (n > 2 ? 2 : n) && a == w[0] && b == w[1], "query", "channel %d: %d slots %d,%d, expected %d,%d of %d", f, r, a, b, w[0], w[1], n);
  }
  /* numbers that are no channel have no slots */
  static const u16 NOFCN[] = {15, 16, 100, 257, 264, 270, 0x101, 0x0E00, 0x7F08, 0xFF01, 0xFF0E};
  for (int i = 0; full && i < 11; i++) {
    u16 a = 99, b = 99;
    u8 r = glo_map_get_slot_id(NOFCN[i], &a, &b);
    MC_CHECK(r == 0 && a == 0 && b == 0, "query-invalid", "%d slots %d,%d for channel %d", r, a, b, NOFCN[i]);
  }
  if (full)
    for (u16 s = 1; s <= 28; s++)
      if (model[s]) {
        int k = model[s] - 8;
        double f1 = 1602e6 + k * 562500., f2 = 1246e6 + k * 437500.;
        MC_CHECK(mc_close(sid_to_carr_freq(construct_sid(CODE_GLO_L1OF, s)), f1, 1e-3, 0) &&
                 mc_close(sid_to_carr_freq(construct_sid(CODE_GLO_L2OF, s)), f2, 1e-3, 0), "freq", "carrier frequency of slot %d channel %d", s, k);
        MC_CHECK(mc_close(sid_to_lambda(construct_sid(CODE_GLO_L1OF, s)), 299792458. / f1, 1e-12, 0) &&
                 mc_close(sid_to_lambda(construct_sid(CODE_GLO_L2OF, s)), 299792458. / f2, 1e-12, 0), "lambda", "wavelength of slot %d channel %d", s, k);
      }
}
static void hist(void) {
  int D = mc_thorough() ? 5 : 4;
  int op[8];
  uint64_t tot = 1;
  for (int i = 0; i < D; i++) tot *= NOPS;
  for (uint64_t h = 0; h < tot; h++) {
    if (!mc_mine()) continue;
    uint64_t c = h;
    for (int i = 0; i < D; i++) op[i] = (int)(c % NOPS), c /= NOPS;
    MC_POINT("history of %d operations, base %d number %d", D, NOPS, (long long)h);
    reset();
    for (int i = 0; i < D; i++) {
      apply(op[i]);
      mc_calls(1);
      mc_depth(i + 1);
    }
    verify(h % 7 == 0);
    mc_history();
    mc_outcome(mc_hash(model, sizeof model));
  }
}
static void all(void) {
  /* every slot with every channel, alone and over a full map */
  for (u16 s = 1; s <= 28; s++)
    for (u16 f = 1; f <= 14; f++)
      for (int bg = 0; bg < 3; bg++) {
        if (!mc_mine()) continue;
        MC_POINT("slot %d channel %d background %d", s, f, bg);
        reset();
        if (bg)
          for (u16 i = 1; i <= 28; i++) {
            u16 g = bg == 1 ? 7 : (u16)(1 + i % 14);
            glo_map_set_slot_id(g, i);
            model[i] = (u8)g;
          }
        verify(true);
        glo_map_set_slot_id(f, s);
        model[s] = (u8)f;
        verify(true);
        glo_map_clear_slot_id(s);
        model[s] = 0;
        verify(true);
        /* an init replaces whatever callbacks were there, with none if it is given none */
        static void (*const CB[3])(void) = {NULL, on_lock, other}, (*const UB[3])(void) = {NULL, on_unlock, other};
        for (int was = 0; was < 9; was++)
          for (int now = 0; now < 9; now++) {
            int a = now % 3, b = now / 3;
            memset(seen, 0, sizeof seen);
            snap(seen);
            glo_map_init(CB[was % 3], UB[was / 3]);
            glo_map_init(CB[a], UB[b]);
            held = b == 1 && a != 1;
            nlock = nother = badlock = 0;
            glo_map_set_slot_id(f, s);
            model[s] = (u8)f;
            MC_CHECK(nlock == (a == 1) && nother == (a == 2) + (b == 2) && held == (a == 1 && b != 1), "reinit",
                     "after init %d and init %d: %d locks, held %d, %d other calls", was, now, nlock, held, nother);
            MC_CHECK(a != 1 || b != 1 || !badlock, "lock", "lock discipline violated (%d)", badlock);
            held = 0;
          }
        glo_map_init(NULL, NULL);
        verify(false);
        glo_map_fill_dummy_data();
        for (u16 i = 1; i <= 28; i++) MC_CHECK(glo_map_valid(construct_sid(CODE_GLO_L1P, i)), "dummy", "slot %d is not valid after filling", i);
        glo_map_clear_all();
        memset(model, 0, sizeof model);
        verify(false);
        mc_calls(8);
        mc_history();
      }
  /* every 16 bit pair with one of the two out of range is ignored */
  for (int x = 0; x < 65536; x++) {
    if (!mc_mine()) continue;
    MC_POINT("out of range value %d", x);
    MC_CHECK(glo_slot_id_is_valid((u16)x) == (x >= 1 && x <= 28), "slot-range", "slot %d said to be %s", x, glo_slot_id_is_valid((u16)x) ? "valid" : "invalid");
    MC_CHECK(glo_fcn_is_valid((u16)x) == (x >= 1 && x <= 14), "channel-range", "channel %d said to be %s", x, glo_fcn_is_valid((u16)x) ? "valid" : "invalid");
    reset();
    glo_map_set_slot_id(3, 5);
    model[5] = 3;
    if (x < 1 || x > 28) glo_map_set_slot_id(7, (u16)x);
    if (x < 1 || x > 14) {
      glo_map_set_slot_id((u16)x, 5);
      glo_map_set_slot_id((u16)x, 9);
    }
    verify(false);
    mc_calls(3);
  }
}
MC_SPACES({"history", "every history of depth 4 (5) over 22 operations: 9 settings, 3 clears, clear all, 9 out-of-range settings", hist, 0},
          {"slots", "every slot x channel over empty, constant and cyclic maps; every 16 bit out-of-range slot and channel", all, 0})
