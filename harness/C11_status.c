/* C11: subsystem status report registry against an ordered list.
 * MC-flavours: san opt
 * MC-libonly: subsystem_status_report.c
 * MC-END
 */
#include "mc.h"
#include <swiftnav/subsystem_status_report.h>

typedef swiftnav_subsystem_status_report_callback_node_t node_t;
#define NN 4
static node_t node[NN];
static int ctxobj[NN * 2];

/* model: registered nodes in order, with callback variant and context */
typedef struct {
  int n;
  int id[NN], cb[NN], cx[NN];
} model_t;
static model_t M;

static void m_remove(int id) {
  for (int i = 0; i < M.n; i++)
    if (M.id[i] == id) {
      for (int j = i + 1; j < M.n; j++) M.id[j - 1] = M.id[j], M.cb[j - 1] = M.cb[j], M.cx[j - 1] = M.cx[j];
      M.n--;
      return;
    }
}
static void m_register(int id, int cb, int cx) {
  for (int i = 0; i < M.n; i++)
    if (M.id[i] == id) {
      M.cb[i] = cb;
      M.cx[i] = cx;
      return;
    }
  M.id[M.n] = id;
  M.cb[M.n] = cb;
  M.cx[M.n] = cx;
  M.n++;
}

/* what was delivered */
static struct {
  int cb;
  void *cx;
  unsigned comp, gen, spec;
} got[64];
static int ngot;
static int act_on, act_op, act_arg; /* during delivery to context act_on run an action once */
static int acted;
static void do_action(void);
static void deliver(int cb, uint16_t c, uint8_t g, uint8_t s, void *cx) {
  if (ngot < 64) {
    got[ngot].cb = cb;
    got[ngot].cx = cx;
    got[ngot].comp = c;
    got[ngot].gen = g;
    got[ngot].spec = s;
  }
  ngot++;
  if (ngot > 40) mc_fail("endless", "a report is delivered without end");
  if (act_on >= 0 && cx == &ctxobj[act_on] && !acted) {
    acted = 1;
    do_action();
  }
}
static void cb0(uint16_t c, uint8_t g, uint8_t s, void *x) { deliver(0, c, g, s, x); }
static void cb1(uint16_t c, uint8_t g, uint8_t s, void *x) { deliver(1, c, g, s, x); }
static pfn_subsystem_status_report cbs[2] = {cb0, cb1};

static void reg(int id, int cb) {
  /* the context depends on node and variant so that a stale one is noticed */
  swiftnav_subsystem_status_report_callback_register(&node[id], cbs[cb], &ctxobj[id * 2 + cb]);
  m_register(id, cb, id * 2 + cb);
}
static void do_action(void) {
  switch (act_op) {
    case 0: swiftnav_subsystem_status_report_callback_deregister(&node[act_arg]); m_remove(act_arg); break;
    case 1: reg(act_arg, 0); break;
    case 2: reg(act_arg, 1); break;
    case 3: swiftnav_subsystem_status_report_callback_register(&node[act_arg], NULL, NULL); m_remove(act_arg); break;
    case 4: swiftnav_subsystem_status_report_callback_deregister(NULL); break;
  }
}

enum { REG0, REG1, REGNULL, DEREG };
#define NOPS(n) ((n) * 4 + 3)
static void send_check(uint16_t c, uint8_t g, uint8_t s) {
  ngot = 0;
  swiftnav_send_subsystem_status_report(c, g, s);
  MC_CHECK(ngot == M.n, "deliveries", "%d deliveries for %d listeners", ngot, M.n);
  for (int i = 0; i < ngot && i < M.n; i++) {
    MC_CHECK(got[i].cb == M.cb[i] && got[i].cx == &ctxobj[M.cx[i]], "listener", "delivery %d went to the wrong listener", i);
    MC_CHECK(got[i].comp == c && got[i].gen == g && got[i].spec == s, "values", "delivery %d has other values", i);
  }
  mc_calls(1);
}
static void apply(int nn, int op) {
  if (op < nn * 4) {
    int id = op / 4;
    switch (op % 4) {
      case REG0: reg(id, 0); break;
      case REG1: reg(id, 1); break;
      case REGNULL:
        swiftnav_subsystem_status_report_callback_register(&node[id], NULL, &ctxobj[id]);
        m_remove(id);
        break;
      case DEREG:
        swiftnav_subsystem_status_report_callback_deregister(&node[id]);
        m_remove(id);
        break;
    }
  } else if (op == nn * 4) {
    swiftnav_subsystem_status_report_callback_reset();
    M.n = 0;
  } else if (op == nn * 4 + 1) {
    swiftnav_subsystem_status_report_callback_deregister(NULL);
  }
  mc_calls(1);
}
static void start(void) {
  swiftnav_subsystem_status_report_callback_reset();
  memset(node, 0xA5, sizeof node); /* nodes need no initialisation */
  M.n = 0;
  act_on = -1;
}

static void histories(int nn, int depth) {
  int nops = NOPS(nn) - 1;
  uint64_t tot = 1;
  for (int i = 0; i < depth; i++) tot *= (uint64_t)nops;
  for (uint64_t h = 0; h < tot; h++) {
    if ((h % (uint64_t)nops) == 0 && !mc_mine()) {
      h += (uint64_t)nops - 1;
      continue;
    }
    MC_POINT("listeners=%d depth=%d history=%x", nn, depth, (long long)h);
    start();
    uint64_t x = h;
    for (int i = 0; i < depth; i++) {
      apply(nn, (int)(x % (uint64_t)nops));
      x /= (uint64_t)nops;
      send_check((uint16_t)(0x1234 + i), (uint8_t)(0x80 | i), (uint8_t)(0xFF - i));
    }
    mc_history();
    mc_depth(depth);
    uint64_t o = (uint64_t)M.n;
    for (int i = 0; i < M.n; i++) o = o * 16 + (uint64_t)M.cx[i];
    mc_outcome(o);
  }
}
static void flat(void) {
  histories(2, 5);
  histories(3, mc_thorough() ? 6 : 5);
  if (mc_thorough()) histories(4, 5);
}

/* one listener changes the registry from inside its callback */
static void reentrant(void) {
  for (int setup = 0; setup < 625; setup++) {
    /* order of registration: up to 4 nodes, digit = node+1 or 0 */
    int order[4], n = 0, x = setup, bad = 0, seen = 0;
    for (int i = 0; i < 4; i++, x /= 5)
      if (x % 5) {
        if (seen >> (x % 5) & 1) bad = 1;
        seen |= 1 << (x % 5);
        order[n++] = x % 5 - 1;
      }
    if (bad) continue;
    for (int who = 0; who < n; who++)
      for (int op = 0; op < 5; op++)
        for (int arg = 0; arg < NN; arg++) {
          if (!mc_mine()) continue;
          MC_POINT("reentrant setup=%d actor=%d op=%d arg=%d", setup, order[who], op, arg);
          start();
          for (int i = 0; i < n; i++) reg(order[i], 0);
          model_t before = M;
          int where = -1;
          for (int i = 0; i < n; i++)
            if (order[i] == arg) where = i;
          act_on = order[who] * 2;
          act_op = op;
          act_arg = arg;
          acted = 0;
          ngot = 0;
          swiftnav_send_subsystem_status_report(0xBEEF, 1, 2);
          act_on = -1;
          /* every listener that was there all the time was reached once, in order */
          int k = 0;
          for (int i = 0; i < before.n; i++) {
            int cx = before.cx[i];
            bool removed = (op == 0 || op == 3) && where == i && i > who;
            int times = 0;
            for (int j = 0; j < ngot; j++)
              if (got[j].cx == &ctxobj[cx] || got[j].cx == &ctxobj[cx | 1]) times++;
            MC_CHECK(times == (removed ? 0 : 1), "reentrant-once", "listener %d was reached %d times", before.id[i], times);
            (void)k;
          }
          for (int j = 0; j < ngot; j++)
            MC_CHECK(got[j].comp == 0xBEEF && got[j].gen == 1 && got[j].spec == 2, "reentrant-values", "values changed");
          MC_CHECK(ngot <= before.n + 1, "reentrant-extra", "%d deliveries", ngot);
          /* afterwards the registry is what the model says */
          send_check(7, 8, 9);
          mc_calls(2);
          mc_history();
          mc_outcome((uint64_t)(ngot * 1000 + op * 100 + who * 10 + arg));
        }
  }
}
static void values(void) {
  for (uint32_t v = 0; v < 65536; v++) {
    if (!mc_mine()) continue;
    MC_POINT("values %x", v);
    start();
    reg(0, 0);
    reg(1, 1);
    send_check((uint16_t)v, (uint8_t)(v >> 8), (uint8_t)v);
    send_check((uint16_t)(v ^ 0xFFFF), (uint8_t)v, (uint8_t)(v >> 8));
    mc_history();
    mc_outcome(v);
  }
}
MC_SPACES({"histories", "every history of register (2 callbacks), register NULL, deregister, deregister NULL, reset over 2 and 3 (4) listeners to depth 5 (6), a report after every step", flat, 0},
          {"reentrant", "every registration order of up to 4 listeners x acting listener x action inside its callback x target", reentrant, 0},
          {"values", "all component values", values, 0})
