// D20: misuse of the C interface.
#include "capi.h"
using namespace capi;

static void run(Src& s) {
  World w (s, 1);
  w.construct(); if (s.flip()) w.construct();
  size_t most = w.pool.size();
  for (int n = 6 + s.draw(35); n > 0; n--) { w.step(); if (w.pool.size() > most) most = w.pool.size(); }
  if (w.errors >= 3) s.nontrivial();
  w.finish();
}

namespace eng {
  Prop prop { "D20",
    "As D19, with at least a third of the calls wrong on purpose (wrong type, wrong state, out of range, mixed counters, malformed JSON, bytes and formats): each must give its error code and a fresh message and leave every handle as it was. Non-trivial: at least three failed calls.",
    run, 3000, 150000, 12, 240, true };
}
