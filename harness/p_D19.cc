// D19: the C interface against the model.
#include "capi.h"
using namespace capi;

void capi_swap(World& w);

static void run(Src& s) {
  World w (s, 0);
  w.construct(); if (s.flip()) w.construct();
  size_t most = w.pool.size();
  for (int n = 6 + s.draw(35); n > 0; n--) { if (s.draw(14) == 13 && !w.pool.empty()) capi_swap(w); else w.step(); if (w.pool.size() > most) most = w.pool.size(); }
  if (w.oks >= 10 && most >= 2) s.nontrivial();
  w.finish();
}

namespace eng {
  Prop prop { "D19",
    "A case is a history of 6 to 40 calls over a pool of C handles (heap, buffer and generic, both counter types): construction incl. format strings, typed and by-handle insertion, reading, iteration, copies, moves, transitions, bytes, JSON, crossing to the C++ interface and back; every handle is read back through the C functions and compared with its model. Non-trivial: at least ten successful calls over at least two handles.",
    run, 3000, 150000, 12, 240, true };
}
