// D23: a generic document enforces its state and is otherwise transparent.
#include "d23.h"
using namespace d23;

static void run(Src& s) {
  Opt o; o.negzero = false; o.depth = 2; o.width = 4; o.big = s.chance(1, 20); o.wide = s.chance(1, 20); o.bytes = false;
  if (s.draw(3) == 2) { s.label("dart::unsafe_packet"); run_unsafe(s, o); }
  else { s.label("dart::packet"); history<std::shared_ptr>(s, o); }
}


eng::Prop eng::prop {
  "D23",
  "random histories over a pool of generic documents in either state (dart::packet, dart::unsafe_packet): changing, finalizing and lifting by every spelling, conversions between the generic, mutable, immutable, viewing and typed forms "
  "from lasting and expiring handles, assignments, taking parts out of expiring handles, raw bytes, and 46 changes that a finalized document must refuse with the state error; value and state of every document and argument are compared with the model after each step, "
  "and every way of reading (about 60) gives the same result or exception class on the generic document as on the specific one. Non-trivial: a change was refused and the state or form changed more than once.",
  run, 8000, 200000,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; } } reg_; }
