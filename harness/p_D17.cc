// D17: values obtained from a document stay valid exactly as long as they must.
#include "d17.h"
using namespace d17;

static void run(Src& s) {
  Opt o; o.negzero = false; o.depth = 3; o.width = 4; o.big = s.chance(1, 40); o.wide = false; o.bytes = false;
  if (s.draw(3) == 2) { s.label("dart::unsafe_packet"); run_unsafe(s, o); }
  else { s.label("dart::packet"); history<std::shared_ptr>(s, o); }
}


eng::Prop eng::prop {
  "D17",
  "random histories of handles (generic, mutable, immutable and typed values, iterators, byte handles) onto documents in either state: copying, moving, assigning, swapping, taking parts, keys, views' owners, iterators and raw bytes, changing, finalizing, lifting, and destroying in any order; "
  "after each step every remaining handle must read its model value, lent text and bytes must be unchanged while anything owns them, each reference count must equal the number of owners in a model graph of shared storage, bytes given to the library must be released once, with their last owner, "
  "and destroying a handle must release memory exactly when the model says storage ends. Non-trivial: at least two handles were destroyed while others to the same storage stayed, and two kinds of derived handle or change occurred.",
  run, 8000, 300000,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; } } reg_; }
