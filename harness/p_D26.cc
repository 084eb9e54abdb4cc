// D26: the bundled support types match their standard counterparts.
#include "d26.h"

static void run(Src& s) {
  switch (s.weigh({4, 3, 4, 3, 1})) {
    case 0: s.label("string view"); return d26_sv(s);
    case 1: s.label("optional"); return d26_opt(s);
    case 2: s.label("pointers"); return d26_ptr(s);
    case 3: s.label("byte order"); return d26_ord(s);
    default: s.label("variant"); return d26_var(s);
  }
}

namespace eng {
  Prop prop = {
    "D26", "a random operation, or history of operations, on a bundled type performed side by side on the standard type (string views over four character types with every search at every position; "
    "optionals and variants of an element whose copies, moves and assignments fail at a chosen point; pools of reference counted pointers with cycles broken in every order, custom deleters and failing allocations; byte "
    "ordered numbers of every width against native arithmetic and the byte layout); non-trivial: at least one operation on non-empty operands",
    run, 25000, 3000000
  };
}
void d26_probe_unsafe(); void d26_probe_skinny();
static struct reg { reg() { eng::prop.once = d26_once; eng::prop.leaks = true; eng::prop.known = {
    {"unsafe-second-base", "dart::unsafe_ptr<Derived> converted to unsafe_ptr of a base that is not the first one points at the first base", d26_probe_unsafe},
    {"skinny-second-base", "dart::skinny_ptr<Derived> converted to skinny_ptr of a base that is not the first one points at the first base", d26_probe_skinny}}; eng::prop.assumptions = {"libstdc++'s types are the standard's", "the bundled types are compared as C++17 code, where the library would by default use the standard's own"}; } } r_;
