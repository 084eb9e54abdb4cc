// D24: a failed operation changes nothing and leaks nothing.
#include "d24.h"
using namespace d24;

static void run(Src& s) {
  Opt o; o.negzero = false; o.depth = 2; o.width = 4; o.big = s.chance(1, 40); o.wide = false; o.bytes = false;
  switch (s.weigh({4, 2, 3})) {
    case 0: s.label("dart::packet"); history<std::shared_ptr>(s, o); break;
    case 1: s.label("dart::unsafe_packet"); run_unsafe(s, o); break;
    default: s.label("C interface"); run_c(s, o);
  }
}


eng::Prop eng::prop {
  "D24",
  "random histories over generic documents in either state and over C handles; each operation (changes with every form of argument on shared and unshared documents, finalizing, lifting, conversions, JSON and YAML parsing, building, "
  "projecting, reading, casting to and from containers, bytes) is run with its first, second, ... allocation failing until it gets through; after each failure every document must hold its value and state, the retry must give the normal result, "
  "and at the end of the case nothing may remain allocated; calls with wrong arguments must fail and change nothing. Non-trivial: at least three faults were injected.",
  run, 4000, 120000,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; eng::prop.level = "fault_enumeration"; } } reg_; }
