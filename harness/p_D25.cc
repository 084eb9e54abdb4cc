// D25: the choice of reference counter never changes document semantics.
#include "d25.h"
using namespace d25;

Audit& d25::audit() { static Audit a; return a; }

static void run(Src& s) {
  Opt o; o.negzero = false; o.depth = 3; o.width = 5; o.big = s.chance(1, 20); o.wide = s.chance(1, 10);
  auto clean = [](char const* what) {
    CHECK(audit().handles == 0, std::string(what) + ": " + std::to_string(audit().handles) + " handles of the user's counter were not destroyed");
    CHECK(audit().blocks == 0 && audit().owned.empty(), std::string(what) + ": " + std::to_string(audit().blocks) + " resources of the user's counter were not released");
  };
  Counter* all[] = {&shared, &uns, &skinny, &track, &obt};
  switch (s.weigh({4, 2, 1})) {
    case 0: {
      auto snap = s;
      std::string first;
      for (auto* c : all) {
        s = snap;
        auto t = c->history(s, o);
        if (c == all[0]) first = t;
        else {
          size_t at = std::mismatch(t.begin(), t.begin() + std::min(t.size(), first.size()), first.begin()).first - t.begin();
          CHECK(t == first, std::string("the same history shows ") + eng::quote(t.substr(at)) + " over " + c->name + " and " + eng::quote(first.substr(at)) + " over std::shared_ptr");
        }
        clean("history");
      }
      s.label("history over every counter");
      break;
    }
    case 1: {
      Val v = s.chance(1, 4) ? gen_val(s, o) : gen_obj(s, o), w = s.flip() ? v : mutate(s, v, o);
      NOTE("value " + show(v)); NOTE("against " + show(w));
      label_val(s, v);
      if (v.nodes() > 2) s.nontrivial();
      all[s.draw(5)]->pairs(s, v, w);
      clean("conversion");
      break;
    }
    default: {
      Val v = s.chance(1, 3) ? gen_val(s, o) : gen_obj(s, o);
      NOTE("value " + show(v));
      if (v.nodes() > 2) s.nontrivial();
      void (*const views[])(Src&, Val const&) {v_shared, v_uns, v_skinny, v_track, v_obt};
      views[s.draw(5)](s, v);
      clean("views");
    }
  }
}


eng::Prop eng::prop {
  "D25",
  "random histories (making, copying, moving, mutating, finalizing, lifting, extracting, assigning, swapping, JSON, bytes, typed handles, destruction) run over documents of five reference counters "
  "(std::shared_ptr, unsafe_ptr, skinny_ptr, a user's counter with the shared_ptr interface and one known only through the traits), each against the model and against the others, including reference counts, JSON and bytes; "
  "conversions and comparisons between every pair of counters and forms; views and the owners made from them. The user's counters audit every acquisition, move and release. "
  "Non-trivial: every history, and conversions or views of documents of more than two values.",
  run, 3000, 80000,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; } } reg_; }
