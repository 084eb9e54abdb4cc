// D01: finalizing and definalizing never change a document's value.
#include "dartlib.h"
using namespace dl;

static void hops(Src& s, Val const& want, dart::packet p) {
  // A random walk over forms and value types; the value must never change.
  size_t n = 1 + s.draw(6);
  for (size_t i = 0; i < n; i++) {
    auto before = p;
    bool obj = want.t == Val::Obj;
    switch (s.draw(8)) {
      case 0: if (obj || p.is_finalized()) { NOTE("finalize"); p.finalize(); CHECK(p.is_finalized(), "finalize"); } break;
      case 1: NOTE("definalize"); p.definalize(); CHECK(!p.is_finalized(), "definalize"); break;
      case 2: if (obj || p.is_finalized()) { NOTE("lower"); p = dart::packet(p).lower(); CHECK(p.is_finalized(), "lower"); } break;
      case 3: NOTE("lift"); p = dart::packet(p).lift(); CHECK(!p.is_finalized(), "lift"); break;
      case 4: {
        NOTE("through heap");
        dart::heap h = static_cast<dart::heap>(p.is_finalized() ? dart::packet(p).definalize() : p);
        SAME(h, want, "packet to heap");
        if (obj) { dart::buffer b = h.finalize(); SAME(b, want, "heap.finalize()"); p = dart::packet(b); SAME(h, want, "finalize leaves the heap alone"); }
        else p = dart::packet(h);
        break;
      }
      case 5: {
        if (!p.is_finalized()) break;
        NOTE("through buffer");
        dart::buffer b = static_cast<dart::buffer>(p);
        SAME(b, want, "packet to buffer");
        dart::heap h = b.definalize();
        SAME(h, want, "buffer.definalize()");
        SAME(b, want, "definalize leaves the buffer alone");
        p = s.flip() ? dart::packet(h) : dart::packet(b.lift());
        break;
      }
      case 6: {
        if (!p.is_finalized()) break;
        NOTE("heap constructed from buffer");
        dart::buffer b = static_cast<dart::buffer>(p);
        dart::heap h {b};
        SAME(h, want, "heap(buffer)");
        p = dart::packet(h);
        break;
      }
      default: {
        if (!obj) break;
        NOTE("buffer constructed from heap");
        auto h = static_cast<dart::heap>(dart::packet(p).definalize());
        dart::buffer b {h};
        SAME(b, want, "buffer(heap)");
        SAME(b.definalize().lower(), want, "definalize().lower()");
        p = dart::packet(b);
      }
    }
    SAME(p, want, "after conversion");
    SAME(before, want, "the copy taken before the conversion");
  }
}

static void run(Src& s) {
  Opt o; o.nonfinite = true;
  o.depth = 1 + s.draw(4);
  Val v = s.draw(5) == 4 ? gen_val(s, o) : gen_obj(s, o);
  if (s.draw(25) == 24) { // a deep chain around it
    size_t n = s.draw(120);
    s.label("deep chain");
    for (size_t i = 0; i < n; i++) v = s.flip() ? Val::arr({v, Val::boolean(true)}) : Val::obj({{"k", v}, {"n", Val::integer(i * 77)}});
    if (v.t != Val::Obj) v = Val::obj({{"r", v}});
  }
  NOTE("document " + show(v, 800));
  label_val(s, v);
  if (v.is_agg() && v.size() >= 1) s.nontrivial();

  auto h = build_heap(v, &s);
  SAME(h, v, "building the mutable form");
  if (v.t == Val::Obj) {
    auto b = build_buffer(v, &s);
    SAME(b, v, "building the immutable form");
    CHECK(b.is_finalized() && !h.is_finalized(), "finalization state");
    SAME(h.lower(), v, "heap.lower()");
    SAME(h, v, "the original after lower()");
    SAME(b.lift(), v, "buffer.lift()");
    hops(s, v, dart::packet(b));
  } else s.label("root: not an object");
  auto sub = build_subbuffer(v, &s);
  SAME(sub, v, "as part of an immutable document");
  SAME(sub.definalize(), v, "definalizing a part of an immutable document");
  if (s.flip()) hops(s, v, dart::packet(sub)); else hops(s, v, dart::packet(h));
}

static void once() {
  // Every width boundary of every scalar kind, at every alignment.
  std::vector<Val> vals;
  for (int sh = 0; sh < 64; sh++) for (int d = -2; d <= 2; d++) {
    vals.push_back(Val::integer((int64_t)((1ull << sh) + d)));
    vals.push_back(Val::integer((int64_t)(0 - (1ull << sh) + d)));
    vals.push_back(Val::dec((double)(1ull << sh) + d * 0.5));
  }
  for (auto n : {0, 1, 2, 7, 8, 15, 16, 22, 23, 24, 255, 256, 65534, 65535, 65536, 65537}) vals.push_back(Val::str(std::string(n, 'q')));
  for (size_t i = 0; i < vals.size(); i++)
    for (int pad = 0; pad < 4; pad++) {
      Val v = Val::obj({{std::string(1 + pad, 'a'), Val::boolean(true)}, {std::string(5 + pad, 'b'), vals[i]}, {std::string(30, 'c'), Val::arr({Val::null(), vals[i], Val::str("s"), vals[i]})}});
      auto h = build_heap(v);
      auto b = h.lower();
      SAME(b, v, "boundary");
      SAME(b.lift(), v, "boundary");
    }
}

namespace eng {
  Prop prop = {
    "D01", "random document trees (all scalar widths, string/key length boundaries, wide and deep aggregates) taken through a random "
    "walk of finalize/definalize/lower/lift/constructor conversions and compared to the tree after each step; non-trivial: the root is a non-empty aggregate",
    run, 20000, 400000, 10, 240
  };
}
static struct reg { reg() { eng::prop.once = once; } } r_;
