// Crossing between the C and the C++ interface (dart/api_swap.h) and back.
#include "dartlib.h"
#include <dart/api_swap.h>
#include "capi.h"

namespace {
  using capi::World; using capi::H;
  using mdl::Val;

  void change(dart::buffer&) {}
  void change(dart::basic_buffer<dart::unsafe_ptr>&) {}
  template <class D> void change(D& doc) {
    if (doc.is_finalized()) return;
    if (doc.is_object()) doc.add_field("changed in C++", true);
    else if (doc.is_array()) doc.push_back(true);
  }

  template <class D, class C> void both(World& w, H& h, C* c) {
    auto& s = w.s;
    bool counted = h.m.is_agg(); auto rc = dart_refcount(h.p);
    D doc;
    if (s.flip()) dart::unsafe_api_swap(doc, c); // brought over once before
    dart::unsafe_api_swap(doc, c);
    SAME(doc, h.m, "a C handle brought to C++");
    CHECK(doc.is_finalized() == h.fin, "a C handle brought to C++ keeps its state");
    if (counted) CHECK(doc.refcount() == rc + 1 && dart_refcount(h.p) == rc + 1, "bringing a handle to C++ makes one more owner");
    H g = w.fresh(h.fam, h.rc); g.m = h.m; g.fin = h.fin;
    auto* to = (C*)g.p; memset(g.p, 0x5a, capi::famsize(h.fam));
    bool copied = s.flip();
    if (copied) dart::unsafe_api_swap(to, static_cast<D const&>(doc)); else dart::unsafe_api_swap(to, std::move(doc));
    CHECK(((dart_type_id_t*)g.p)->p_id == (dart_packet_type_t)h.fam && ((dart_type_id_t*)g.p)->rc_id == h.rc, "a C handle made from a document names its family and counter");
    if (counted) CHECK(dart_refcount(g.p) == rc + 1 + copied, copied ? "bringing a document to C makes one more owner" : "moving a document to C makes no more owners");
    if (copied) { SAME(doc, h.m, "a document brought to C"); change(doc); }
    w.verify(g, "coming from C++"); w.verify(h, "going to C++");
    w.oks++; s.label("crossing to C++");
    if (w.pool.size() < 7 && s.flip()) w.add(g); else { w.drop(g); }
  }

  template <class D, class C> void refused(World& w, H& h, C* c) {
    D doc;
    THROWS(dart::type_error, dart::unsafe_api_swap(doc, c), "bringing a C handle of another counter to C++");
    CHECK(doc.is_null(), "a refused crossing leaves the document");
    w.verify(h, "refused crossing"); w.s.label("refused crossing");
  }
}

void capi_swap(World& w) {
  H& h = w.any(); auto& s = w.s; bool safe = h.rc == DART_RC_SAFE, wrong = s.draw(4) == 3;
  using uh = dart::basic_heap<dart::unsafe_ptr>; using ub = dart::basic_buffer<dart::unsafe_ptr>; using up = dart::basic_packet<dart::unsafe_ptr>;
  NOTE(std::string("crossing of a ") + capi::famname(h.fam) + (wrong ? " with the wrong counter" : ""));
#define GO(S, U, c) do { if (safe) { if (wrong) refused<U>(w, h, c); else both<S>(w, h, c); } else { if (wrong) refused<S>(w, h, c); else both<U>(w, h, c); } } while (0)
  switch (h.fam) {
    case DART_HEAP: GO(dart::heap, uh, h.h()); break;
    case DART_BUFFER: GO(dart::buffer, ub, h.b()); break;
    default: GO(dart::packet, up, h.q());
  }
}
