// D13: equality is structural and representation independent.
#include "ops.h"
#include <cmath>
#include <functional>
using namespace dl;

namespace {
  // One document held in every form it can take.
  struct Forms {
    dart::heap h; dart::buffer b; dart::packet pm, pf;
    static Forms make(Src& s, Val const& v) {
      Forms f;
      f.h = build_heap(v, &s); f.b = build_subbuffer(v, &s); f.pm = build_packet(v, &s); f.pf = dart::packet(build_subbuffer(v, &s));
      return f;
    }
  };

#define REL(x, y, eq, msg) do { bool e_ = (x) == (y), r_ = (y) == (x), n_ = (x) != (y), m_ = (y) != (x); \
    CHECK(e_ == (eq), std::string(msg) + ((eq) ? ": equal documents compare unequal" : ": different documents compare equal")); \
    CHECK(r_ == e_, std::string(msg) + ": equality is not symmetric"); CHECK(n_ == !e_ && m_ == !r_, std::string(msg) + ": inequality is not the negation"); } while (0)

  template <class A>
  void against(A const& a, Forms const& f, bool eq, std::string const& name) {
    REL(a, f.h, eq, name + " against heap");
    REL(a, f.b, eq, name + " against buffer");
    REL(a, f.pm, eq, name + " against packet");
    REL(a, f.pf, eq, name + " against finalized packet");
  }

  template <class D> struct wrap {
    template <class F> static void each(D const& d, Val::T t, F&& f) {
      switch (t) {
        case Val::Obj: f(typename D::object {d}); break;
        case Val::Arr: f(typename D::array {d}); break;
        case Val::Str: f(typename D::string {d}); break;
        case Val::Int: case Val::Dec: f(typename D::number {d}); break;
        case Val::Bool: f(typename D::flag {d}); break;
        default: f(typename D::null {d}); break;
      }
    }
  };

  // Natives made from v, against documents holding w.
  template <class D>
  void natives(D const& d, Val const& w, Val const& v, std::string const& form) {
    switch (v.t) {
      case Val::Null: { bool eq = w.t == Val::Null; REL(d, nullptr, eq, form + " against nullptr"); break; }
      case Val::Bool: { bool eq = w.t == Val::Bool && w.b == v.b; REL(d, v.b, eq, form + " against bool"); break; }
      case Val::Int: {
        bool exact = v.i > -(1ll << 53) && v.i < (1ll << 53);
        if (w.t == Val::Dec && !exact) break;
        bool eq = w.t == Val::Int ? w.i == v.i : w.t == Val::Dec ? w.d == (double)v.i : false;
        REL(d, v.i, eq, form + " against int64");
        if (v.i == (int)v.i) REL(d, (int)v.i, eq, form + " against int");
        if (v.i == (int16_t)v.i) REL(d, (int16_t)v.i, eq, form + " against int16");
        if (v.i == (int8_t)v.i) REL(d, (signed char)v.i, eq, form + " against signed char");
        if (v.i >= 0) REL(d, (uint64_t)v.i, eq, form + " against uint64");
        if (v.i >= 0 && v.i <= 0xffffffff) REL(d, (uint32_t)v.i, eq, form + " against uint32");
        if (exact) { bool eqd = w.t == Val::Int ? w.i == v.i : w.t == Val::Dec && w.d == (double)v.i; REL(d, (double)v.i, eqd, form + " against double"); }
        break;
      }
      case Val::Dec: {
        if (w.t == Val::Int && (std::fabs(v.d) > 9e15 || w.i > (1ll << 53) || w.i < -(1ll << 53))) break;
        bool eq = w.t == Val::Dec ? w.d == v.d : w.t == Val::Int ? (double)w.i == v.d : false;
        REL(d, v.d, eq, form + " against double");
        if (std::fabs(v.d) <= 3.4e38 && (double)(float)v.d == v.d) REL(d, (float)v.d, eq, form + " against float");
        break;
      }
      case Val::Str: {
        bool eq = w.t == Val::Str && w.s == v.s;
        REL(d, v.s, eq, form + " against std::string"); REL(d, sv(v.s), eq, form + " against string_view");
        if (v.s.find('\0') == std::string::npos) REL(d, v.s.c_str(), eq, form + " against char const*");
        else { std::string cut = v.s.c_str(); bool ec = w.t == Val::Str && w.s == cut; REL(d, cut.c_str(), ec, form + " against a shorter char const*"); }
        break;
      }
      default: break;
    }
  }

  // w is v with the contents of equal documents rebuilt in another order and by other routes.
  void run(Src& s) {
    Opt o; o.depth = s.draw(4); o.negzero = false; o.big = s.draw(30) == 29; o.wide = s.draw(6) == 5;
    Val v = gen_val(s, o), w;
    switch (s.weigh({4, 5, 1, 1})) {
      case 0: w = v; s.label("rebuilt"); break;
      case 1: w = mutate(s, v, o); s.label("one edit apart"); break;
      case 2: w = mutate(s, mutate(s, v, o), o); s.label("two edits apart"); break;
      default: w = gen_val(s, o); s.label("unrelated"); break;
    }
    bool eq = v == w;
    s.label(eq ? "equal" : "different");
    s.label(tname(v.t));
    if (v.is_agg() && v.size() > 1) s.nontrivial();
    NOTE("left  " + show(v, 400)); NOTE("right " + show(w, 400));

    Forms a = Forms::make(s, v), b = Forms::make(s, w);
    against(a.h, b, eq, "heap"); against(a.b, b, eq, "buffer"); against(a.pm, b, eq, "packet"); against(a.pf, b, eq, "finalized packet");
    against(a.h, a, true, "own heap"); against(a.b, a, true, "own buffer"); against(a.pm, a, true, "own packet"); against(a.pf, a, true, "own finalized packet");
    // A handle to the same storage, and one that was shared before being edited away and back.
    { auto c = a.h; REL(c, a.h, true, "a shared copy"); REL(c, b.h, eq, "a shared copy against the other"); }
    { auto c = a.b; REL(c, a.b, true, "a shared buffer"); REL(c, b.b, eq, "a shared buffer against the other"); }
    if (v.t == Val::Arr) { auto c = a.h; c.push_back(1); REL(c, a.h, false, "after push_back"); c.pop_back(); REL(c, a.h, true, "after push_back and pop_back"); c.reserve(50); REL(c, b.b, eq, "after reserve"); }
    if (v.t == Val::Obj) {
      std::string k = "fresh"; while (v.get(k)) k += "!";
      auto c = a.h; c.add_field(sv(k), nullptr); REL(c, a.h, false, "after adding a null"); REL(c, a.b, false, "after adding a null, against buffer"); REL(c.lower(), a.b, false, "after adding a null, finalized");
      c.erase(sv(k)); REL(c, a.h, true, "after adding and erasing"); REL(c, b.pf, eq, "after adding and erasing");
      if (v.size()) {
        // same size, a null-valued key renamed
        auto ks = keys_of(v); auto old = s.pick(ks); Val m = v; m.o.erase(old); m.o[k] = *v.get(old);
        auto f = Forms::make(s, m); against(f.h, a, false, "one key renamed: heap"); against(f.b, a, false, "one key renamed: buffer");
        m.o.erase(k); m.o[k] = Val::null(); Val n = v; n.o[old] = Val::null();
        auto g = Forms::make(s, m), g2 = Forms::make(s, n); against(g.h, g2, false, "null under another key: heap"); against(g.b, g2, false, "null under another key: buffer"); against(g.pm, g2, false, "null under another key: packet"); against(g.pf, g2, false, "null under another key: finalized packet");
      }
    }
    // Views
    { dart::heap::view hv = a.h; against(hv, b, eq, "heap view"); dart::buffer::view bv = a.b; against(bv, b, eq, "buffer view"); dart::packet::view pv = a.pm; against(pv, b, eq, "packet view"); dart::packet::view qv = a.pf; against(qv, b, eq, "finalized packet view"); REL(hv, bv, true, "views"); }
    // Typed
    wrap<dart::heap>::each(a.h, v.t, [&](auto const& t) { against(t, b, eq, "typed heap"); wrap<dart::buffer>::each(b.b, w.t, [&](auto const& u) { REL(t, u, eq, "typed heap against typed buffer"); }); natives(t, v, w, "typed heap"); });
    wrap<dart::buffer>::each(a.b, v.t, [&](auto const& t) { against(t, b, eq, "typed buffer"); wrap<dart::packet>::each(b.pm, w.t, [&](auto const& u) { REL(t, u, eq, "typed buffer against typed packet"); }); natives(t, v, w, "typed buffer"); });
    wrap<dart::packet>::each(a.pf, v.t, [&](auto const& t) { against(t, b, eq, "typed packet"); natives(t, v, w, "typed packet"); });
    // Native values
    natives(a.h, v, w, "heap"); natives(a.b, v, w, "buffer"); natives(a.pm, v, w, "packet"); natives(a.pf, v, w, "finalized packet");
    natives(a.h, v, v, "heap"); natives(a.b, v, v, "buffer"); natives(a.pm, v, v, "packet"); natives(a.pf, v, v, "finalized packet");
    { Val x = gen_scalar(s, o); natives(a.h, v, x, "heap"); natives(a.b, v, x, "buffer"); natives(a.pf, v, x, "finalized packet"); }
    // Nested sub-values
    if (v.t == Val::Arr && w.t == Val::Arr) for (size_t i = 0; i < v.size() && i < w.size(); i++) { bool e = v.a[i] == w.a[i]; REL(a.h[i], b.b[i], e, "elements"); REL(a.b[i], b.b[i], e, "buffer elements"); REL(a.h[i], b.h[i], e, "heap elements"); REL(a.pm[i], b.pf[i], e, "packet elements"); }
    if (v.t == Val::Obj && w.t == Val::Obj) for (auto& p : v.o) if (auto x = w.get(p.first)) { bool e = p.second == *x; REL(a.h[sv(p.first)], b.b[sv(p.first)], e, "fields"); REL(a.b[sv(p.first)], b.b[sv(p.first)], e, "buffer fields"); REL(a.h[sv(p.first)], b.h[sv(p.first)], e, "heap fields"); REL(a.pm[sv(p.first)], b.pf[sv(p.first)], e, "packet fields"); }
    // Nothing was disturbed.
    SAME(a.h, v, "heap after comparisons"); SAME(a.b, v, "buffer after comparisons"); SAME(b.pm, w, "packet after comparisons");
  }
}

namespace eng {
  Prop prop = {
    "D13", "pairs of random documents (equal and rebuilt by other routes, one or two edits apart, unrelated), each held as heap, buffer, mutable and finalized packet, view and typed wrapper: every pair of forms, in both orders, ==, != against "
    "structural equality of the models; native integers, decimals, strings, flags and null in several widths; documents edited away and back; null-valued keys renamed; non-trivial: an aggregate of two or more elements",
    run, 1500, 50000
  };
}
