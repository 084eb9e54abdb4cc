// D05: copies are independent values.
#include "ops.h"
using namespace dl;

// State changes only the generic type has.
static bool finalized(dart::heap const&) { return false; }
static bool finalized(dart::packet const& p) { return p.is_finalized(); }
static void refinalize(Src&, dart::heap&, Val const&) {}
static void refinalize(Src& s, dart::packet& p, Val const& m) {
  if (m.t != Val::Obj && !p.is_finalized()) return;
  if (p.is_finalized() || s.flip()) p.definalize(); else p.finalize();
}

// Mutation through a typed wrapper of the document, which is one more handle to it.
template <class P>
static void typed(Src& s, P& p, Val& m, P& out, Val& om) {
  om = m;
  if (m.t == Val::Obj) {
    typename P::object w {p};
    auto k = gen_key(s, Opt {}, keys_of(m));
    switch (s.draw(4)) {
      case 0: w.insert(sv(k), 7); om.o[k] = Val::integer(7); break;
      case 1: w.add_field(sv(k), "t"); om.o[k] = Val::str("t"); break;
      case 2: w.erase(sv(k)); om.o.erase(k); break;
      default: w.clear(); om.o.clear();
    }
    SAME(p, m, "changing a typed copy");
    out = w.dynamic();
  } else if (m.t == Val::Arr) {
    typename P::array w {p};
    switch (s.draw(6)) {
      case 0: w.push_back(7); om.a.push_back(Val::integer(7)); break;
      case 1: w.push_front("t"); om.a.insert(om.a.begin(), Val::str("t")); break;
      case 2: w.pop_back(); if (om.a.size()) om.a.pop_back(); break;
      case 3: w.resize(3, true); om.a.resize(3, Val::boolean(true)); break;
      case 4: w.reserve(30); break;
      default: w.clear(); om.a.clear();
    }
    SAME(p, m, "changing a typed copy");
    out = w.dynamic();
  } else out = p;
}

template <class P>
static void machine(Src& s) {
  Opt o; o.depth = 2; o.width = 3; o.wide = false; o.big = false;
  struct H { P p; Val m; };
  std::vector<H> pool;
  size_t np = 2 + s.draw(4);
  for (size_t i = 0; i < np; i++) {
    Val m = s.flip() ? gen_obj(s, o) : gen_arr(s, o);
    pool.push_back({conv<P>::mk(m, &s), m});
  }
  size_t n = 3 + s.draw(s.draw(4) == 3 ? 50 : 14);
  int shares = 0, changes = 0;
  for (size_t i = 0; i < n; i++) {
    size_t a = s.draw(np), b = s.draw(np);
    H& x = pool[a]; H& y = pool[b];
    switch (s.weigh({7, 3, 2, 1, 3, 3, 2, 2, 1, 2, 1})) {
      case 0: {
        if (finalized(x.p)) { x.p = P {x.p}; refinalize(s, x.p, x.m); }
        auto arg = [&]() -> std::pair<P, Val> {
          // The value stored is often another handle, the target itself or a part of it.
          if (s.draw(3) == 2) {
            auto& z = pool[s.draw(np)];
            if (z.m.nodes() < 60) { s.label(&z == &x ? "store:itself" : "store:another handle"); shares++; return {z.p, z.m}; }
          }
          auto v = gen_val(s, o); return {conv<P>::mk(v), v};
        };
        auto d = mutate_doc(s, x.p, x.m, o, arg);
        NOTE("h" + eng::num(a) + "." + d); changes++;
        break;
      }
      case 1: NOTE("h" + eng::num(a) + " = h" + eng::num(b)); s.label("copy assignment"); x.p = y.p; x.m = y.m; shares++; break;
      case 2: { NOTE("h" + eng::num(a) + " = copy of h" + eng::num(b)); P c {y.p}; Val cm = y.m; x.p = std::move(c); x.m = cm; shares++; s.label("copy and move"); break; }
      case 3: {
        if (a == b) break;
        NOTE("h" + eng::num(a) + " = move h" + eng::num(b)); s.label("move");
        x.p = std::move(y.p); x.m = y.m;
        y.m = gen_arr(s, o); y.p = conv<P>::mk(y.m);
        break;
      }
      case 4: { // take a part out
        if (y.m.size() == 0) break;
        s.label("extract"); shares++;
        if (y.m.t == Val::Obj) {
          auto k = s.pick(keys_of(y.m)); Val v = y.m.o[k];
          NOTE("h" + eng::num(a) + " = h" + eng::num(b) + "[" + eng::quote(k) + "]");
          P t;
          switch (s.draw(4)) { case 0: t = y.p[sv(k)]; break; case 1: t = y.p.get(sv(k)); break; case 2: t = *y.p.find(sv(k)); break; default: t = y.p.at(sv(k)); }
          x.p = t; x.m = v;
        } else if (y.m.t == Val::Arr) {
          auto k = s.draw(y.m.a.size()); Val v = y.m.a[k];
          NOTE("h" + eng::num(a) + " = h" + eng::num(b) + "[" + eng::num(k) + "]");
          P t;
          switch (s.draw(4)) { case 0: t = y.p[k]; break; case 1: t = y.p.get(k); break; case 2: { auto it = y.p.begin(); for (size_t j = 0; j < k; j++) ++it; t = *it; break; } default: t = y.p.values()[k]; }
          x.p = t; x.m = v;
        }
        break;
      }
      case 5: { // store one in another
        if (x.m.nodes() + y.m.nodes() > 120 || !x.m.is_agg()) break;
        if (finalized(x.p)) refinalize(s, x.p, x.m);
        NOTE("store h" + eng::num(b) + " in h" + eng::num(a)); shares++;
        s.label(a == b ? "store:itself" : "store:another handle");
        Val v = y.m;
        if (x.m.t == Val::Obj) {
          auto k = gen_key(s, o, keys_of(x.m));
          switch (s.draw(3)) { case 0: x.p.insert(sv(k), y.p); break; case 1: x.p.add_field(sv(k), y.p); break; default: { P t {y.p}; x.p.insert(sv(k), std::move(t)); } }
          x.m.o[k] = v;
        } else {
          switch (s.draw(3)) {
            case 0: x.p.push_back(y.p); x.m.a.push_back(v); break;
            case 1: x.p.push_front(y.p); x.m.a.insert(x.m.a.begin(), v); break;
            default: { auto k = s.draw(x.m.a.size() + 1); x.p.insert(k, y.p); x.m.a.insert(x.m.a.begin() + k, v); }
          }
        }
        break;
      }
      case 6: {
        if (finalized(x.p)) break;
        NOTE("typed copy of h" + eng::num(a) + " changed into h" + eng::num(b)); s.label("typed copy"); shares++; changes++;
        P out; Val om;
        typed(s, x.p, x.m, out, om);
        y.p = out; y.m = om;
        break;
      }
      case 7: { // through the other value type
        NOTE("h" + eng::num(a) + " copied through another value type"); s.label("cross type copy"); shares++;
        if (finalized(x.p)) break;
        dart::heap h = static_cast<dart::heap>(x.p);
        Val hm = x.m;
        if (hm.is_agg()) { mutate_doc(s, h, hm, o, [&]() -> std::pair<dart::heap, Val> { auto v = gen_scalar(s, o); return {build_heap(v), v}; }); SAME(h, hm, "a copy of another type"); changes++; }
        break;
      }
      case 8: NOTE("change the state of h" + eng::num(a)); refinalize(s, x.p, x.m); break;
      case 9: { // part changed in place, and the whole through a part of itself
        if (!x.m.is_agg() || finalized(x.p)) break;
        s.label("container of a copy");
        std::vector<P> all = {x.p, x.p};
        std::map<std::string, P> named {{"n", x.p}};
        Val before = x.m;
        mutate_doc(s, x.p, x.m, o, [&]() -> std::pair<P, Val> { return {named["n"], before}; }); changes++; shares++;
        SAME(all[0], before, "copies held in a container");
        SAME(named["n"], before, "copies held in a map");
        break;
      }
      default: { // const reads, temporaries and self assignment
        P t {x.p};
        x.p = *&x.p;
        NOTE("self assignment of h" + eng::num(a));
        SAME(t, x.m, "self assignment");
        if (x.m.t == Val::Obj && !finalized(x.p)) { P r = P {x.p}.add_field("tmp", 1); Val rm = x.m; rm.o["tmp"] = Val::integer(1); SAME(r, rm, "a changed temporary"); }
        break;
      }
    }
    for (size_t j = 0; j < np; j++) SAME(pool[j].p, pool[j].m, "handle h" + eng::num(j) + " after operation " + eng::num(i));
  }
  if (shares >= 2 && changes >= 2) s.nontrivial();
}

static void run(Src& s) {
  if (s.flip()) { s.label("generic"); machine<dart::packet>(s); } else { s.label("heap"); machine<dart::heap>(s); }
}

namespace eng {
  Prop prop = {
    "D05", "random histories over a pool of 2-5 handles (copies, moves, parts taken out, handles stored inside others and inside themselves, typed and cross-type copies, "
    "every mutator); each handle is modelled as an unshared value and all are compared after every step; non-trivial: at least 2 sharing and 2 changing steps",
    run, 15000, 300000, 10, 240, true
  };
}
