// D17: lifetimes. The model is a graph of shared nodes: std::shared_ptr in the model counts what the library should count.
#pragma once
#include "ops.h"
#include "codec.h"
#include <memory>
#include <algorithm>

namespace d17 {
  using namespace dl;

  struct Node; using Ref = std::shared_ptr<Node>;
  struct MV { Val sc; Ref n; };                          // a mutable value: a scalar, or an aggregate shared with others
  struct Node { Val::T t; std::map<std::string, MV, KeyLess> o; std::vector<MV> a; };
  struct Buf { std::vector<std::pair<gsl::byte const*, std::string>> lent; }; // contiguous storage; memory lent out that lives as long
  using Tok = std::shared_ptr<Buf>;
  struct Cell { MV m; Tok t; bool fin() const { return (bool)t; } };           // what a handle holds

  inline Val val(MV const& m) {
    if (!m.n) return m.sc;
    Val v = m.n->t == Val::Obj ? Val::obj() : Val::arr();
    for (auto& e : m.n->o) v.o[e.first] = val(e.second);
    for (auto& e : m.n->a) v.a.push_back(val(e));
    return v;
  }
  inline MV own(Val const& v) {                          // a fresh copy that shares nothing
    MV m; if (!v.is_agg()) { m.sc = v; return m; }
    m.n = std::make_shared<Node>(); m.n->t = v.t;
    for (auto& e : v.o) m.n->o[e.first] = own(e.second);
    for (auto& e : v.a) m.n->a.push_back(own(e));
    return m;
  }
  inline void nodes(MV const& m, std::vector<std::weak_ptr<Node>>& out) {
    if (!m.n) return;
    for (auto& w : out) if (w.lock() == m.n) return;
    out.push_back(m.n);
    for (auto& e : m.n->o) nodes(e.second, out);
    for (auto& e : m.n->a) nodes(e, out);
  }
  inline void cow(MV& m) { if (m.n.use_count() > 1) m.n = std::make_shared<Node>(*m.n); }

  template <template <class> class RC>
  struct World {
    using P = dart::basic_packet<RC>; using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>;
    using PO = typename P::object; using PA = typename P::array; using PI = typename P::iterator; using BI = typename B::iterator;
    using BO = typename B::object; using HO = typename H::object; using HA = typename H::array;
    using Bytes = RC<gsl::byte const>;
    enum K { KP, KH, KB, KPO, KPA, KBO, KHO, KHA, KPI, KBI, KBytes };
    struct Hnd {
      K k; void* obj = nullptr; Cell c; bool moved = false;
      std::vector<Tok> more; std::vector<Val> rest; size_t pos = 0;           // iterators: what else they own, what they go through
    };
    struct Watch { std::weak_ptr<Buf> t; std::shared_ptr<int> freed; };
    Src& s; Opt o; std::vector<Hnd> hs; std::vector<Watch> ws; int outlived = 0, shared = 0, shapes = 0;
    World(Src& s, Opt o) : s(s), o(o) {}
    ~World() { for (auto& h : hs) free_obj(h); }

    template <class F> void with(Hnd& h, F&& f) {
      switch (h.k) {
        case KP: f(*(P*)h.obj); break; case KH: f(*(H*)h.obj); break; case KB: f(*(B*)h.obj); break; case KPO: f(*(PO*)h.obj); break;
        case KPA: f(*(PA*)h.obj); break; case KBO: f(*(BO*)h.obj); break; case KHO: f(*(HO*)h.obj); break; case KHA: f(*(HA*)h.obj); break;
        default: break;
      }
    }
    template <class F> void any(Hnd& h, F&& f) {
      switch (h.k) { case KPI: f(*(PI*)h.obj); break; case KBI: f(*(BI*)h.obj); break; case KBytes: f(*(Bytes*)h.obj); break; default: with(h, f); }
    }
    struct Del { template <class T> void operator ()(T& x) const { delete &x; } };
    void free_obj(Hnd& h) { if (h.obj) any(h, Del {}); h.obj = nullptr; }
    static bool reads(K k) { return k < KPI; }

    template <class T> void push(K k, T x, Cell c, std::vector<Tok> more = {}, std::vector<Val> rest = {}, size_t pos = 0) {
      Hnd h; h.k = k; h.obj = new T(std::move(x)); h.c = std::move(c); h.more = std::move(more); h.rest = std::move(rest); h.pos = pos; hs.push_back(std::move(h));
    }
    // A null need not own what it was taken from.
    void wrap(P x, Cell c) { if (c.fin() && x.is_null() && !x.refcount()) c.t.reset(); push(KP, std::move(x), std::move(c)); }
    void wrap(H x, Cell c) { if (c.fin() && x.is_null() && !x.refcount()) c.t.reset(); push(KH, std::move(x), std::move(c)); }
    void wrap(B x, Cell c) { if (c.fin() && x.is_null() && !x.refcount()) c.t.reset(); push(KB, std::move(x), std::move(c)); }

    static Cell heap(Val const& v) { Cell c; c.m = own(v); return c; }
    static Cell part(Cell const& c, Val v) { Cell r; r.m.sc = std::move(v); r.t = c.t; return r; }
    static Cell flat(Val v) { Cell r; r.m.sc = std::move(v); r.t = std::make_shared<Buf>(); return r; }
    static Val of(Cell const& c) { return val(c.m); }
    static Val const* probe(Val const& v, std::string const& k) { return v.get(k); }

    H mkh(Val const& v) {
      switch (v.t) {
        case Val::Obj: { auto o = H::make_object(); for (auto& p : v.o) o.add_field(sv(p.first), mkh(p.second)); return o; }
        case Val::Arr: { auto a = H::make_array(); for (auto& x : v.a) a.push_back(mkh(x)); return a; }
        case Val::Str: return H::make_string(sv(v.s));
        case Val::Int: return H::make_integer(v.i);
        case Val::Dec: return H::make_decimal(v.d);
        case Val::Bool: return H::make_boolean(v.b);
        default: return H::make_null();
      }
    }

    // ---- checks
    void verify(std::string const& what) {
      for (auto& h : hs) {
        if (h.moved) continue;
        if (h.k == KBytes) { CHECK((u64)((Bytes*)h.obj)->use_count() == (u64)h.c.t.use_count(), what + ": the count of a byte handle is " + eng::num(((Bytes*)h.obj)->use_count()) + ", owners " + eng::num(h.c.t.use_count())); continue; }
        if (h.k == KPI || h.k == KBI) {
          if (h.pos < h.rest.size()) { if (h.k == KPI) SAME(**(PI*)h.obj, h.rest[h.pos], what + ": under an iterator"); else SAME(**(BI*)h.obj, h.rest[h.pos], what + ": under an iterator"); }
          continue;
        }
        Val want = of(h.c);
        with(h, [&] (auto& x) {
          u64 got = x.refcount();
          P y {x}; // reading goes through a further handle
          SAME(y, want, what + ": a handle");
          if (h.c.fin()) CHECK(got == (u64)h.c.t.use_count() || (want.t == Val::Null && got == 0), what + ": " + eng::num(got) + " counted, " + eng::num(h.c.t.use_count()) + " owners of an immutable " + tname(want.t));
          else if (h.c.m.n) CHECK(got == (u64)h.c.m.n.use_count(), what + ": " + eng::num(got) + " counted, " + eng::num(h.c.m.n.use_count()) + " owners of a mutable " + tname(want.t));
        });
        if (h.c.fin()) for (auto& l : h.c.t->lent) CHECK(!memcmp(l.first, l.second.data(), l.second.size()), what + ": memory obtained from a document changed while it was owned");
      }
      for (auto& w : ws) CHECK(*w.freed == (w.t.expired() ? 1 : 0), what + ": the bytes were released " + eng::num(*w.freed) + " times with " + (w.t.expired() ? "no" : "a") + " owner left");
    }

    // ---- operations
    void create() {
      if (s.flip()) { // mutable
        Val v = s.draw(4) ? s.flip() ? gen_obj(s, o) : gen_arr(s, o) : gen_val(s, o); Cell c = heap(v);
        if (s.flip()) wrap(P {mkh(v)}, c); else wrap(mkh(v), c);
        s.label("a mutable document"); return;
      }
      Val v = gen_obj(s, o); Cell c = flat(v); s.label("an immutable document");
      if (s.draw(3)) { // from bytes of our own, watched
        auto b = codec::encode(v); void* q = nullptr; if (posix_memalign(&q, 8, b.size())) abort(); memcpy(q, b.data(), b.size());
        auto freed = std::make_shared<int>(0); auto del = [freed] (gsl::byte const* p) { ++*freed; free((void*)p); };
        ws.push_back({c.t, freed}); auto* p = (gsl::byte const*)q; auto k = s.draw(4);
        if (k == 0) wrap(B {Bytes {p, del}}, c);
        else if (k == 1) wrap(P {Bytes {p, del}}, c);
        else if (k == 2) wrap(B {std::unique_ptr<gsl::byte const[], decltype(del)> {p, del}}, c);
        else wrap(P {std::unique_ptr<gsl::byte const[], decltype(del)> {p, del}}, c);
        s.label("bytes given to the library");
      } else if (s.flip()) wrap(B {mkh(v)}, c);
      else wrap(P {mkh(v)}.finalize(), c);
    }
    void copy(size_t i) {
      Cell c = hs[i].c; K k = hs[i].k; void* x = hs[i].obj; auto t = of(c).t; shared++;
      switch (k) {
        case KP: { auto& p = *(P*)x; int w = s.draw(6);
          if (w == 1 && t == Val::Obj) push(KPO, PO {p}, c); else if (w == 1 && t == Val::Arr) push(KPA, PA {p}, c);
          else if (w == 2 && !c.fin()) wrap(H {p}, c); else if (w == 2) wrap(B {p}, c);
          else wrap(p, c); break; }
        case KH: { auto& h = *(H*)x; int w = s.draw(3); if (w == 0) wrap(P {h}, c); else if (w == 1 && t == Val::Obj) push(KHO, HO {h}, c); else if (w == 1 && t == Val::Arr) push(KHA, HA {h}, c); else wrap(h, c); break; }
        case KB: { auto& b = *(B*)x; int w = s.draw(3); if (w == 0) wrap(P {b}, c); else if (w == 1 && t == Val::Obj) push(KBO, BO {b}, c); else wrap(b, c); break; }
        case KPO: if (s.flip()) push(KPO, *(PO*)x, c); else wrap(P {*(PO*)x}, c); break;
        case KPA: if (s.flip()) push(KPA, *(PA*)x, c); else wrap(P {*(PA*)x}, c); break;
        case KBO: if (s.flip()) push(KBO, *(BO*)x, c); else wrap(B {*(BO*)x}, c); break;
        case KHO: if (s.flip()) push(KHO, *(HO*)x, c); else wrap(H {*(HO*)x}, c); break;
        case KHA: if (s.flip()) push(KHA, *(HA*)x, c); else wrap(H {*(HA*)x}, c); break;
        case KBytes: { int w = s.draw(3); if (w == 0) push(KBytes, *(Bytes*)x, c); else if (w == 1) wrap(B {*(Bytes*)x}, c); else wrap(P {*(Bytes*)x}, c); break; }
        case KPI: push(KPI, *(PI*)x, c, hs[i].more, hs[i].rest, hs[i].pos); break;
        case KBI: push(KBI, *(BI*)x, c, hs[i].more, hs[i].rest, hs[i].pos); break;
      }
    }
    void move(size_t i) {
      Cell c = std::move(hs[i].c); hs[i].c = {}; hs[i].moved = true; auto more = std::move(hs[i].more); auto rest = hs[i].rest; auto pos = hs[i].pos; auto t = of(c).t; void* x = hs[i].obj;
      hs[i].more.clear();
      switch (hs[i].k) {
        case KP: { auto& p = *(P*)x; int w = s.draw(4); if (w == 1 && t == Val::Obj) push(KPO, PO {std::move(p)}, std::move(c)); else if (w == 1 && t == Val::Arr) push(KPA, PA {std::move(p)}, std::move(c)); else if (w == 2 && c.fin()) wrap(B {std::move(p)}, std::move(c)); else if (w == 2) wrap(H {std::move(p)}, std::move(c)); else wrap(std::move(p), std::move(c)); break; }
        case KH: if (s.flip()) wrap(std::move(*(H*)x), std::move(c)); else wrap(P {std::move(*(H*)x)}, std::move(c)); break;
        case KB: if (s.flip()) wrap(std::move(*(B*)x), std::move(c)); else wrap(P {std::move(*(B*)x)}, std::move(c)); break;
        case KPO: if (s.flip()) push(KPO, std::move(*(PO*)x), std::move(c)); else wrap(P {std::move(*(PO*)x)}, std::move(c)); break;
        case KPA: if (s.flip()) push(KPA, std::move(*(PA*)x), std::move(c)); else wrap(P {std::move(*(PA*)x)}, std::move(c)); break;
        case KBO: if (s.flip()) push(KBO, std::move(*(BO*)x), std::move(c)); else wrap(B {std::move(*(BO*)x)}, std::move(c)); break;
        case KHO: if (s.flip()) push(KHO, std::move(*(HO*)x), std::move(c)); else wrap(H {std::move(*(HO*)x)}, std::move(c)); break;
        case KHA: if (s.flip()) push(KHA, std::move(*(HA*)x), std::move(c)); else wrap(H {std::move(*(HA*)x)}, std::move(c)); break;
        case KBytes: if (s.flip()) push(KBytes, std::move(*(Bytes*)x), std::move(c)); else wrap(B {std::move(*(Bytes*)x)}, std::move(c)); break;
        case KPI: push(KPI, std::move(*(PI*)x), std::move(c), std::move(more), rest, pos); break;
        case KBI: push(KBI, std::move(*(BI*)x), std::move(c), std::move(more), rest, pos); break;
      }
      s.label("a move");
    }
    void drop(size_t i) {
      auto& h = hs[i]; std::vector<std::weak_ptr<Node>> ns; nodes(h.c.m, ns); std::weak_ptr<Buf> wt = h.c.t; bool had = h.c.fin();
      long l0 = eng::live(); free_obj(h); long freed = l0 - eng::live();
      bool others = false; for (size_t j = 0; j < hs.size(); j++) if (j != i && !hs[j].moved && ((had && hs[j].c.t == h.c.t) || (h.c.m.n && hs[j].c.m.n == h.c.m.n))) others = true;
      h.c = {}; h.more.clear();
      size_t ended = std::count_if(ns.begin(), ns.end(), [] (auto& w) { return w.expired(); });
      bool str = false; if (!ns.empty() && ended == 0) str = false;
      std::string what = "destroying one of the handles";
      if (had && wt.expired()) CHECK(freed >= 2, what + ", the last, releases nothing");
      else if (ended) CHECK(freed >= 1 + (long)ended, what + " ends " + eng::num(ended) + " aggregates but releases " + eng::num(freed - 1) + " blocks");
      else if (had || !ns.empty()) CHECK(freed == 1, what + " releases " + eng::num(freed - 1) + " blocks that others own");
      (void)str; if (others) outlived++;
      hs.erase(hs.begin() + i); s.label(others ? "a handle goes, others stay" : "a last handle goes");
    }

    // Every way to take a part of an aggregate.
    template <class X> void take_key(X& x, Cell c, std::string const& k, Cell r, size_t at) {
      switch (s.draw(9)) {
        case 0: wrap(x.get(sv(k)), r); break;
        case 1: wrap(x[sv(k)], r); break;
        case 2: wrap(x.at(sv(k)), r); break;
        case 3: { auto y = x; wrap(std::move(y).get(sv(k)), r); break; }
        case 4: { auto y = x; wrap(std::move(y)[sv(k)], r); break; }
        case 5: { auto it = x.find(sv(k)); wrap(*it, r); break; }
        case 6: { auto it = x.begin(); for (size_t j = 0; j < at; j++) ++it; wrap(*it, r); break; }
        case 7: { auto vs = x.values(); wrap(vs[at], r); break; }
        default: wrap_key(x.keys()[at], c, k);
      }
    }
    template <class X> void wrap_key(X x, Cell const& c, std::string const& k) { Cell r; if (c.fin()) r = part(c, Val::str(k)); else r.m.sc = Val::str(k); wrap(std::move(x), r); }
    template <class X> void take_idx(X& x, size_t i, Cell r, size_t n) {
      switch (s.draw(8)) {
        case 0: wrap(x.get(i), r); break;
        case 1: wrap(x[i], r); break;
        case 2: wrap(x.at(i), r); break;
        case 3: { auto y = x; wrap(std::move(y).get(i), r); break; }
        case 4: { auto it = x.begin(); for (size_t j = 0; j < i; j++) it++; wrap(*it, r); break; }
        case 5: { auto vs = x.values(); wrap(std::move(vs[i]), r); break; }
        case 6: { auto it = x.end(); for (size_t j = n; j > i; j--) --it; wrap(*it, r); break; }
        default: if (i == 0) wrap(x.front(), r); else if (i == n - 1) wrap(x.back(), r); else { auto it = x.rbegin(); for (size_t j = n - 1; j > i; j--) ++it; wrap(*it, r); }
      }
    }
    template <class X> std::enable_if_t<!std::is_same<X, PO>::value && !std::is_same<X, BO>::value && !std::is_same<X, HO>::value && !std::is_same<X, PA>::value && !std::is_same<X, HA>::value> via_view(X& x, std::string const& k, size_t i, bool obj, Cell r) {
      typename X::view v = x; auto w = v; auto u = obj ? w.get(sv(k)) : w.get(i); wrap(u.as_owner(), r); s.label("through views");
    }
    template <class X> std::enable_if_t<std::is_same<X, PO>::value || std::is_same<X, BO>::value || std::is_same<X, HO>::value> via_view(X& x, std::string const& k, size_t, bool, Cell r) { wrap(x.get(sv(k)), r); }
    template <class X> std::enable_if_t<std::is_same<X, PA>::value || std::is_same<X, HA>::value> via_view(X& x, std::string const&, size_t i, bool, Cell r) { wrap(x.get(i), r); }
    void part_of(size_t i) {
      Cell c = hs[i].c; Val v = of(c); if (!v.size() || !v.is_agg()) return;
      size_t at = s.draw(v.size()); Cell r; std::string k; bool view = !s.draw(5);
      if (v.t == Val::Obj) { auto it = v.o.begin(); std::advance(it, at); k = it->first; if (c.fin()) r = part(c, it->second); else r.m = c.m.n->o[k]; }
      else { if (c.fin()) r = part(c, v.a[at]); else r.m = c.m.n->a[at]; }
      void* x = hs[i].obj; bool obj = v.t == Val::Obj;
      c.m.n.reset(); // only the handle's own reference counts
      switch (hs[i].k) {
        #define PART(T) { auto& y = *(T*)x; if (view) via_view(y, k, at, obj, r); else if (obj) take_key(y, c, k, r, at); else take_idx(y, at, r, v.size()); break; }
        case KP: PART(P) case KH: PART(H) case KB: PART(B)
        case KPO: if (view) via_view(*(PO*)x, k, at, obj, r); else take_key(*(PO*)x, c, k, r, at); break;
        case KBO: if (view) via_view(*(BO*)x, k, at, obj, r); else take_key(*(BO*)x, c, k, r, at); break;
        case KHO: if (view) via_view(*(HO*)x, k, at, obj, r); else take_key(*(HO*)x, c, k, r, at); break;
        case KPA: if (view) via_view(*(PA*)x, k, at, obj, r); else take_idx(*(PA*)x, at, r, v.size()); break;
        case KHA: if (view) via_view(*(HA*)x, k, at, obj, r); else take_idx(*(HA*)x, at, r, v.size()); break;
        default: break;
      }
      s.label("a part"); shapes |= 1;
    }
    void iterate(size_t i) {
      auto& h = hs[i];
      if (h.k == KPI || h.k == KBI) {
        auto go = [&] (auto& it) {
          switch (s.draw(4)) {
            case 0: if (h.pos < h.rest.size()) { if (s.flip()) ++it; else it++; h.pos++; } break;
            case 1: if (h.pos) { if (s.flip()) --it; else it--; h.pos--; } break;
            default: if (h.pos < h.rest.size()) { Cell r = part(h.c, h.rest[h.pos]); wrap(*it, r); s.label("a part from an iterator"); }
          }
        };
        if (h.k == KPI) go(*(PI*)h.obj); else go(*(BI*)h.obj);
        return;
      }
      if (!h.c.fin() || (h.k != KP && h.k != KB)) return;
      Val v = of(h.c); if (!v.is_agg()) return;
      bool keys = v.t == Val::Obj && s.flip(), end = !s.draw(4); std::vector<Val> rest;
      for (auto& e : v.o) rest.push_back(keys ? Val::str(e.first) : e.second); for (auto& e : v.a) rest.push_back(e);
      size_t pos = end ? rest.size() : 0; Cell c = h.c;
      auto make = [&] (auto& x, K k) {
        u64 r0 = x.refcount(); auto it = keys ? end ? x.key_end() : x.key_begin() : end ? x.end() : x.begin(); u64 d = x.refcount() - r0;
        CHECK(d >= 1 && d <= 4, "an iterator over an immutable aggregate owns it"); std::vector<Tok> more (d - 1, c.t);
        push(k, std::move(it), c, more, rest, pos);
      };
      if (h.k == KP) make(*(P*)h.obj, KPI); else make(*(B*)h.obj, KBI);
      s.label("an iterator kept"); shapes |= 2;
    }
    void bytes(size_t i) {
      auto& h = hs[i]; Val v = of(h.c); if (!h.c.fin() || v.t != Val::Obj || (h.k != KP && h.k != KB)) return;
      Cell c = h.c; shapes |= 4;
      auto go = [&] (auto& x) {
        switch (s.draw(3)) {
          case 0: { Bytes r {nullptr}; auto n = x.share_bytes(r); CHECK(r.get(), "share_bytes"); c.t->lent.push_back({r.get(), std::string((char const*)r.get(), n)}); c.m.sc = Val::null(); 
            bool root = r.get() == x.get_bytes().data(); (void)root; Hnd n_; n_.k = KBytes; n_.obj = new Bytes(std::move(r)); n_.c = c; B whole {*(Bytes*)n_.obj}; n_.c.m.sc = extract(whole); hs.push_back(std::move(n_)); s.label("a byte handle"); break; }
          case 1: { auto b = x.get_bytes(); c.t->lent.push_back({b.data(), std::string((char const*)b.data(), b.size())}); s.label("lent bytes"); break; }
          default: { size_t n = 0; auto b = x.dup_bytes(n); Cell f = flat(v); if (s.flip()) wrap(B {std::move(b)}, f); else wrap(P {std::move(b)}, f); s.label("duplicated bytes"); }
        }
      };
      if (h.k == KP) go(*(P*)h.obj); else go(*(B*)h.obj);
    }
    void lend(size_t i) { // text inside an immutable document
      auto& h = hs[i]; if (!h.c.fin() || of(h.c).t != Val::Str || !reads(h.k)) return;
      if (h.k == KP) { auto t = ((P*)h.obj)->strv(); h.c.t->lent.push_back({(gsl::byte const*)t.data(), str(t)}); } else if (h.k == KB) { auto t = ((B*)h.obj)->strv(); h.c.t->lent.push_back({(gsl::byte const*)t.data(), str(t)}); }
      s.label("lent text");
    }
    // The value argument of a change.
    template <class F> MV arg(F&& f) {
      std::vector<size_t> c; for (size_t j = 0; j < hs.size(); j++) if (!hs[j].moved && reads(hs[j].k)) c.push_back(j);
      if (c.empty() || !s.draw(3)) { Val v = gen_scalar(s, o); f(mkh(v)); return own(v); }
      size_t j = s.pick(c); bool mv = !s.draw(3) && std::find(busy.begin(), busy.end(), j) == busy.end(); auto& h = hs[j];
      MV m = h.c.fin() ? own(of(h.c)) : h.c.m;
      if (mv) { h.c = {}; h.moved = true; s.label("a moved argument"); }
      with(h, [&] (auto& x) { if (mv) { auto y = std::move(x); f(std::move(y)); } else f(x); });
      return m;
    }
    std::vector<size_t> busy;
    template <class X> void change_obj(X& x, MV& m) {
      std::vector<std::string> ks; for (auto& e : m.n->o) ks.push_back(e.first);
      std::string k = ks.empty() || s.flip() ? gen_key(s, o, ks) : s.pick(ks); bool has = m.n->o.count(k);
      switch (s.draw(6)) {
        case 0: case 1: case 2: { MV a = arg([&] (auto&& y) { x.insert(sv(k), std::forward<decltype(y)>(y)); }); cow(m); m.n->o[k] = std::move(a); break; }
        case 3: if (!has) break; { MV a = arg([&] (auto&& y) { x.set(sv(k), std::forward<decltype(y)>(y)); }); cow(m); m.n->o[k] = std::move(a); break; }
        case 4: x.erase(sv(k)); if (has) { cow(m); m.n->o.erase(k); } else cow(m); break;
        default: x.clear(); cow(m); m.n->o.clear();
      }
    }
    template <class X> void change_arr(X& x, MV& m) {
      size_t n = m.n->a.size(), i = s.draw(n + 1), j = n ? s.draw(n) : 0;
      switch (s.draw(8)) {
        case 0: { MV a = arg([&] (auto&& y) { x.push_back(std::forward<decltype(y)>(y)); }); cow(m); m.n->a.push_back(std::move(a)); break; }
        case 1: { MV a = arg([&] (auto&& y) { x.push_front(std::forward<decltype(y)>(y)); }); cow(m); m.n->a.insert(m.n->a.begin(), std::move(a)); break; }
        case 2: { MV a = arg([&] (auto&& y) { x.insert(i, std::forward<decltype(y)>(y)); }); cow(m); m.n->a.insert(m.n->a.begin() + i, std::move(a)); break; }
        case 3: if (!n) break; { MV a = arg([&] (auto&& y) { x.set(j, std::forward<decltype(y)>(y)); }); cow(m); m.n->a[j] = std::move(a); break; }
        case 4: if (!n) break; x.erase(j); cow(m); m.n->a.erase(m.n->a.begin() + j); break;
        case 5: if (!n) break; x.pop_back(); cow(m); m.n->a.pop_back(); break;
        case 6: { size_t c = s.draw(8); MV a = arg([&] (auto&& y) { x.resize(c, y); }); cow(m); m.n->a.resize(c, a); break; }
        default: x.clear(); cow(m); m.n->a.clear();
      }
    }
    void change(size_t i) {
      if (hs[i].c.fin() || !hs[i].c.m.n || !reads(hs[i].k)) return;
      busy = {i}; bool obj = hs[i].c.m.n->t == Val::Obj; MV m = std::move(hs[i].c.m); hs[i].c.m = m; m.n.reset(); // work on the cell itself
      auto& cell = hs[i].c.m; void* x = hs[i].obj; if (cell.n.use_count() > 1) s.label("a change of shared storage");
      switch (hs[i].k) {
        case KP: if (obj) change_obj(*(P*)x, cell); else change_arr(*(P*)x, cell); break;
        case KH: if (obj) change_obj(*(H*)x, cell); else change_arr(*(H*)x, cell); break;
        case KPO: change_obj(*(PO*)x, cell); break; case KHO: change_obj(*(HO*)x, cell); break;
        case KPA: change_arr(*(PA*)x, cell); break; case KHA: change_arr(*(HA*)x, cell); break;
        default: break;
      }
      s.label("a change"); shapes |= 8;
    }
    void assign(size_t i) {
      std::vector<size_t> c; for (size_t j = 0; j < hs.size(); j++) if (!hs[j].moved && hs[j].k == hs[i].k) c.push_back(j);
      if (c.empty()) return;
      size_t j = s.pick(c); if (i == j && s.draw(4)) return;
      auto& d = hs[i]; auto& e = hs[j]; int how = i == j ? 0 : s.draw(3);
      any(d, [&] (auto& x) {
        using T = std::decay_t<decltype(x)>; auto& y = *(T*)e.obj;
        if (how == 0) { x = y; d.c = Cell(e.c); d.more = std::vector<Tok>(e.more); d.rest = std::vector<Val>(e.rest); d.pos = e.pos; d.moved = false; }
        else if (how == 1) { x = std::move(y); d.c = std::move(e.c); e.c = {}; d.more = std::move(e.more); e.more.clear(); d.rest = e.rest; d.pos = e.pos; d.moved = false; e.moved = true; }
        else { std::swap(x, y); std::swap(d.c, e.c); std::swap(d.more, e.more); std::swap(d.rest, e.rest); std::swap(d.pos, e.pos); std::swap(d.moved, e.moved); }
      });
      s.label(how == 0 ? "copy assignment" : how == 1 ? "move assignment" : "swap");
    }
    void turn(size_t i) {
      auto& h = hs[i]; Val v = of(h.c);
      if (h.k == KP) {
        auto& p = *(P*)h.obj;
        if (h.c.fin()) { if (s.flip()) p.lift(); else p.definalize(); h.c = heap(v); s.label("lifted"); }
        else if (v.t == Val::Obj) { if (s.flip()) p.finalize(); else p.lower(); h.c = flat(v); s.label("finalized"); }
      } else if (h.k == KH && v.t == Val::Obj) { wrap(s.flip() ? ((H*)h.obj)->lower() : B {*(H*)h.obj}, flat(v)); s.label("finalized"); }
      else if (h.k == KB) { wrap(s.flip() ? ((B*)h.obj)->lift() : H {*(B*)h.obj}, heap(v)); s.label("lifted"); }
      shapes |= 16;
    }
    void crowd(size_t i) { // copies in a growing container
      auto& h = hs[i]; if (h.k != KP) return;
      { std::vector<P> v; std::vector<Cell> c; int n = 1 + s.draw(9); for (int j = 0; j < n; j++) { v.push_back(*(P*)h.obj); c.push_back(h.c); } if (s.flip()) { v.erase(v.begin()); c.pop_back(); } verify("copies in a vector"); }
    }

    void step() {
      if (hs.empty()) { create(); return; }
      std::vector<size_t> ok; for (size_t j = 0; j < hs.size(); j++) if (!hs[j].moved) ok.push_back(j);
      int op = s.weigh({2, 4, 2, 4, 6, 3, 3, 1, 6, 3, 2, 1});
      if (hs.size() > 14) op = 3;
      if (op == 0) { create(); NOTE("create"); return; }
      if (op == 3) { size_t i = s.draw(hs.size()); NOTE("destroy handle " + eng::num(i)); drop(i); return; }
      if (op == 9) { size_t i = s.draw(hs.size()); NOTE("assign handle " + eng::num(i)); assign(i); return; }
      if (ok.empty()) return;
      size_t i = s.pick(ok);
      static char const* const names[] = {"", "copy", "move", "", "part of", "iterate", "bytes of", "text of", "change", "", "turn", "crowd"};
      NOTE(std::string(names[op]) + " handle " + eng::num(i) + " kind " + eng::num(hs[i].k) + (hs[i].c.fin() ? " immutable " : " mutable ") + show(of(hs[i].c), 200));
      switch (op) {
        case 1: copy(i); s.label("a copy"); break;
        case 2: move(i); break;
        case 4: if (reads(hs[i].k)) part_of(i); break;
        case 5: iterate(i); break;
        case 6: bytes(i); break;
        case 7: lend(i); break;
        case 8: change(i); break;
        case 10: turn(i); break;
        default: crowd(i);
      }
    }
  };

  template <template <class> class RC>
  void history(Src& s, Opt const& o) {
    World<RC> w {s, o}; int n = 8 + s.draw(28);
    w.create(); w.verify("creation");
    for (int i = 0; i < n; i++) { w.step(); w.verify("step " + std::to_string(i)); }
    while (!w.hs.empty()) { w.drop(s.draw(w.hs.size())); w.verify("the end"); }
    if (w.outlived >= 2 && (w.shapes & (w.shapes - 1))) s.nontrivial();
  }
  void run_unsafe(Src& s, Opt const& o);
  void run_skinny(Src& s, Opt const& o);
}
