// D25 helpers: user supplied reference counters that audit their use, and the same history over any counter.
#pragma once
#include "ops.h"
#include <functional>
#include <set>

namespace d25 {
  using namespace dl;

  // ---- a counter with the interface of std::shared_ptr
  struct Block { void const* obj; long count = 0; std::function<void ()> del; };
  struct Audit { long blocks = 0, handles = 0; std::set<void const*> owned; };
  Audit& audit();

  inline Block* acquire(void const* obj, std::function<void ()> del) {
    CHECK(!obj || audit().owned.insert(obj).second, "a resource is handed to the reference counter while it owns it already");
    audit().blocks++;
    return new Block {obj, 0, std::move(del)};
  }

  template <class T>
  class tracked {
    public:
      using element_type = T;
      tracked(std::nullptr_t = nullptr) noexcept : self(this), block(nullptr) { audit().handles++; }
      explicit tracked(T* p) : self(this), block(acquire(p, [p] { delete p; })) { audit().handles++; block->count++; }
      template <class D> tracked(T* p, D d) : self(this), block(acquire(p, [p, d] () mutable { d(p); })) { audit().handles++; block->count++; }
      tracked(tracked const& o) noexcept : self(this), block(o.ok().block) { audit().handles++; if (block) block->count++; }
      tracked(tracked&& o) noexcept : self(this), block(o.ok().block) { audit().handles++; const_cast<Block*&>(o.block) = nullptr; }
      tracked& operator =(tracked o) noexcept { ok(); std::swap(block, o.block); return *this; }
      ~tracked() { ok(); drop(); self = nullptr; audit().handles--; }
      T* get() const noexcept { ok(); return block ? (T*)block->obj : nullptr; }
      long use_count() const noexcept { ok(); return block ? block->count : 0; }
      void reset() noexcept { ok(); drop(); }
    private:
      tracked const& ok() const { CHECK(self == this, "a reference counter is used that was not made, was destroyed, or was moved as bytes"); return *this; }
      void drop() {
        auto* b = block; block = nullptr;
        if (!b) return;
        CHECK(b->count > 0, "a reference counter is released too often");
        if (--b->count) return;
        if (b->obj) audit().owned.erase(b->obj);
        b->del(); audit().blocks--; delete b;
      }
      tracked const* self; Block* block;
  };

  // ---- a counter known through the behavioural structs only
  template <class T>
  struct obtuse {
    obtuse() = delete;
    obtuse(obtuse const&) = delete;
    obtuse(obtuse&&) = delete;
    explicit obtuse(int, tracked<T> t) : pad(77), impl(std::move(t)) {}
    ~obtuse() { CHECK(pad == 77, "a reference counter is destroyed that was not made"); pad = 0; }
    int pad;
    tracked<T> impl;
  };
}

namespace dart { namespace refcount {
  template <class T> struct element_type<d25::obtuse<T>> { using type = T; };
  template <class T> struct construct<d25::obtuse<T>> {
    template <class... A> static void perform(d25::obtuse<T>* that, A&&... a) { new(that) d25::obtuse<T>(0, d25::tracked<T>(new T(std::forward<A>(a)...))); }
  };
  template <class T> struct take<d25::obtuse<T>> {
    template <class D> static void perform(d25::obtuse<T>* that, std::nullptr_t, D&&) { new(that) d25::obtuse<T>(0, nullptr); }
    template <class D> static void perform(d25::obtuse<T>* that, T* p, D&& d) { new(that) d25::obtuse<T>(0, d25::tracked<T>(p, std::forward<D>(d))); }
  };
  template <class T> struct copy<d25::obtuse<T>> { static void perform(d25::obtuse<T>* that, d25::obtuse<T> const& o) { new(that) d25::obtuse<T>(0, o.impl); } };
  template <class T> struct move<d25::obtuse<T>> { static void perform(d25::obtuse<T>* that, d25::obtuse<T>&& o) { new(that) d25::obtuse<T>(0, std::move(o.impl)); } };
  template <class T> struct unwrap<d25::obtuse<T>> { static T* perform(d25::obtuse<T> const& r) { return r.impl.get(); } };
  template <class T> struct use_count<d25::obtuse<T>> { static size_t perform(d25::obtuse<T> const& r) { return r.impl.use_count(); } };
  template <class T> struct reset<d25::obtuse<T>> { static void perform(d25::obtuse<T>& r) { r.impl.reset(); } };
}}

namespace d25 {

  template <template <class> class RC> char const* name();
  template <> inline char const* name<std::shared_ptr>() { return "std::shared_ptr"; }
  template <> inline char const* name<dart::unsafe_ptr>() { return "unsafe_ptr"; }
  template <> inline char const* name<dart::skinny_ptr>() { return "skinny_ptr"; }
  template <> inline char const* name<tracked>() { return "user counter"; }
  template <> inline char const* name<obtuse>() { return "user counter by traits"; }

  template <class H>
  H mkh(Val const& v) {
    switch (v.t) {
      case Val::Obj: { auto o = H::make_object(); for (auto& p : v.o) o.add_field(sv(p.first), mkh<H>(p.second)); return o; }
      case Val::Arr: { auto a = H::make_array(); for (auto& x : v.a) a.push_back(mkh<H>(x)); return a; }
      case Val::Str: return H::make_string(sv(v.s));
      case Val::Int: return H::make_integer(v.i);
      case Val::Dec: return H::make_decimal(v.d);
      case Val::Bool: return H::make_boolean(v.b);
      default: return H::make_null();
    }
  }
  template <template <class> class RC>
  dart::basic_buffer<RC> mkb(Val const& v) {
    using H = dart::basic_heap<RC>;
    if (v.t == Val::Obj) return mkh<H>(v).finalize();
    return dart::basic_buffer<RC>(H::make_object("value", mkh<H>(v)))["value"];
  }
  template <template <class> class RC>
  dart::basic_packet<RC> mkp(Val const& v, bool fin) {
    if (fin) return mkb<RC>(v);
    return mkh<dart::basic_heap<RC>>(v);
  }

  // A history over documents of one counter, against the model. What it shows must not depend on the counter.
  template <template <class> class RC>
  std::string history(Src& s, Opt const& o) {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    struct Doc { P p; Val m; };
    std::vector<Doc> docs;
    std::string log, out;
    std::string who = name<RC>();
    auto small = [&] { Opt q = o; q.depth = 1 + s.draw(2); q.width = 3; return gen_val(s, q); };
    auto add = [&](P p, Val m) { if (docs.size() < 6) docs.push_back({std::move(p), std::move(m)}); else { size_t i = s.draw(6); docs[i] = Doc {std::move(p), std::move(m)}; } };
    { Val v = gen_obj(s, o); add(mkp<RC>(v, s.flip()), v); }
    for (int n = 2 + s.draw(14); n; n--) {
      size_t i = s.draw(docs.size()), j = s.draw(docs.size());
      Doc& d = docs[i];
      auto op = s.draw(20);
      log += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      switch (op) {
        case 0: { Val v = s.flip() ? gen_val(s, o) : gen_obj(s, o); add(mkp<RC>(v, s.flip()), v); break; }
        case 1: add(P(d.p), Val(d.m)); break;
        case 2: { P t = std::move(d.p); d.p = std::move(t); break; }
        case 3: case 4: case 5: case 6: {
          if (d.p.is_finalized()) { THROWS(dart::state_error, d.m.t == Val::Arr ? (void)d.p.push_back(1) : (void)d.p.add_field("x", 1), who + ": mutating a finalized document"); break; }
          auto what = mutate_doc(s, d.p, d.m, o, [&] { Val v; if (s.draw(3)) { v = small(); return std::make_pair(mkp<RC>(v, s.flip()), v); } auto& w = docs[j]; return std::make_pair(P(w.p), Val(w.m)); });
          log += what + "; ";
          break;
        }
        case 7: if (d.m.t == Val::Obj) { d.p.finalize(); CHECK(d.p.is_finalized(), who + ": finalize"); } break;
        case 8: d.p.definalize(); CHECK(!d.p.is_finalized(), who + ": definalize"); break;
        case 9: if (d.m.t == Val::Obj && d.m.o.size()) { auto k = s.pick(keys_of(d.m)); add(d.p[sv(k)], *docs[i].m.get(k)); } break;
        case 10: if (d.m.t == Val::Arr && d.m.a.size()) { size_t k = s.draw(d.m.a.size()); add(d.p[k], docs[i].m.a[k]); } break;
        case 11: d.p = docs[j].p; d.m = Val(docs[j].m); break;
        case 12: { using std::swap; swap(d.p, docs[j].p); if (i != j) std::swap(d.m, docs[j].m); break; }
        case 13: if (json_safe(d.m) && utf8_safe(d.m) && d.m.is_agg()) { auto t = d.p.to_json(); out += t; P q = P::from_json(t, d.m.t == Val::Obj && s.flip()); CHECK(near(extract(q), d.m, 4), who + ": JSON"); } break;
        case 14: if (d.p.is_finalized()) { B b {d.p}; SAME(b, d.m, who + ": as buffer"); if (d.m.t == Val::Obj) { out += bytes_of(b.get_bytes()); size_t len = 0; auto dup = b.dup_bytes(len); CHECK(len == b.get_bytes().size(), who + ": dup_bytes"); B c(std::move(dup)); SAME(c, d.m, who + ": buffer of copied bytes"); add(P(c), Val(d.m)); } } break;
        case 15: { H h {d.p}; SAME(h, d.m, who + ": as heap"); H g = std::move(h); add(P(std::move(g)), Val(d.m)); break; }
        case 16: if (d.m.t == Val::Obj) {
          if (s.flip()) { dart::basic_object<P> t {d.p}; CHECK(t.size() == d.m.size(), who + ": object"); add(P(t), Val(d.m)); }
          else { dart::basic_object<P> t {P(d.p)}; P back {std::move(t)}; SAME(back, d.m, who + ": through a typed object"); }
        } break;
        case 17: if (d.p.is_finalized() && d.m.t == Val::Obj) {
          RC<gsl::byte const>* held = (RC<gsl::byte const>*)operator new(sizeof(RC<gsl::byte const>));
          dart::refcount_traits<RC<gsl::byte const>>::take(held, nullptr, std::default_delete<gsl::byte const> {});
          auto size = d.p.share_bytes(*held);
          // A part of a larger document shares the bytes of the whole.
          bool whole = (gsl::byte const*)dart::refcount_traits<RC<gsl::byte const>>::unwrap(*held) == d.p.get_bytes().data();
          if (whole) CHECK(size == d.p.get_bytes().size(), who + ": share_bytes");
          CHECK(dart::refcount_traits<RC<gsl::byte const>>::unwrap(*held) != nullptr, who + ": shared bytes");
          { P saved = std::move(d.p); }
          d.p = P();
          std::string bytes((char const*)dart::refcount_traits<RC<gsl::byte const>>::unwrap(*held), size);
          out += bytes;
          P back = P(gsl::span<gsl::byte const>((gsl::byte const*)dart::refcount_traits<RC<gsl::byte const>>::unwrap(*held), size));
          if (whole) d.p = back; else { d.m = extract(back); d.p = back; }
          held->~RC<gsl::byte const>(); operator delete(held);
          s.label("shared bytes outlive the document");
        } break;
        case 18: { bool want = d.m == docs[j].m; CHECK((d.p == docs[j].p) == want && (d.p != docs[j].p) == !want, who + ": equality"); break; }
        default: if (docs.size() > 1) docs.erase(docs.begin() + i); break;
      }
      for (auto& x : docs) { SAME(x.p, x.m, who + ": after " + log); out += " " + std::to_string(x.p.refcount()); }
    }
    NOTE(who + ": " + log);
    s.nontrivial();
    while (!docs.empty()) docs.erase(docs.begin() + s.draw(docs.size()));
    return out + log;
  }

  template <template <class> class RC> dart::basic_heap<RC> mkx(dart::basic_heap<RC> const&, Val const& v) { return mkh<dart::basic_heap<RC>>(v); }
  template <template <class> class RC> dart::basic_buffer<RC> mkx(dart::basic_buffer<RC> const&, Val const& v) { return mkb<RC>(v); }
  template <template <class> class RC> dart::basic_packet<RC> mkx(dart::basic_packet<RC> const&, Val const& v) { return mkp<RC>(v, v.size() % 2); }
  template <class V>
  bool d25typed(V const& view, Val const& v, std::string const& form, int) {
    if (v.t == Val::Obj) { dart::basic_object<V> t {view}; CHECK(t.size() == v.size(), form + ": typed view"); SAME(t.as_owner().dynamic(), v, form + ": typed view as owner"); }
    if (v.t == Val::Arr) { dart::basic_array<V> t {view}; CHECK(t.size() == v.size(), form + ": typed view"); SAME(t.as_owner().dynamic(), v, form + ": typed view as owner"); }
    if (v.t == Val::Str) { dart::basic_string<V> t {view}; CHECK(str(t.strv()) == v.s, form + ": typed view"); SAME(t.as_owner().dynamic(), v, form + ": typed view as owner"); }
    return true;
  }

  // Views of one counter.
  template <template <class> class RC>
  void views(Src& s, Val const& v) {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    std::string who = name<RC>();
    Val w = mutate(s, v);
    auto check = [&](auto doc, std::string form) {
      using D = decltype(doc); using V = typename D::view;
      form = who + " " + form;
      auto counts = [&] { return doc.refcount(); };
      auto before = counts();
      long handles = audit().handles;
      {
        V view {doc};
        SAME(view, v, form + ": view");
        CHECK(view == doc && doc == view && !(view != doc), form + ": a view equals its document");
        D other = mkx(doc, w);
        CHECK((view == other) == (v == w) && (other == view) == (v == w), form + ": view against a document");
        { V ov {other}; CHECK((view == ov) == (v == w), form + ": view against view"); ov = view; CHECK(ov == doc, form + ": assigned view"); SAME(ov, v, form + ": assigned view"); V moved = std::move(ov); SAME(moved, v, form + ": moved view"); }
        CHECK(v.t == Val::Str || counts() == before, form + ": views are not owners");   // long strings are shared with their views
        V copy = view;
        CHECK(before == 0 || v.t == Val::Str || view.refcount() == before, form + ": refcount through a view is " + std::to_string(view.refcount()) + " and " + std::to_string(before));
        if (v.t == Val::Obj) for (int k = 0; k < 3 && v.o.size(); k++) { auto key = s.pick(keys_of(v)); auto sub = copy[sv(key)]; SAME(sub, *v.get(key), form + ": sub-view"); SAME(sub.as_owner(), *v.get(key), form + ": owner of a sub-view"); }
        if (v.t == Val::Arr) for (size_t k = 0; k < v.a.size() && k < 3; k++) SAME(copy[k].as_owner(), v.a[k], form + ": owner of an element view");
        auto t = d25typed(view, v, form, 0);
      }
      CHECK(counts() == before, form + ": what views leave behind");
      // Owners made from views keep the document alive.
      auto* heapdoc = new D(doc);
      auto own = typename D::view(*heapdoc).as_owner();
      doc = D();
      delete heapdoc;
      SAME(own, v, form + ": owner made from a view");
      CHECK(own.refcount() == before, form + ": owner count after the others left: " + std::to_string(own.refcount()) + " and once " + std::to_string(before));
    };
    check(mkh<H>(v), "heap");
    check(mkb<RC>(v), "buffer");
    check(mkp<RC>(v, s.flip()), "packet");
    s.label("views");
  }
  // From one counter to another.
  template <template <class> class A, template <class> class B>
  void pair(Src& s, Val const& v, Val const& w) {
    auto who = std::string(name<A>()) + " to " + name<B>();
    bool fin = s.flip();
    auto ha = mkh<dart::basic_heap<A>>(v);
    auto ba = mkb<A>(v);
    auto pa = mkp<A>(v, fin);
    size_t rh = ha.refcount(), rb = ba.refcount();
    auto h = dart::basic_heap<A>::template transmogrify<B>(ha);
    SAME(h, v, who + ": heap"); SAME(ha, v, who + ": source heap");
    CHECK(ha.refcount() == rh && ba.refcount() == rb, who + ": conversion shares nothing");
    auto same = [&](auto const& x, auto const& y, bool want, char const* what) {
      CHECK((x == y) == want && (y == x) == want && (x != y) == !want && (y != x) == !want, who + ": comparison of " + what + (want ? " with equal values" : " with different values " + diff(v, w)));
    };
    bool eq = v == w;
    auto hw = mkh<dart::basic_heap<B>>(w); auto bw = mkb<B>(w); auto pw = mkp<B>(w, s.flip());
    same(ha, h, true, "heaps"); same(ha, hw, eq, "heaps"); same(ba, bw, eq, "buffers"); same(pa, pw, eq, "packets");
    same(ha, bw, eq, "heap and buffer"); same(ba, hw, eq, "buffer and heap"); same(ha, pw, eq, "heap and packet"); same(pa, hw, eq, "packet and heap"); same(ba, pw, eq, "buffer and packet"); same(pa, bw, eq, "packet and buffer");
    { typename dart::basic_heap<A>::view hv {ha}; same(hv, h, true, "heap view and heap"); same(hv, hw, eq, "heap view and heap"); typename dart::basic_buffer<A>::view bv {ba}; same(bv, bw, eq, "buffer view and buffer"); typename dart::basic_packet<A>::view pv {pa}; same(pv, pw, eq, "packet view and packet"); }
    if (v.t == Val::Obj) {
      auto b = dart::basic_buffer<A>::template transmogrify<B>(ba);
      SAME(b, v, who + ": buffer"); CHECK(bytes_of(b.get_bytes()) == bytes_of(ba.get_bytes()), who + ": bytes");
      same(ba, b, true, "buffers");
      ba = dart::basic_buffer<A>(); SAME(b, v, who + ": buffer after its source is gone");
    }
    if (v.t == Val::Obj || !fin) {
      auto p = dart::basic_packet<A>::template transmogrify<B>(pa);
      CHECK(p.is_finalized() == fin, who + ": conversion keeps the state");
      SAME(p, v, who + ": packet"); same(pa, p, true, "packets");
      pa = dart::basic_packet<A>(); SAME(p, v, who + ": packet after its source is gone");
      auto back = dart::basic_packet<B>::template transmogrify<A>(p);
      SAME(back, v, who + ": and back");
    } else THROWS(dart::type_error, dart::basic_packet<A>::template transmogrify<B>(pa), who + ": immutable values other than objects");
    // Changing either leaves the other alone.
    if (h.is_object()) { h.add_field("more", 1); SAME(ha, v, who + ": source after its copy was changed"); }
    else if (h.is_array()) { h.push_back(1); SAME(ha, v, who + ": source after its copy was changed"); }
    Val m = v; auto h2 = dart::basic_heap<A>::template transmogrify<B>(ha);
    mutate_doc(s, ha, m, Opt {}, [&] { return std::make_pair(dart::basic_heap<A>::make_integer(7), Val::integer(7)); });
    SAME(ha, m, who + ": source changed"); SAME(h2, v, who + ": copy after its source was changed");
    s.label("conversion between counters");
  }

  template <template <class> class A, template <class> class X, template <class> class Y>
  void pairs(Src& s, Val const& v, Val const& w) {
    // A tape of the quick tier means the same with all pairs compiled in.
#ifdef ALL_PAIRS
    switch (s.draw(7)) {
      case 0: pair<A, X>(s, v, w); break;
      case 1: pair<A, Y>(s, v, w); break;
      case 2: pair<A, dart::unsafe_ptr>(s, v, w); break;
      case 3: pair<A, std::shared_ptr>(s, v, w); break;
      case 4: pair<A, dart::skinny_ptr>(s, v, w); break;
      case 5: pair<A, tracked>(s, v, w); break;
      default: pair<A, obtuse>(s, v, w); break;
    }
#else
    if (!s.draw(2)) pair<A, X>(s, v, w); else pair<A, Y>(s, v, w);
#endif
  }

  struct Counter { std::string (*history)(Src&, Opt const&); void* none; void (*pairs)(Src&, Val const&, Val const&); char const* name; };
  extern Counter shared, uns, skinny, track, obt;
  void v_shared(Src&, Val const&); void v_uns(Src&, Val const&); void v_skinny(Src&, Val const&); void v_track(Src&, Val const&); void v_obt(Src&, Val const&);
}
