// D24: every operation with every one of its allocations failing in turn.
#pragma once
#include "ops.h"
#include "codec.h"
#include <functional>
#include <map>
#include <unordered_map>
#include <list>
#include <deque>
#include <set>

namespace d24 {
  using namespace dl;

  struct Stats { int faults = 0, ops = 0; bool all = false; }; // all: memory stays short once it is

  // Runs act with its first, second, ... allocation failing until it gets through; after every failure check() must find
  // everything as before. prep() makes the arguments that act may use up.
  // Where act does not build on its own last result (again), it goes on after an allocation it got along without.
  template <class Prep, class Act, class Check>
  void exhaust(Src& s, Stats& st, char const* what, Prep&& prep, Act&& act, Check&& check, bool again = false) {
    NOTE(what); st.ops++;
    for (u64 n = 1; ; n += n < 40 ? 1 : 1 + n / 8) {
      prep();
      std::string err; bool oom = false;
      eng::fault_arm(n, st.all);
      try { act(); eng::fault_disarm(); }
      catch (std::bad_alloc const&) { eng::fault_disarm(); oom = true; err = "bad_alloc"; }
      catch (std::exception const& e) { eng::fault_disarm(); err = e.what(); }
      if (!eng::fault_hit()) { CHECK(err.empty(), std::string(what) + " failed without a fault: " + err); return; }
      st.faults++;
      if (err.empty()) { s.label("got along without the memory"); if (!again) return; continue; }
      (void)oom; // which exception reports it is not the point
      check(std::string(what) + " with allocation " + std::to_string(n) + " failing");
    }
  }

  template <template <class> class RC>
  struct World {
    using P = dart::basic_packet<RC>; using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using V = typename P::view;
    using PO = typename P::object; using PA = typename P::array; using PS = typename P::string;
    struct Doc { P p; Val m; bool fin; };
    Src& s; Opt o; Stats st; std::vector<Doc> docs;
    World(Src& s, Opt o) : s(s), o(o) { docs.reserve(8); }

    H mkh(Val const& v) {
      switch (v.t) {
        case Val::Obj: { auto o = H::make_object(); for (auto& p : v.o) o.add_field(sv(p.first), mkh(p.second)); return o; }
        case Val::Arr: { auto a = H::make_array(); for (auto& x : v.a) a.push_back(mkh(x)); return a; }
        case Val::Str: return H::make_string(sv(v.s));
        case Val::Int: return H::make_integer(v.i);
        case Val::Dec: return H::make_decimal(v.d);
        case Val::Bool: return H::make_boolean(v.b);
        default: return H::make_null();
      }
    }
    B mkb(Val const& v) { if (v.t == Val::Obj) return B {mkh(v)}; return B(H::make_object("value", mkh(v)))["value"]; }
    P mkp(Val const& v, bool fin) { if (fin) return mkb(v); return mkh(v); }
    Val small() { Opt q = o; q.depth = 1; q.width = 3; if (!s.draw(4)) return Val::str(std::string(20 + s.draw(40), 'x')); return s.draw(3) ? gen_scalar(s, q) : gen_val(s, q); }
    void add(P p, Val m, bool fin) { if (docs.size() < 5) docs.push_back({std::move(p), std::move(m), fin}); else docs[s.draw(docs.size())] = {std::move(p), std::move(m), fin}; }
    void add_new() { bool f = !s.draw(3); Val v = s.draw(4) ? s.flip() ? gen_obj(s, o) : gen_arr(s, o) : gen_val(s, o); add(mkp(v, f), v, f); }

    void same(P const& p, Val const& m, bool fin, std::string const& what) {
      CHECK(p.is_finalized() == fin, what + ": the state of a document changed");
      SAME(p, m, what);
    }
    void verify(std::string const& what) { for (auto& d : docs) same(d.p, d.m, d.fin, what); }

    template <class Act> void run(char const* what, Act&& act) { exhaust(s, st, what, [] {}, std::forward<Act>(act), [&] (std::string const& w) { verify(w); }); }
    template <class Act> void pure(char const* what, Act&& act) { exhaust(s, st, what, [] {}, std::forward<Act>(act), [&] (std::string const& w) { verify(w); }, true); }
    template <class Prep, class Act> void run(char const* what, Prep&& prep, Act&& act) { exhaust(s, st, what, std::forward<Prep>(prep), std::forward<Act>(act), [&] (std::string const& w) { verify(w); }); }

    // A value argument, in the forms that may need memory on the way in.
    template <class F> void with_value(Val& v, char const* what, F&& op) {
      v = small();
      switch (s.draw(8)) {
        case 0: { P x = mkp(v, false); run(what, [&] { op(x); }); SAME(x, v, "a copied argument"); break; }
        case 1: { P x = mkp(v, true); run(what, [&] { op(x); }); SAME(x, v, "a copied argument"); break; }
        case 2: { P x; run(what, [&] { x = mkp(v, false); }, [&] { op(std::move(x)); }); break; }
        case 3: { B x = mkb(v); run(what, [&] { op(x); }); SAME(x, v, "a copied argument"); break; }
        case 4: { H x = mkh(v); run(what, [&] { op(x); }); SAME(x, v, "a copied argument"); break; }
        case 5: { std::string t = "a string of more than fifteen bytes"; v = Val::str(t); run(what, [&] { op(t); }); break; }
        case 6: { std::vector<std::string> t {"one", "a string of more than fifteen bytes"}; v = Val::arr({Val::str(t[0]), Val::str(t[1])}); run(what, [&] { op(t); }); break; }
        default: { std::map<std::string, int> t {{"a", 1}, {"a key of more than fifteen bytes", 2}}; v = Val::obj(); for (auto& e : t) v.o[e.first] = Val::integer(e.second); run(what, [&] { op(t); }); }
      }
    }

    void mutate(Doc& d) {
      auto& p = d.p; auto& m = d.m; Val v;
      P alias; bool shared = s.flip(); if (shared) alias = p; Val am = m; // what else refers to the document
      s.label(shared ? "mutation, shared" : "mutation, sole owner");
      if (m.t == Val::Obj) {
        auto ks = keys_of(m); std::string k = gen_key(s, o, ks); bool has = !ks.empty(); std::string e = has ? s.pick(ks) : k;
        switch (s.draw(14)) {
          case 0: case 1: with_value(v, "insert", [&] (auto&& x) { p.insert(sv(k), std::forward<decltype(x)>(x)); }); m.o[k] = v; break;
          case 2: with_value(v, "add_field", [&] (auto&& x) { p.add_field(sv(k), std::forward<decltype(x)>(x)); }); m.o[k] = v; break;
          case 3: with_value(v, "insert, Dart key", [&] (auto&& x) { p.insert(k, std::forward<decltype(x)>(x)); }); m.o[k] = v; break;
          case 4: if (!has) break; with_value(v, "set", [&] (auto&& x) { p.set(sv(e), std::forward<decltype(x)>(x)); }); m.o[e] = v; break;
          case 5: if (!has) break; with_value(v, "set at a position", [&] (auto&& x) { p.set(p.find(sv(e)), std::forward<decltype(x)>(x)); }); m.o[e] = v; break;
          case 6: if (!has) break; with_value(v, "insert at a position", [&] (auto&& x) { p.insert(p.find(sv(e)), std::forward<decltype(x)>(x)); }); m.o[e] = v; break;
          case 7: if (!has) break; run("erase", [&] { p.erase(sv(e)); }); m.o.erase(e); break;
          case 8: if (!has) break; run("erase at a position", [&] { p.erase(p.find(sv(e))); }); m.o.erase(e); break;
          case 9: run("remove_field", [&] { p.remove_field(sv(e)); }); m.o.erase(e); break;
          case 10: run("clear", [&] { p.clear(); }); m.o.clear(); break;
          case 11: { auto& w = docs[s.draw(docs.size())]; run("insert another document", [&] { p.insert(sv(k), w.p); }); Val c = w.m; m.o[k] = c; break; }
          case 12: { with_value(v, "insert through a handle", [&] (auto&& x) { PO h {p}; h.insert(sv(k), std::forward<decltype(x)>(x)); }); break; }
          default: { PO h {p}; p = P::make_null(); d.m = Val::null(); with_value(v, "insert through the only handle", [&] (auto&& x) { h.insert(sv(k), std::forward<decltype(x)>(x)); }); p = h; d.m = am; m.o[k] = v; }
        }
      } else if (m.t == Val::Arr) {
        size_t n = m.a.size(), i = s.draw(n + 1), j = n ? s.draw(n) : 0;
        auto at = [&] (size_t k) { auto it = p.begin(); while (k--) ++it; return it; };
        switch (s.draw(16)) {
          case 0: case 1: with_value(v, "push_back", [&] (auto&& x) { p.push_back(std::forward<decltype(x)>(x)); }); m.a.push_back(v); break;
          case 2: with_value(v, "push_front", [&] (auto&& x) { p.push_front(std::forward<decltype(x)>(x)); }); m.a.insert(m.a.begin(), v); break;
          case 3: case 4: with_value(v, "insert", [&] (auto&& x) { p.insert(i, std::forward<decltype(x)>(x)); }); m.a.insert(m.a.begin() + i, v); break;
          case 5: with_value(v, "insert at a position", [&] (auto&& x) { p.insert(at(i), std::forward<decltype(x)>(x)); }); m.a.insert(m.a.begin() + i, v); break;
          case 6: if (!n) break; with_value(v, "set", [&] (auto&& x) { p.set(j, std::forward<decltype(x)>(x)); }); m.a[j] = v; break;
          case 7: if (!n) break; with_value(v, "set at a position", [&] (auto&& x) { p.set(at(j), std::forward<decltype(x)>(x)); }); m.a[j] = v; break;
          case 8: if (!n) break; run("erase", [&] { p.erase(j); }); m.a.erase(m.a.begin() + j); break;
          case 9: if (!n) break; run("erase at a position", [&] { p.erase(at(j)); }); m.a.erase(m.a.begin() + j); break;
          case 10: if (!n) break; if (s.flip()) { run("pop_back", [&] { p.pop_back(); }); m.a.pop_back(); } else { run("pop_front", [&] { p.pop_front(); }); m.a.erase(m.a.begin()); } break;
          case 11: run("clear", [&] { p.clear(); }); m.a.clear(); break;
          case 12: { size_t c = s.draw(12); with_value(v, "resize", [&] (auto&& x) { p.resize(c, x); }); m.a.resize(c, v); break; }
          case 13: { size_t c = s.draw(60); run("reserve", [&] { p.reserve(c); }); break; }
          case 14: { auto& w = docs[s.draw(docs.size())]; run("push another document", [&] { p.push_back(w.p); }); Val c = w.m; m.a.push_back(c); break; }
          default: { PA h {p}; p = P::make_null(); d.m = Val::null(); with_value(v, "push_back through the only handle", [&] (auto&& x) { h.push_back(std::forward<decltype(x)>(x)); }); p = h; d.m = am; m.a.push_back(v); }
        }
      } else if (m.t == Val::Str && s.flip()) {
        PS h {p}; std::string t = "and some more text, quite long"; run("append", [&] { h += sv(t); });
        CHECK(str(h.strv()) == m.s + t, "append");
      } else with_value(v, "assign", [&] (auto&& x) { assign(p, std::forward<decltype(x)>(x)); }), m = v;
      if (shared) SAME(alias, am, "another handle of a document that was changed");
      d.fin = p.is_finalized();
    }
    template <class T> void assign(P& p, T&& x) { p = std::forward<T>(x); }
    void assign(P& p, P const& x) { p = H {x}; }
    void assign(P& p, P&& x) { p = H {std::move(x)}; }

    void turn(Doc& d) {
      bool obj = d.m.t == Val::Obj;
      switch (s.draw(6)) {
        case 0: case 1: if (!obj && !d.fin) break; run("finalize", [&] { d.p.finalize(); }); d.fin = true; break;
        case 2: run("lift", [&] { d.p.lift(); }); d.fin = false; break;
        case 3: { if (!obj && !d.fin) break; B b; run("conversion to the immutable type", [&] { b = B {d.p}; }); SAME(b, d.m, "converted"); break; }
        case 4: { H h; run("conversion to the mutable type", [&] { h = H {d.p}; }); SAME(h, d.m, "converted"); break; }
        default: { if (!obj) break; PO h {d.p}; PO r {P::make_object()}; if (s.flip()) { run("finalize a handle", [&] { r = PO {P(h.finalize())}; }); } else run("lift a handle", [&] { r = PO {P(h.lift())}; }); SAME(P(r), d.m, "a turned handle"); }
      }
      s.label("state change");
    }

    void produce() { // new documents
      P r; Val v;
      bool fin = false;
      switch (s.draw(12)) {
        case 0: case 1: { Opt q = o; q.bytes = false; q.nul = false; v = gen_obj(s, q); auto t = json_write(v, &s); fin = s.flip();
          Val w; std::string err; if (!json_parse(t, w, err)) return;
          NOTE(t); pure("from_json", [&] { r = P::from_json(t, fin); }); s.label("from_json"); if (!near(extract(r), w, 8)) SAME(r, w, "from_json"); v = extract(r); break; }
        case 2: { Opt q = o; q.bytes = false; q.nul = false; v = gen_obj(s, q); auto t = json_write(v, &s); bool heap = s.flip(); Val w;
          try { w = extract(heap ? P(H::from_yaml(sv(t))) : P(B::from_yaml(sv(t)))); } catch (std::exception const&) { return; }
          pure("from_yaml", [&] { if (heap) r = H::from_yaml(sv(t)); else r = B::from_yaml(sv(t)); }); s.label("from_yaml"); v = w; fin = !heap; break; }
        case 3: { auto b = codec::encode(gen_obj(s, o)); void* q = nullptr; if (posix_memalign(&q, 8, b.size())) abort(); memcpy(q, b.data(), b.size());
          struct F { void* q; ~F() { free(q); } } f {q}; gsl::span<gsl::byte const> sp {(gsl::byte const*)q, (long)b.size()};
          v = extract(B {sp}); pure("from bytes", [&] { r = P {sp}; }); fin = true; break; }
        case 4: { auto x = docs[0].p; v = Val::obj(); std::string t (30, 'y'); v.o["a"] = Val::str(t); v.o["a rather long key, longer than sixteen"] = docs[0].m; v.o["c"] = Val::integer(3); pure("make_object", [&] { r = P::make_object("a", t, "a rather long key, longer than sixteen", x, "c", 3); }); break; }
        case 5: { auto x = docs[0].p; v = Val::arr({docs[0].m, Val::str(std::string(30, 'y')), Val::null()}); std::string t (30, 'y'); pure("make_array", [&] { r = P::make_array(x, t, nullptr); }); break; }
        case 6: { std::string a (s.draw(40), 'a'), b (s.draw(40), 'b'); v = Val::str(a + b); pure("make_string", [&] { r = P::make_string(sv(a), sv(b)); }); break; }
        case 7: { std::vector<P> xs; v = Val::arr(); for (auto& d : docs) { xs.push_back(d.p); v.a.push_back(d.m); } pure("make_array of a span", [&] { r = P::make_array(gsl::span<P const> {xs}); }); break; }
        case 8: { std::vector<P> xs; v = Val::obj(); for (auto& d : docs) { auto k = gen_key(s, o, keys_of(v)); xs.push_back(P::make_string(sv(k))); xs.push_back(d.p); v.o[k] = d.m; } pure("make_object of a span", [&] { r = P::make_object(gsl::span<P const> {xs}); }); break; }
        case 9: { std::vector<P> xs; v = Val::obj(); for (auto& d : docs) { auto k = gen_key(s, o, keys_of(v)); if (v.get(k)) continue; xs.push_back(P::make_string(sv(k))); xs.push_back(d.p); v.o[k] = d.m; } B b; pure("make an immutable object of a span", [&] { b = B::make_object(gsl::span<P const> {xs}); }); r = b; fin = true; break; }
        case 10: { std::map<std::string, std::vector<P>> t; v = Val::obj(); for (auto& d : docs) { t["key"].push_back(d.p); } v.o["key"] = Val::arr(); for (auto& d : docs) v.o["key"].a.push_back(d.m); pure("cast from a map of vectors", [&] { r = dart::convert::cast<P>(t); }); break; }
        default: { std::list<std::string> t; v = Val::arr(); for (size_t i = 0; i < 5; i++) { t.push_back(std::string(i * 6, 'z')); v.a.push_back(Val::str(t.back())); } pure("cast from a list", [&] { r = dart::convert::cast<P>(t); }); }
      }
      if (!fin && r.is_finalized()) fin = true;
      SAME(r, v, "a new document"); s.label("new document");
      add(r, v, r.is_finalized());
    }

    void read(Doc& d) {
      auto& p = d.p; auto& m = d.m; P r;
      s.label("reading");
      switch (s.draw(16)) {
        case 0: { std::string k = probe_key(s, m, o); if (m.t != Val::Obj) break; pure("get", [&] { r = p.get(sv(k)); }); if (auto* w = m.get(k)) SAME(r, *w, "get"); break; }
        case 1: { Val w; pure("walk", [&] { w = extract(p); }); CHECK(w == m, "walk"); break; }
        case 2: { std::vector<P> k; if (m.t != Val::Obj) break; pure("keys", [&] { k = p.keys(); }); CHECK(k.size() == m.o.size(), "keys"); break; }
        case 3: { std::vector<P> k; if (!m.is_agg()) break; pure("values", [&] { k = p.values(); }); CHECK(k.size() == m.size(), "values"); break; }
        case 4: { if (m.t != Val::Obj) break; std::vector<std::string> ks = keys_of(m); Val w = Val::obj(); std::vector<std::string> some; for (auto& k : ks) if (s.flip()) { some.push_back(k); w.o[k] = m.o[k]; } pure("project", [&] { r = p.project(gsl::span<std::string const> {some}); }); SAME(r, w, "project"); break; }
        case 5: { if (m.t != Val::Obj) break; std::string k = gen_key(s, o, keys_of(m)); Val w = m; w.o[k] = Val::integer(1); w.o["another rather long key"] = Val::str("x"); if (k == "another rather long key") break; pure("inject", [&] { r = p.inject(sv(k), 1, "another rather long key", "x"); }); SAME(r, w, "inject"); break; }
        case 6: { if (m.t != Val::Obj) break; auto k = probe_key(s, m, o); if (k.find('.') != std::string::npos) break; pure("get_nested", [&] { r = p.get_nested(sv(k)); }); if (auto* w = m.get(k)) { if (!k.empty()) SAME(r, *w, "get_nested"); } break; }
        case 7: { if (!d.fin || m.t != Val::Obj) break; size_t n = 0; auto x = p.dup_bytes(); pure("dup_bytes", [&] { x = p.dup_bytes(n); }); CHECK(n == (size_t)p.get_bytes().size() && !memcmp(x.get(), p.get_bytes().data(), n), "dup_bytes"); break; }
        case 8: { if (!d.fin || m.t != Val::Obj) break; RC<gsl::byte const> x {nullptr}; size_t n = 0; pure("share_bytes", [&] { n = p.share_bytes(x); }); break; }
        case 9: { if (m.t != Val::Arr) break; std::vector<P> v; std::deque<P> q; std::list<P> l; switch (s.draw(3)) { case 0: pure("as vector", [&] { v = p.template as<std::vector<P>>(); }); CHECK(v.size() == m.size(), "as vector"); break; case 1: pure("as deque", [&] { q = p.template as<std::deque<P>>(); }); CHECK(q.size() == m.size(), "as deque"); break; default: pure("as list", [&] { l = p.template as<std::list<P>>(); }); CHECK(l.size() == m.size(), "as list"); } break; }
        case 10: { if (m.t != Val::Obj) break; if (s.flip()) { std::map<std::string, P> v; pure("as map", [&] { v = p.template as<std::map<std::string, P>>(); }); CHECK(v.size() == m.size(), "as map"); } else { std::unordered_map<std::string, P> v; pure("as unordered_map", [&] { v = p.template as<std::unordered_map<std::string, P>>(); }); CHECK(v.size() == m.size(), "as unordered_map"); } break; }
        case 11: { if (!json_safe(m)) break; std::string j; pure("to_json", [&] { j = p.to_json(); }); CHECK(j == p.to_json(), "to_json"); break; }
        case 12: { pure("transmogrify", [&] { other(p, m); }); break; }
        case 13: { auto& w = docs[s.draw(docs.size())]; bool eq = false; pure("equality", [&] { eq = p == w.p; }); if (&w == &d) CHECK(eq, "a document equals itself"); CHECK(eq == (w.p == p), "equality"); break; }
        case 14: { pure("view", [&] { V v = p; SAME(v, m, "view"); r = v.as_owner(); }); SAME(r, m, "as_owner"); break; }
        default: { if (m.t != Val::Arr || m.a.empty()) break; size_t i = s.draw(m.a.size()); pure("index", [&] { r = p[i]; }); SAME(r, m.a[i], "index"); pure("front, back", [&] { r = p.front(); r = p.back(); }); SAME(r, m.a.back(), "back"); }
      }
    }
    template <template <class> class O> void trans(P const& p, Val const& m) { if (p.is_finalized() && m.t != Val::Obj) return; auto q = P::template transmogrify<O>(p); SAME(q, m, "transmogrify"); }
    void other(P const& p, Val const& m) { trans<dart::skinny_ptr>(p, m); }

    // Calls that must fail for their arguments: which error is not the point here.
    void errors(Doc& d) {
      auto& p = d.p; auto& m = d.m; std::string what; size_t n = m.size(); P x = mkp(small(), s.flip()); Val xm = extract(x);
      auto key = gen_key(s, o, keys_of(m)); std::string huge (65536 + s.draw(2000), 'k'); P const np = P::make_integer(4);
      bool obj = m.t == Val::Obj, arr = m.t == Val::Arr, mut = !d.fin; auto c = s.draw(30); bool must = true;
      std::vector<P> odd {P::make_string("a"), np, P::make_string("b")}, bad {np, np}, dup {P::make_string("a"), np, P::make_string("a"), np};
      auto go = [&] {
        switch (c) {
          case 0: what = "insert of an over-long key"; p.insert(sv(huge), x); break;
          case 1: what = "add_field of an over-long key"; p.add_field(sv(huge), 5); break;
          case 2: what = "insert past the end"; if (obj) p.set(sv(key + "?"), x); else p.insert(n + 1 + s.draw(4), x); break;
          case 3: what = "set past the end"; must = !obj; if (must) p.set(n + s.draw(3), x); break;
          case 4: what = "set of a missing key"; must = !m.get(key); if (must) p.set(sv(key), x); break;
          case 5: what = "a string key into a non-object"; must = !obj; if (must) p.insert(sv(key), x); break;
          case 6: what = "an index into a non-array"; must = !arr; if (must) p.insert(size_t(0), x); break;
          case 7: what = "push_back to a non-array"; must = !arr; if (must) p.push_back(x); break;
          case 8: what = "erase of a key in a non-object"; must = !obj; if (must) p.erase(sv(key)); break;
          case 9: what = "erase of an index in a non-array"; must = !arr; if (must) p.erase(size_t(0)); break;
          case 10: what = "resize of a non-array"; must = !arr; if (must) p.resize(3, x); break;
          case 11: what = "resize beyond any memory"; p.resize(~(size_t)0, x); break;
          case 12: what = "reserve beyond any memory"; p.reserve(~(size_t)0); break;
          case 13: what = "a key that is not a string"; must = !arr; if (must) p.insert(P::make_boolean(true), x); break;
          case 14: what = "a position of nothing"; p.insert(typename P::iterator {}, x); break;
          case 15: what = "erase of a position of nothing"; p.erase(typename P::iterator {}); break;
          case 16: what = "set of a position of nothing"; p.set(typename P::iterator {}, x); break;
          case 17: what = "inject of an odd list"; (void)p.inject(gsl::span<P const> {odd}); break;
          case 18: what = "inject of keys that are not strings"; (void)p.inject(gsl::span<P const> {bad}); break;
          case 19: what = "make_object of an odd list"; (void)P::make_object(gsl::span<P const> {odd}); break;
          case 20: what = "make_object of keys that are not strings"; (void)P::make_object(gsl::span<P const> {bad}); break;
          case 21: what = "an immutable object of an odd list"; (void)B::make_object(gsl::span<P const> {odd}); break;
          case 22: what = "an immutable object of duplicate keys"; (void)B::make_object(gsl::span<P const> {dup}); break;
          case 23: what = "finalizing a non-object"; must = mut && !obj; if (must) p.finalize(); break;
          case 24: what = "parsing"; (void)P::from_json("{\"a\": [1, 2, {\"b\": \"a rather long string in here\"}, tru", s.flip()); break;
          case 25: what = "parsing YAML"; (void)P::from_yaml("a: [1, 2, {b: 'a rather long string in here'}, }"); break;
          case 26: what = "at of a missing key"; must = !m.get(key); if (must) (void)p.at(sv(key)); break;
          case 27: what = "at past the end"; (void)p.at(n + s.draw(3)); break;
          case 28: what = "project of a non-object"; must = !obj; if (must) (void)p.project({sv(key)}); break;
          default: what = "an immutable object of an over-long key"; (void)B::make_object(sv(huge), x);
        }
      };
      // only some of these are errors for every document
      std::string got = "nothing"; u64 live = eng::live();
      try { go(); } catch (std::exception const& e) { got = e.what(); }
      NOTE(what + " -> " + got);
      if (must) CHECK(got != "nothing", what + " did not fail");
      same(p, m, d.fin, "after " + what); SAME(x, xm, "the argument of " + what); verify(what);
      (void)live; s.label("argument error"); st.ops++;
    }

    void step() {
      if (docs.empty()) { add_new(); return; }
      auto& d = docs[s.draw(docs.size())];
      NOTE("document " + eng::num(&d - &docs[0]) + (d.fin ? " (finalized) " : " ") + show(d.m, 120));
      switch (s.weigh({1, 6, 2, 3, 3, 2, 1})) {
        case 0: add_new(); break;
        case 1: if (d.fin) read(d); else mutate(d); break;
        case 2: turn(d); break;
        case 3: produce(); break;
        case 4: read(d); break;
        case 5: errors(d); break;
        default: docs.erase(docs.begin() + s.draw(docs.size()));
      }
      verify("the step");
    }
  };

  template <template <class> class RC>
  void history(Src& s, Opt const& o) {
    World<RC> w {s, o}; w.st.all = s.flip();
    int n = 2 + s.draw(9);
    for (int i = 0; i < n; i++) w.step();
    if (w.st.faults >= 3) s.nontrivial();
  }
  void run_unsafe(Src& s, Opt const& o);
  void run_c(Src& s, Opt const& o);
}
