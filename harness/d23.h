// D23: the generic type against the specific types, for one family of documents.
#pragma once
#include "ops.h"
#include <sstream>
#include <typeinfo>

namespace d23 {
  using namespace dl;

  // ---- every way to read a value, as a list of lines
  struct Log {
    std::vector<std::string> lines;
    template <class F> void operator ()(char const* what, F&& f) {
      std::string r;
      try { r = f(); }
      catch (dart::type_error const&) { r = "type_error"; }
      catch (dart::state_error const&) { r = "state_error"; }
      catch (std::out_of_range const&) { r = "out_of_range"; }
      catch (std::invalid_argument const&) { r = "invalid_argument"; }
      catch (std::logic_error const&) { r = "logic_error"; }
      catch (std::runtime_error const&) { r = "runtime_error"; }
      catch (std::exception const& e) { r = std::string("other exception ") + typeid(e).name(); }
      lines.push_back(std::string(what) + " -> " + r);
    }
  };
  template <class T> std::string sh(T const& p) { return show(extract(p), 100000); }
  inline std::string sh(bool b) { return b ? "true" : "false"; }
  inline std::string sh(i64 i) { return std::to_string(i); }
  inline std::string sh(size_t i) { return std::to_string(i); }
  inline std::string sh(double d) { u64 u; memcpy(&u, &d, 8); return std::to_string(u); }
  inline std::string sh(std::string const& s) { return eng::quote(s, 100000); }
  inline std::string sh(dart::shim::string_view s) { return sh(str(s)); }
  inline std::string sh(char const* s) { return s ? sh(std::string(s)) : "(null)"; }

  struct Probe { std::string key, key2, path; size_t idx; bool ck; };

  template <class T, class Key>
  void keyed(Log& log, T const& x, Key const& k, char const* what) {
    log(what, [&] {
      std::string r = "get " ;
      try { r += sh(x.get(k)); } catch (dart::type_error const&) { r += "type_error"; }
      try { r += " [] " + sh(x[k]); } catch (dart::type_error const&) { r += " type_error"; }
      try { r += " at " + sh(x.at(k)); } catch (dart::type_error const&) { r += " type_error"; } catch (std::out_of_range const&) { r += " out_of_range"; }
      return r;
    });
  }
  template <class T, class F>
  std::string taken(T const& x, F&& f) { // the same reading of an expiring handle
    T y = x; std::string r;
    try { T z = f(std::move(y)); r = sh(z); }
    catch (dart::type_error const&) { r = "type_error, left " + sh(y); }
    catch (std::out_of_range const&) { r = "out_of_range, left " + sh(y); }
    return r;
  }

  template <class H, class T>
  std::vector<std::string> battery(T const& x, Probe const& q) {
    Log log; typename H::string hk {H::make_string(sv(q.key))}; auto hk2 = H::make_string(sv(q.key2));
    log("value", [&] { return sh(x); });
    log("kinds", [&] { return sh(x.is_object()) + sh(x.is_array()) + sh(x.is_aggregate()) + sh(x.is_str()) + sh(x.is_integer()) + sh(x.is_decimal()) + sh(x.is_numeric()) + sh(x.is_boolean()) + sh(x.is_null()) + sh(x.is_primitive()) + sh((i64)x.get_type()) + sh(x.is_view()) + sh(x.is_finalized()); });
    keyed(log, x, sv(q.key), "by string");
    keyed(log, x, sv(q.key2), "by another string");
    keyed(log, x, q.idx, "by index");
    keyed(log, x, hk, "by Dart string");
    log("taken by string", [&] { return taken(x, [&] (T&& y) -> T { return std::move(y).get(sv(q.key)); }) + taken(x, [&] (T&& y) -> T { return std::move(y)[sv(q.key)]; }) + taken(x, [&] (T&& y) -> T { return std::move(y).at(sv(q.key)); }); });
    log("taken by index", [&] { return taken(x, [&] (T&& y) -> T { return std::move(y).get(q.idx); }) + taken(x, [&] (T&& y) -> T { return std::move(y)[q.idx]; }) + taken(x, [&] (T&& y) -> T { return std::move(y).at(q.idx); }); });
    log("taken front", [&] { return taken(x, [&] (T&& y) -> T { return std::move(y).front(); }) + taken(x, [&] (T&& y) -> T { return std::move(y).at_front(); }); });
    log("taken back", [&] { return taken(x, [&] (T&& y) -> T { return std::move(y).back(); }) + taken(x, [&] (T&& y) -> T { return std::move(y).at_back(); }); });
    log("front", [&] { return sh(x.front()); }); log("back", [&] { return sh(x.back()); });
    log("at_front", [&] { return sh(x.at_front()); }); log("at_back", [&] { return sh(x.at_back()); });
    log("get_nested", [&] { return sh(x.get_nested(sv(q.path))); }); log("get_nested /", [&] { return sh(x.get_nested(sv(q.path), '/')); });
    log("has_key", [&] { return sh(x.has_key(sv(q.key))); }); log("has_key", [&] { return sh(x.has_key(hk2)); });
    log("find", [&] { auto it = x.find(sv(q.key)); return it == x.end() ? std::string("end") : sh(*it); });
    log("find_key", [&] { auto it = x.find_key(sv(q.key)); return it == x.key_end() ? std::string("end") : sh(*it); });
    log("find_key, other", [&] { auto it = x.find_key(sv(q.key2)); return it == x.key_end() ? std::string("end") : sh(*it); });
    log("keys", [&] { std::string r; for (auto& k : x.keys()) r += sh(k) + ","; return r; });
    log("values", [&] { std::string r; for (auto& k : x.values()) r += sh(k) + ","; return r; });
    log("walk", [&] { std::string r; auto e = x.cend(); for (auto it = x.cbegin(); it != e; it++) r += sh(*it) + ","; return r; });
    log("walk back", [&] { std::string r; auto e = x.crend(); for (auto it = x.crbegin(); it != e; ++it) r += sh(*it) + ","; return r; });
    log("walk back", [&] { std::string r; auto e = x.rend(); for (auto it = x.rbegin(); it != e; ++it) r += sh(it->get_type() == x.get_type()) + ","; return r; });
    log("keys back", [&] { std::string r; auto e = x.rkey_end(); for (auto it = x.rkey_begin(); it != e; ++it) r += sh(*it) + ","; return r; });
    log("pairs", [&] { std::string r; typename T::iterator k, v; std::tie(k, v) = x.kvbegin(); auto e = x.kvend(); for (; v != std::get<1>(e); ++k, ++v) r += sh(*k) + ":" + sh(*v) + ","; return r + sh(k == std::get<0>(e)); });
    log("pairs back", [&] { std::string r; auto b = x.rkvbegin(); auto e = x.rkvend(); auto k = std::get<0>(b); auto v = std::get<1>(b); for (; v != std::get<1>(e); ++k, ++v) r += sh(*k) + ":" + sh(*v) + ","; return r + sh(k == std::get<0>(e)); });
    log("size", [&] { return sh(x.size()); }); log("empty", [&] { return sh(x.empty()); });
    log("capacity", [&] { return x.capacity() >= x.size() ? std::string("enough") : std::string("less than the size"); });
    log("strv", [&] { return sh(x.strv()); }); log("str", [&] { return sh(x.str()); });
    log("or", [&] { return sh(x.strv_or("dflt")) + sh(x.str_or("dflt")) + sh((i64)x.integer_or(77)) + sh(x.decimal_or(7.5)) + sh(x.numeric_or(3.25)) + sh(x.boolean_or(true)) + sh(x.boolean_or(false)); });
    log("integer", [&] { return sh((i64)x.integer()); }); log("decimal", [&] { return sh(x.decimal()); }); log("numeric", [&] { return sh(x.numeric()); }); log("boolean", [&] { return sh(x.boolean()); });
    log("bool", [&] { return sh(static_cast<bool>(x)); });
    log("as string", [&] { return sh(x.template as<std::string>()); }); log("as int", [&] { return sh((i64)x.template as<int64_t>()); }); log("as double", [&] { return sh(x.template as<double>()); }); log("as bool", [&] { return sh(x.template as<bool>()); });
    log("as vector", [&] { std::string r; for (auto& e : x.template as<std::vector<T>>()) r += sh(e) + ","; return r; });
    log("as map", [&] { std::string r; for (auto& e : x.template as<std::map<std::string, T>>()) r += sh(e.first) + sh(e.second) + ","; return r; });
    log("maybe", [&] { auto o = x.template maybe_as<int64_t>(); return o ? sh((i64)*o) : std::string("none"); });
    log("maybe string", [&] { auto o = x.template maybe_as<std::string>(); return o ? sh(*o) : std::string("none"); });
    log("json", [&] { return sh(x.to_json()); });
    log("json, nan", [&] { return sh(x.template to_json<dart::write_nan>()); });
    log("stream", [&] { std::ostringstream o; o << x; return sh(o.str()); });
    log("project", [&] { return sh(x.project({sv(q.key), sv(q.key2)})); });
    log("inject", [&] { return sh(x.inject(sv(q.key), 5, "added", "x")); });
    log("compare", [&] { return sh(x == 5) + sh(x == "x") + sh(x == true) + sh(x == 1.5) + sh(x == nullptr) + sh(5 != x) + sh(x == x); });
    log("typed", [&] { std::string r; auto t = [&] (auto* n, char const* w) { using N = std::decay_t<decltype(*n)>; try { N y {x}; r += sh(typename N::value_type(y)); } catch (dart::type_error const&) { r += std::string("not ") + w; } };
      t((typename T::object*)0, "object"); t((typename T::array*)0, "array"); t((typename T::string*)0, "string"); t((typename T::number*)0, "number"); t((typename T::flag*)0, "flag"); return r; });
    return log.lines;
  }

  template <template <class> class RC>
  struct World {
    using P = dart::basic_packet<RC>; using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using V = typename P::view;
    using PO = typename P::object; using PA = typename P::array;
    struct Doc { P p; Val m; bool fin; };
    Src& s; Opt o; std::vector<Doc> docs; int steps = 0, refused = 0, turned = 0;
    World(Src& s, Opt o) : s(s), o(o) { docs.reserve(8); }

    H mkh(Val const& v) {
      switch (v.t) {
        case Val::Obj: { auto o = H::make_object(); for (auto& p : v.o) o.add_field(sv(p.first), mkh(p.second)); return o; }
        case Val::Arr: { auto a = H::make_array(); for (auto& x : v.a) a.push_back(mkh(x)); return a; }
        case Val::Str: return H::make_string(sv(v.s));
        case Val::Int: return H::make_integer(v.i);
        case Val::Dec: return H::make_decimal(v.d);
        case Val::Bool: return H::make_boolean(v.b);
        default: return H::make_null();
      }
    }
    B mkb(Val const& v) { if (v.t == Val::Obj) return B {mkh(v)}; return B(H::make_object("value", mkh(v)))["value"]; }
    P mkp(Val const& v, bool fin) { if (fin) return mkb(v); return mkh(v); }
    Val small() { Opt q = o; q.depth = 1; q.width = 3; return s.draw(3) ? gen_scalar(s, q) : gen_val(s, q); }
    void add(P p, Val m, bool fin) { if (docs.size() < 6) docs.push_back({std::move(p), std::move(m), fin}); else docs[s.draw(docs.size())] = {std::move(p), std::move(m), fin}; }
    void add_new() { bool f = s.flip(); Val v = s.draw(3) ? gen_obj(s, o) : gen_val(s, o); add(mkp(v, f), v, f); }

    void same(P const& p, Val const& m, bool fin, std::string const& what) {
      CHECK(p.is_finalized() == fin, what + ": the document is " + (fin ? "no longer finalized" : "finalized"));
      SAME(p, m, what);
    }
    void verify(std::string const& what) { for (auto& d : docs) same(d.p, d.m, d.fin, what); }

    Probe probe(Val const& m) {
      Probe q; q.key = probe_key(s, m, o); q.key2 = probe_key(s, m, o);
      q.idx = s.draw(4) ? s.draw(m.size() + 2) : (size_t)s.draw(0) >> 1;
      q.path = q.key; Val const* sub = m.get(q.key);
      while (sub && s.flip()) { auto k = probe_key(s, *sub, o); q.path += s.flip() ? "." : "/"; q.path += k; sub = sub->get(k); }
      return q;
    }
    template <class T> void transparent(P const& p, T const& t, Probe const& q, char const* form) {
      auto a = battery<H>(p, q), b = battery<H>(t, q);
      CHECK(a.size() == b.size(), "battery");
      for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i], "the generic document reads as " + eng::quote(a[i], 400) + " and its " + form + " form as " + eng::quote(b[i], 400) + " (key " + eng::quote(q.key) + ", " + eng::quote(q.key2) + ", path " + eng::quote(q.path) + ", index " + eng::num(q.idx) + ")");
    }

    // Each of these changes a mutable document; a finalized one refuses it.
    void refuse(Doc& d) {
      auto& p = d.p; std::string k = probe_key(s, d.m, o); size_t i = s.draw(d.m.size() + 2); Val v = small(); bool vf = s.flip();
      P x = mkp(v, vf); std::string text = "text"; std::string what; bool position = false;
      auto n = s.draw(46);
      auto go = [&] {
        switch (n) {
          case 0: what = "insert(key, packet)"; p.insert(sv(k), x); break;
          case 1: what = "insert(key, packet&&)"; p.insert(sv(k), std::move(x)); break;
          case 2: what = "insert(key, integer)"; p.insert(sv(k), 5); break;
          case 3: what = "insert(index, packet&&)"; p.insert(i, std::move(x)); break;
          case 4: what = "insert(index, string)"; p.insert(i, text); break;
          case 5: what = "insert(Dart key, packet)"; p.insert(P::make_string(sv(k)), x); break;
          case 6: what = "set(key, packet)"; p.set(sv(k), x); break;
          case 7: what = "set(key, packet&&)"; p.set(sv(k), std::move(x)); break;
          case 8: what = "set(index, packet&&)"; p.set(i, std::move(x)); break;
          case 9: what = "set(index, integer)"; p.set(i, 1); break;
          case 10: what = "add_field"; p.add_field(sv(k), x); break;
          case 11: what = "add_field(packet&&)"; p.add_field(sv(k), std::move(x)); break;
          case 12: what = "add_field &&"; (void)std::move(p).add_field(sv(k), std::move(x)); break;
          case 13: what = "remove_field"; p.remove_field(sv(k)); break;
          case 14: what = "remove_field &&"; (void)std::move(p).remove_field(sv(k)); break;
          case 15: what = "remove_field(Dart key)"; p.remove_field(P::make_string(sv(k))); break;
          case 16: what = "erase(key)"; p.erase(sv(k)); break;
          case 17: what = "erase(Dart key)"; p.erase(P::make_string(sv(k))); break;
          case 18: what = "erase(index)"; p.erase(i); break;
          case 19: what = "erase(Dart index)"; p.erase(P::make_integer(i)); break;
          case 20: what = "clear"; p.clear(); break;
          case 21: what = "push_back"; p.push_back(x); break;
          case 22: what = "push_back(packet&&)"; p.push_back(std::move(x)); break;
          case 23: what = "push_back &&"; (void)std::move(p).push_back(std::move(x)); break;
          case 24: what = "push_front"; p.push_front(1.5); break;
          case 25: what = "push_front(packet&&)"; p.push_front(std::move(x)); break;
          case 26: what = "pop_back"; p.pop_back(); break;
          case 27: what = "pop_front"; p.pop_front(); break;
          case 28: what = "pop_back &&"; (void)std::move(p).pop_back(); break;
          case 29: what = "reserve"; p.reserve(i); break;
          case 30: what = "resize"; p.resize(i); break;
          case 31: what = "resize with a value"; p.resize(i, x); break;
          case 32: what = "= integer"; p = 5; break;
          case 33: what = "= string"; p = "text"; break;
          case 34: what = "= heap"; p = mkh(v); break;
          case 35: what = "= buffer"; p = mkb(v); break;
          case 36: what = "= vector"; p = std::vector<int> {1, 2}; break;
          case 37: what = "= nullptr"; p = nullptr; break;
          case 38: what = "object handle insert"; if (d.m.t != Val::Obj) { p.clear(); break; } { PO h {p}; h.insert(sv(k), x); } break;
          case 39: what = "object handle erase"; if (d.m.t != Val::Obj) { p.clear(); break; } { PO h {p}; h.erase(sv(k)); } break;
          case 40: what = "array handle push_back"; if (d.m.t != Val::Arr) { p.clear(); break; } { PA h {p}; h.push_back(x); } break;
          case 41: what = "array handle resize"; if (d.m.t != Val::Arr) { p.clear(); break; } { PA h {p}; h.resize(i); } break;
          case 42: what = "insert(position)"; position = d.m.is_agg(); if (!position) { p.clear(); break; } p.insert(p.begin(), x); break;
          case 43: what = "set(position)"; position = d.m.is_agg(); if (!position) { p.clear(); break; } p.set(p.begin(), std::move(x)); break;
          case 44: what = "erase(position)"; position = d.m.is_agg(); if (!position) { p.clear(); break; } p.erase(p.begin()); break;
          default: { // a position in some mutable document
            what = "insert(position of another document)"; H other = d.m.t == Val::Arr ? H::make_array(1, 2) : H::make_object("a", 1); P po = other; position = s.flip();
            if (position) p.insert(po.begin(), x); else p.erase(po.begin()); position = false;
          }
        }
      };
      NOTE("refused: operation " + eng::num(n));
      std::string got = "nothing";
      try { go(); } catch (dart::state_error const&) { got = "state_error"; } catch (dart::type_error const&) { got = "type_error"; } catch (std::exception const& e) { got = e.what(); }
      NOTE(what + " -> " + got);
      CHECK(got == "state_error" || (position && got == "type_error"), "changing a finalized document (" + what + ") threw " + got + " instead of state_error");
      same(p, d.m, true, "after a refused " + what);
      same(x, v, vf, "the argument of a refused " + what);
      s.label("refused change"); refused++;
    }

    void change(Doc& d) {
      auto j = s.draw(docs.size());
      auto what = mutate_doc(s, d.p, d.m, o, [&] {
        if (s.draw(3)) { Val v = small(); return std::make_pair(mkp(v, s.flip()), v); }
        auto& w = docs[j]; return std::make_pair(P(w.p), Val(w.m)); });
      NOTE(what); s.label("change");
    }

    void turn(Doc& d) { // finalize, lift
      bool obj = d.m.t == Val::Obj; auto how = s.draw(10);
      turned++;
      if (how < 5) {
        if (!d.fin && !obj) {
          auto attempt = [&] { switch (how) { case 0: d.p.finalize(); break; case 1: d.p.lower(); break; case 2: (void)std::move(d.p).finalize(); break; case 3: (void)std::move(d.p).lower(); break; default: { P q = d.p; (void)std::move(q).lower(); } } };
          THROWS(dart::type_error, attempt(), "finalizing a mutable non-object"); s.label("finalize refused");
        } else {
          NOTE("finalize"); s.label(d.fin ? "finalize again" : "finalize");
          switch (how) {
            case 0: CHECK(&d.p.finalize() == &d.p, "finalize returns its document"); break;
            case 1: CHECK(&d.p.lower() == &d.p, "lower returns its document"); break;
            case 2: { P q = d.p; P r = std::move(q).finalize(); same(d.p, d.m, d.fin, "finalizing a copy"); d.p = std::move(r); break; }
            case 3: { P q = d.p; P r = std::move(q).lower(); same(d.p, d.m, d.fin, "lowering a copy"); d.p = r; break; }
            default: if (obj) { PO h {d.p}; auto l = h.finalize(); CHECK(l.is_finalized(), "a finalized handle"); same(d.p, d.m, d.fin, "finalizing a handle"); d.p = P(l); } else d.p.finalize(); break;
          }
          d.fin = true;
        }
      } else {
        NOTE("lift"); s.label(d.fin ? "lift" : "lift again");
        switch (how) {
          case 5: CHECK(&d.p.lift() == &d.p, "lift returns its document"); break;
          case 6: CHECK(&d.p.definalize() == &d.p, "definalize returns its document"); break;
          case 7: { P q = d.p; P r = std::move(q).lift(); same(d.p, d.m, d.fin, "lifting a copy"); d.p = std::move(r); break; }
          case 8: { P q = d.p; P r = std::move(q).definalize(); same(d.p, d.m, d.fin, "definalizing a copy"); d.p = r; break; }
          default: if (obj) { PO h {d.p}; auto l = h.lift(); CHECK(!l.is_finalized(), "a lifted handle"); same(d.p, d.m, d.fin, "lifting a handle"); d.p = P(l); } else d.p.lift(); break;
        }
        d.fin = false;
      }
      same(d.p, d.m, d.fin, "turning");
      auto other = d.p; if (d.m.t == Val::Obj) { if (d.fin) other.lift(); else other.finalize(); CHECK(d.p == other && other == d.p && !(d.p != other), "a document equals itself in the other state"); }
    }

    void is(H const& h, Val const& m, char const* what) { SAME(h, m, what); CHECK(!h.is_finalized(), "a heap is not finalized"); }
    void is(B const& b, Val const& m, char const* what) { SAME(b, m, what); CHECK(b.is_finalized(), "a buffer is finalized"); }

    void convert(Doc& d) {
      bool can = d.fin || d.m.t == Val::Obj; // has an immutable form
      auto to = s.draw(9); turned++;
      NOTE("convert " + eng::num(to)); s.label("conversion");
      switch (to) {
        case 0: case 1: { // to the mutable type
          P q = d.p; H h;
          switch (s.draw(6)) {
            case 0: h = H {d.p}; break;
            case 1: h = static_cast<H>(std::move(q)); break;
            case 2: h = d.p.template as<H>(); break;
            case 3: h = dart::convert::cast<H>(d.p); break;
            case 4: h = d.p; break;
            default: h = dart::convert::cast<H>(std::move(q)); break;
          }
          is(h, d.m, "converted to the mutable type"); same(d.p, d.m, d.fin, "the source of a conversion");
          switch (s.draw(4)) {
            case 0: { P r = h; add(r, d.m, false); break; }
            case 1: { P r {std::move(h)}; add(std::move(r), d.m, false); break; }
            case 2: { auto r = h.template as<P>(); is(h, d.m, "the source of a conversion"); add(r, d.m, false); break; }
            default: { auto r = dart::convert::cast<P>(h); is(h, d.m, "the source of a conversion"); add(r, d.m, false); break; }
          }
          break;
        }
        case 2: case 3: { // to the immutable type
          P q = d.p; B b;
          auto r = s.draw(6);
          auto go = [&] {
            switch (r) {
              case 0: b = B {d.p}; break;
              case 1: b = static_cast<B>(std::move(q)); break;
              case 2: b = d.p.template as<B>(); break;
              case 3: b = dart::convert::cast<B>(d.p); break;
              case 4: b = static_cast<B>(d.p); break;
              default: b = dart::convert::cast<B>(std::move(q)); break;
            }
          };
          if (!can) { THROWS(dart::type_error, go(), "making a mutable non-object immutable"); same(q, d.m, d.fin, "the source of a refused conversion"); same(d.p, d.m, d.fin, "the source of a refused conversion"); s.label("conversion refused"); break; }
          go(); is(b, d.m, "converted to the immutable type"); same(d.p, d.m, d.fin, "the source of a conversion");
          switch (s.draw(3)) {
            case 0: { P r2 = b; add(r2, d.m, true); break; }
            case 1: { P r2 {std::move(b)}; add(std::move(r2), d.m, true); break; }
            default: { auto r2 = dart::convert::cast<P>(b); is(b, d.m, "the source of a conversion"); add(r2, d.m, true); break; }
          }
          break;
        }
        case 4: { // mutable to immutable and back without the generic type
          H h {d.p};
          if (d.m.t != Val::Obj) {
            auto r = s.draw(4);
            THROWS(dart::type_error, ([&] { switch (r) { case 0: (void)h.finalize(); break; case 1: (void)h.lower(); break; case 2: (void)B(h); break; default: (void)dart::convert::cast<B>(h); } }()), "making a mutable non-object immutable");
            is(h, d.m, "the source of a refused conversion"); break;
          }
          B b; switch (s.draw(5)) { case 0: b = h.finalize(); break; case 1: b = h.lower(); break; case 2: b = B {h}; break; case 3: b = dart::convert::cast<B>(h); break; default: { H c = h; b = B {std::move(c)}; } }
          is(b, d.m, "heap to buffer"); is(h, d.m, "the source of a conversion");
          H g; switch (s.draw(5)) { case 0: g = b.lift(); break; case 1: g = b.definalize(); break; case 2: g = H {b}; break; case 3: g = dart::convert::cast<H>(b); break; default: { B c = b; g = H {std::move(c)}; } }
          is(g, d.m, "buffer to heap"); is(b, d.m, "the source of a conversion");
          CHECK(g == b && b == g && g == h && d.p == g && b == d.p, "conversions keep documents equal");
          break;
        }
        case 5: { // views
          V v = d.p; CHECK(v.is_view() && !d.p.is_view(), "a view says so");
          CHECK(v.is_finalized() == d.fin, "a view has the state of its document"); SAME(v, d.m, "a view"); CHECK(v == d.p && d.p == v, "a view equals its document");
          P back = v.as_owner(); add(back, d.m, d.fin); same(back, d.m, d.fin, "the owner made from a view");
          break;
        }
        case 6: { // typed handles
          auto typed = [&] (auto* n, bool right) {
            using N = std::decay_t<decltype(*n)>;
            if (!right) { THROWS(dart::type_error, N {d.p}, "a handle of the wrong type"); P q = d.p; THROWS(dart::type_error, N {std::move(q)}, "a handle of the wrong type"); return; }
            N h {d.p}; CHECK(h.is_finalized() == d.fin, "a typed handle has the state of its document");
            P q; switch (s.draw(3)) { case 0: q = P(h); break; case 1: { N c = h; q = P(std::move(c)); break; } default: q = h.dynamic(); }
            same(q, d.m, d.fin, "a document from a typed handle"); same(d.p, d.m, d.fin, "the source of a typed handle");
          };
          auto t = d.m.t;
          typed((typename P::object*)0, t == Val::Obj); typed((typename P::array*)0, t == Val::Arr); typed((typename P::string*)0, t == Val::Str);
          typed((typename P::number*)0, t == Val::Int || t == Val::Dec); typed((typename P::flag*)0, t == Val::Bool);
          break;
        }
        case 7: { // assignment
          auto& w = docs[s.draw(docs.size())];
          NOTE("assign");
          switch (s.draw(4)) {
            case 0: { P c = w.p; d.p = w.p; d.m = Val(w.m); d.fin = w.fin; break; }
            case 1: { P c = w.p; Val m = w.m; bool f = w.fin; d.p = std::move(c); d.m = m; d.fin = f; break; }
            case 2: { if (&w == &d) break; std::swap(d.p, w.p); std::swap(d.m, w.m); std::swap(d.fin, w.fin); break; }
            default: { // from the specific types: a change of the value, which needs the mutable state
              if (d.fin) break;
              Val m = w.m;
              if (s.flip()) { H h {w.p}; if (s.flip()) d.p = h; else d.p = std::move(h); }
              else if (w.fin) { B b {w.p}; if (s.flip()) d.p = b; else d.p = std::move(b); CHECK(!d.p.is_finalized() || !d.fin, "assigned"); d.fin = d.p.is_finalized(); }
              else break;
              d.m = m;
            }
          }
          break;
        }
        default: { // reading out of an expiring handle leaves the value in it
          auto q = probe(d.m); P c = d.p; P const& cc = d.p; auto r = s.draw(8);
          auto read = [&] () -> P { switch (r) { case 0: return cc.get(sv(q.key)); case 1: return cc[sv(q.key)]; case 2: return cc.at(sv(q.key)); case 3: return cc.get(q.idx); case 4: return cc[q.idx]; case 5: return cc.at(q.idx); case 6: return cc.front(); default: return cc.back(); } };
          auto take = [&] { switch (r) { case 0: (void)std::move(c).get(sv(q.key)); break; case 1: (void)std::move(c)[sv(q.key)]; break; case 2: (void)std::move(c).at(sv(q.key)); break; case 3: (void)std::move(c).get(q.idx); break; case 4: (void)std::move(c)[q.idx]; break; case 5: (void)std::move(c).at(q.idx); break; case 6: (void)std::move(c).front(); break; default: (void)std::move(c).back(); } };
          P want; bool threw = false; try { want = read(); } catch (std::logic_error const&) { threw = true; }
          if (threw) { bool t2 = false; try { take(); } catch (std::logic_error const&) { t2 = true; } CHECK(t2, "reading an expiring handle fails as reading a lasting one does"); same(c, d.m, d.fin, "after a failed reading of an expiring handle"); break; }
          take(); same(c, extract(want), want.is_finalized(), "taken out of an expiring handle"); CHECK(want.is_finalized() == d.fin, "a part has the state of the whole");
          Val part = extract(want); add(c, part, d.fin); s.label("taken part");
        }
      }
    }

    void step() {
      if (docs.empty()) { add_new(); return; }
      auto i = s.draw(docs.size()); auto& d = docs[i];
      NOTE("document " + eng::num(i) + (d.fin ? " (finalized) " : " ") + show(d.m, 120));
      switch (s.weigh({1, 4, 3, 4, 4, 2, 1})) {
        case 0: add_new(); break;
        case 1: if (d.fin) refuse(d); else change(d); break;
        case 2: turn(d); break;
        case 3: convert(d); break;
        case 4: if (d.fin) { auto q = probe(d.m); transparent(d.p, B {d.p}, q, "immutable"); s.label("read finalized"); } else { auto q = probe(d.m); transparent(d.p, H {d.p}, q, "mutable"); s.label("read mutable"); } break;
        case 5: { // raw bytes belong to the finalized state
          if (d.fin && d.m.t != Val::Obj) THROWS(dart::type_error, d.p.get_bytes(), "bytes of a non-object");
          else if (d.fin) { B b {d.p}; CHECK(d.p.get_bytes().data() == b.get_bytes().data() && d.p.get_bytes().size() == b.get_bytes().size(), "bytes of the generic type"); size_t n = 0; auto dup = d.p.dup_bytes(n); CHECK(n == (size_t)b.get_bytes().size() && !memcmp(dup.get(), b.get_bytes().data(), n), "duplicated bytes"); }
          else { THROWS(dart::state_error, d.p.get_bytes(), "bytes of a mutable document"); THROWS(dart::state_error, d.p.dup_bytes(), "bytes of a mutable document"); RC<gsl::byte const> out {nullptr}; THROWS(dart::state_error, d.p.share_bytes(out), "bytes of a mutable document"); }
          s.label("bytes"); break; }
        default: { size_t j = s.draw(docs.size()); docs.erase(docs.begin() + j); }
      }
      verify("the step"); steps++;
    }
  };

  template <template <class> class RC>
  void history(Src& s, Opt const& o) {
    World<RC> w {s, o};
    int n = 3 + s.draw(20);
    for (int i = 0; i < n; i++) w.step();
    if (w.refused && w.turned > 1) s.nontrivial();
  }
  void run_unsafe(Src& s, Opt const& o);
}
