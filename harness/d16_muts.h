#pragma once
#include "d16_reads.h"

namespace d16 {
  template <class D> void agree(typename D::object& t, D& u, char const* what) { auto a = sh(t.dynamic()), b = sh(u); CHECK(a == b, who + ": after " + what + " typed " + a + ", untyped " + b); }
  template <class T, class D> void agree(T& t, D& u, std::string const& what) { auto a = sh(t.dynamic()), b = sh(u); CHECK(a == b, who + ": after " + what + " typed " + a + ", untyped " + b); CHECK(t.is_finalized() == u.is_finalized(), who + ": state after " + what); }

  template <class T> auto shx2(T const& x, int) -> decltype(sh(x.dynamic())) { return sh(x.dynamic()); }
  template <class T> std::string shx2(T const& x, long) { return sh(x); }
  template <class T> std::string shx(T const& x) { return shx2(x, 0); }

  template <class W> void state(Src& s, W& t, dart::heap& u) {
    // Mutable documents give a finalized copy.
    BOTH(shx(decltype(x.finalize())(x.finalize()))); BOTH(shx(x.lower())); BOTH(shx(x.lift())); BOTH(shx(x.definalize()));
    auto a = outcome([&] { auto c = t; return shx(std::move(c).finalize()); }), b = outcome([&] { auto c = u; return shx(std::move(c).finalize()); });
    CHECK(a == b, who + ": finalizing an expiring one: typed " + a + ", untyped " + b);
  }
  template <class W> void state(Src& s, W& t, dart::packet& u) {
    switch (s.draw(4)) {
      case 0: BOTH(VOID(x.finalize())); break;
      case 1: BOTH(VOID(x.lower())); break;
      case 2: BOTH(VOID(x.definalize())); break;
      default: BOTH(VOID(x.lift()));
    }
    auto a = outcome([&] { auto c = t; dart::packet r = std::move(c).finalize(); return shx(r) + sh(r.is_finalized()); }), b = outcome([&] { auto c = u; dart::packet r = std::move(c).finalize(); return shx(r) + sh(r.is_finalized()); });
    CHECK(a == b, who + ": finalizing an expiring one: typed " + a + ", untyped " + b);
    auto d = outcome([&] { auto c = t; dart::packet r = std::move(c).lift(); return shx(r) + sh(r.is_finalized()); }), e = outcome([&] { auto c = u; dart::packet r = std::move(c).lift(); return shx(r) + sh(r.is_finalized()); });
    CHECK(d == e, who + ": lifting an expiring one: typed " + d + ", untyped " + e);
  }

  // A value argument in one of the C++ types it can come in.
  template <class D, class F> void with_value(Src& s, Val const& v, F&& f) {
    switch (v.t) {
      case Val::Int: if (s.flip()) return f(v.i); break;
      case Val::Dec: if (s.flip()) return f(v.d); break;
      case Val::Bool: if (s.flip()) return f(v.b); break;
      case Val::Str: switch (s.draw(3)) { case 0: return f(v.s); case 1: return f(sv(v.s)); default: return f(typename D::string {sv(v.s)}); }
      case Val::Null: if (s.flip()) return f(nullptr); break;
      default: break;
    }
    if (s.flip()) f(conv<D>::mk(v)); else f(build_subbuffer(v));
  }

  template <class W, class D> void assign_map(Src& s, W& t, D& u, Opt const& o) {
    std::map<std::string, int> m; std::multimap<std::string, std::string> mm;
    for (int n = s.draw(5); n--;) { m[gen_key(s, o, {})] = (int)s.range(-9, 9); mm.emplace(s.flip() ? "k" : gen_key(s, o, {}), gen_str(s, o)); }
    std::unordered_map<std::string, double> um(m.begin(), m.end());
    std::map<std::string, D> md; for (auto& p : m) md.emplace(p.first, D::make_integer(p.second));
    std::unordered_multimap<std::string, std::string> umm(mm.begin(), mm.end());
    switch (s.draw(8)) {
      case 0: BOTH(VOID(x = m)); break;
      case 1: BOTH(VOID(x = um)); break;
      case 2: BOTH(VOID(x = md)); break;
      case 3: BOTH(VOID(x = std::map<std::string, D>(md))); break;
      case 4: BOTH(VOID(x = mm)); break;
      case 5: BOTH(VOID(x = umm)); break;
      case 6: BOTH(VOID(x = std::multimap<std::string, std::string>(mm))); break;
      default: BOTH(VOID(x = std::unordered_map<std::string, double>(um)));
    }
  }
  template <class W, class D> void assign_seq(Src& s, W& t, D& u, Opt const& o) {
    std::vector<std::string> m; for (int n = s.draw(5); n--;) m.push_back(gen_str(s, o));
    std::list<D> l; for (auto& e : m) l.push_back(D::make_string(sv(e)));
    std::deque<int> dq; for (auto& e : m) dq.push_back((int)e.size());
    std::set<std::string> st(m.begin(), m.end()); std::unordered_set<int> us(dq.begin(), dq.end()); std::multiset<double> ms(dq.begin(), dq.end());
    std::array<std::string, 2> ar {{m.empty() ? "" : m[0], "x"}}; std::forward_list<bool> fl; for (auto& e : m) fl.push_front(e.size() > 1);
    switch (s.draw(12)) {
      case 0: BOTH(VOID(x = m)); break;
      case 1: BOTH(VOID(x = std::vector<std::string>(m))); break;
      case 2: BOTH(VOID(x = l)); break;
      case 3: BOTH(VOID(x = std::list<D>(l))); break;
      case 4: BOTH(VOID(x = dq)); break;
      case 5: BOTH(VOID(x = st)); break;
      case 6: BOTH(VOID(x = us)); break;
      case 7: BOTH(VOID(x = ms)); break;
      case 8: BOTH(VOID(x = ar)); break;
      case 9: BOTH(VOID(x = fl)); break;
      case 10: BOTH(VOID(x = std::set<std::string>(st))); break;
      default: BOTH(VOID(x = std::array<std::string, 2>(ar)));
    }
  }

  template <class D> void muts_object(Src& s, D const& doc, Val const& v, Opt const& o) {
    typename D::object t {doc}; D u = doc;
    Val base = v;
    for (int n = 1 + s.draw(8); n--;) {
      auto cur = extract(u); auto ks = keys_of(cur);
      auto k = gen_key(s, o, ks); Val w = gen_val(s, o);
      switch (s.weigh({4, 4, 3, 3, 3, 1, 2, 2, 2, 1, 2})) {
        case 0: NOTE("add_field"); with_key<D>(s, k, [&](auto const& key) { with_value<D>(s, w, [&](auto const& val) { BOTH(VOID(x.add_field(key, val))); }); }); break;
        case 1: NOTE("insert"); with_key<D>(s, k, [&](auto const& key) { with_value<D>(s, w, [&](auto const& val) { BOTH(pos(x, x.insert(key, val))); }); }); break;
        case 2: NOTE("set"); if (!ks.empty() && s.draw(5)) k = s.pick(ks); with_key<D>(s, k, [&](auto const& key) { with_value<D>(s, w, [&](auto const& val) { BOTH(pos(x, x.set(key, val))); }); }); break;
        case 3: NOTE("remove_field"); if (!ks.empty() && s.draw(5)) k = s.pick(ks); with_key<D>(s, k, [&](auto const& key) { BOTH(VOID(x.remove_field(key))); }); break;
        case 4: NOTE("erase"); if (!ks.empty() && s.draw(5)) k = s.pick(ks); with_key<D>(s, k, [&](auto const& key) { BOTH(pos(x, x.erase(key))); }); break;
        case 5: NOTE("clear"); BOTH(VOID(x.clear())); break;
        case 6: NOTE("chained add_field");
          { auto f = [&](auto&& x) { return sh(std::move(x).add_field(sv(k), 1).add_field("other", sv(k)).remove_field("absent")); };
            (void)f;
            auto a = outcome([&] { auto c = t; typename D::object r = std::move(c).add_field(sv(k), 1).add_field("other", sv(k)).remove_field(sv(k)); return sh(r.dynamic()); }),
                 b = outcome([&] { auto c = u; D r = std::move(c).add_field(sv(k), 1).add_field("other", sv(k)).remove_field(sv(k)); return sh(r); });
            CHECK(a == b, who + ": chained on expiring: typed " + a + ", untyped " + b); }
          break;
        case 7: NOTE("assign container"); if (t.is_finalized()) break; assign_map(s, t, u, o); break;
        case 8: { // at positions
          if (ks.empty()) break; size_t i = s.draw(ks.size()); int what = s.draw(2);
          NOTE("at a position");
          auto nth = [&](auto& x) { auto it = x.begin(); for (size_t j = 0; j < i; j++) ++it; return it; };
          if (what) BOTH(pos(x, x.insert(nth(x), 5))); else BOTH(pos(x, x.set(nth(x), "here")));
          break; }
        case 9: { NOTE("copies are independent"); auto c = t; auto before = sh(t.dynamic()); outcome([&] { c.add_field("fresh", 1); return sh(true); }); CHECK(sh(t.dynamic()) == before, who + ": copy of the wrapper shares changes"); break; }
        default: NOTE("change of state"); state(s, t, u);
      }
      agree(t, u, std::string("operation"));
    }
    (void)base;
  }

  template <class D> void muts_array(Src& s, D const& doc, Val const& v, Opt const& o) {
    typename D::array t {doc}; D u = doc;
    for (int n = 1 + s.draw(8); n--;) {
      size_t len = u.size(); size_t i = s.draw(len + 2); Val w = gen_val(s, o);
      switch (s.weigh({4, 4, 3, 3, 3, 2, 2, 1, 2, 2, 2, 2, 2, 1})) {
        case 0: NOTE("push_back"); with_value<D>(s, w, [&](auto const& val) { BOTH(VOID(x.push_back(val))); }); break;
        case 1: NOTE("push_front"); with_value<D>(s, w, [&](auto const& val) { BOTH(VOID(x.push_front(val))); }); break;
        case 2: NOTE("insert"); with_index<D>(s, i, [&](auto const& idx) { with_value<D>(s, w, [&](auto const& val) { BOTH(pos(x, x.insert(idx, val))); }); }); break;
        case 3: NOTE("set"); with_index<D>(s, i, [&](auto const& idx) { with_value<D>(s, w, [&](auto const& val) { BOTH(pos(x, x.set(idx, val))); }); }); break;
        case 4: NOTE("erase"); with_index<D>(s, i, [&](auto const& idx) { BOTH(pos(x, x.erase(idx))); }); break;
        case 5: NOTE("pop_back"); BOTH(VOID(x.pop_back())); break;
        case 6: NOTE("pop_front"); BOTH(VOID(x.pop_front())); break;
        case 7: NOTE("clear"); BOTH(VOID(x.clear())); break;
        case 8: NOTE("reserve"); i = s.draw(64); BOTH(VOID(x.reserve(i))); CHECK(u.is_finalized() || t.capacity() >= i, who + ": capacity after reserve"); break;
        case 9: NOTE("resize"); i = s.draw(len + 6); if (s.flip()) BOTH(VOID(x.resize(i))); else with_value<D>(s, w, [&](auto const& val) { BOTH(VOID(x.resize(i, val))); }); break;
        case 10: NOTE("chained");
          { auto a = outcome([&] { auto c = t; typename D::array r = std::move(c).push_back(1).push_front("two").push_back(nullptr).pop_front(); r = std::move(r).pop_back(); return sh(r.dynamic()); }),
                 b = outcome([&] { auto c = u; D r = std::move(c).push_back(1).push_front("two").push_back(nullptr).pop_front(); r = std::move(r).pop_back(); return sh(r); });
            CHECK(a == b, who + ": chained on expiring: typed " + a + ", untyped " + b); }
          break;
        case 11: NOTE("assign container"); if (t.is_finalized()) break; assign_seq(s, t, u, o); break;
        case 12: {
          NOTE("at a position"); i = s.draw(len + 1); int what = s.draw(3);
          auto nth = [&](auto& x) { auto it = x.begin(); for (size_t j = 0; j < i; j++) ++it; return it; };
          if (what == 0) BOTH(pos(x, x.insert(nth(x), 5))); else if (i < len && what == 1) BOTH(pos(x, x.set(nth(x), "here"))); else if (i < len) BOTH(pos(x, x.erase(nth(x))));
          break; }
        default: { NOTE("copies are independent"); auto c = t; auto before = sh(t.dynamic()); outcome([&] { c.push_back(1); return sh(true); }); CHECK(sh(t.dynamic()) == before, who + ": copy of the wrapper shares changes"); }
      }
      agree(t, u, std::string("operation"));
    }
  }

  template <class D> void muts_string(Src& s, D const& doc, Val v, Opt const& o) {
    typename D::string t {doc}; std::string m = v.s;
    for (int n = 1 + s.draw(5); n--;) {
      auto w = gen_str(s, o); auto keep = t;
      switch (s.draw(7)) {
        case 0: NOTE("="); t = sv(w); m = w; break;
        case 1: NOTE("+="); if (m.size() < 200000) { t += sv(w); m += w; } break;
        case 2: { NOTE("string + text"); auto r = t + w; CHECK(str(r.strv()) == m + w, who + ": string + text"); CHECK(str((t + sv(w)).strv()) == m + w, who + ": string + view"); CHECK(str((t + "abc").strv()) == m + "abc", who + ": string + literal"); break; }
        case 3: { NOTE("text + string"); CHECK(str((w + t).strv()) == w + m, who + ": text + string"); CHECK(str((sv(w) + t).strv()) == w + m, who + ": view + string"); CHECK(str(("abc" + t).strv()) == "abc" + m, who + ": literal + string"); break; }
        case 4: { NOTE("pair"); typename D::string p {sv(m), sv(w)}; CHECK(str(p.strv()) == m + w, who + ": made of two parts"); break; }
        case 5: { NOTE("+= itself"); if (m.size() < 200000) { t += t; m += m; } break; }
        default: { NOTE("reassign"); typename D::string q {sv(w)}; t = q; m = w; }
      }
      CHECK(str(t.strv()) == m && t.size() == m.size(), who + ": text after the operation is " + eng::quote(str(t.strv())) + ", should be " + eng::quote(m));
      CHECK(t.dynamic().is_str(), who + ": still text");
      (void)keep;
    }
    SAME(doc, v, who + ": document the string was made from");
  }

  template <class D> void muts_number(Src& s, D const& doc, Val const& v) {
    typename D::number t {doc}; double n = v.t == Val::Int ? (double)v.i : v.d;
    
    for (int k = 1 + s.draw(6); k--;) {
      double d = (double)s.range(-40, 40) / 8; int i = (int)s.range(-7, 7); auto before = t;
      switch (s.draw(11)) {
        case 0: t += d; n += d; break;
        case 1: t -= i; n -= i; break;
        case 2: t *= d; n *= d; break;
        case 3: if (d) { t /= d; n /= d; } break;
        case 4: { auto& r = ++t; n += 1; CHECK(&r == &t, who + ": ++ yields itself"); break; }
        case 5: { auto& r = --t; n -= 1; CHECK(&r == &t, who + ": -- yields itself"); break; }
        case 6: { double was = n; auto r = t++; n += 1; CHECK(sh(r.numeric()) == sh(was), who + ": postfix ++ yields the old value"); break; }
        case 7: { double was = n; auto r = t--; n -= 1; CHECK(sh(r.numeric()) == sh(was), who + ": postfix -- yields the old value"); break; }
        case 8: { i64 z = gen_int(s); t = z; n = (double)z; CHECK(t.is_integer() && t.integer() == z, who + ": assigned integer"); break; }
        case 9: { double z = gen_dec(s); t = z; n = z; CHECK(t.is_decimal() && sh(t.decimal()) == sh(z), who + ": assigned decimal"); break; }
        default: t += i; n += i;
      }
      if (n != n) return;
      CHECK(sh(t.numeric()) == sh(n), who + ": value after the operation is " + sh(t.numeric()) + ", should be " + sh(n));
      CHECK(t.dynamic().is_numeric(), who + ": still a number");
    }
    SAME(doc, v, who + ": document the number was made from");
  }

  template <class D> void muts_flag(Src& s, D const& doc, Val const& v) {
    typename D::flag t {doc}; bool b = s.flip();
    { t = b; CHECK(t.boolean() == b && t == b && t.is_boolean(), who + ": assigned flag"); }
    SAME(doc, v, who + ": document the flag was made from");
    typename D::null z; z = nullptr; SAME(z.dynamic(), Val::null(), who + ": null");
  }

  template <class D> void muts(Src& s, D const& doc, Val const& v, Opt const& o) {
    switch (v.t) {
      case Val::Obj: muts_object(s, doc, v, o); break;
      case Val::Arr: muts_array(s, doc, v, o); break;
      case Val::Str: muts_string(s, doc, v, o); break;
      case Val::Int: case Val::Dec: muts_number(s, doc, v); break;
      default: { bool b = s.flip(); muts_flag(s, D::make_boolean(b), Val::boolean(b)); break; }
    }
  }

  inline void more(Src&, Opt const&, dart::buffer*, Val const&, Val const&, Val const&) {}
  template <class D> void more(Src& s, Opt const& o, D*, Val const& a, Val const& b, Val const& c) {
    auto da = build_heap(a); auto db = build_packet(b); auto dc = build_subbuffer(c);
    { auto x = sh(typename D::array {da, db, dc, 1, "two", 2.5, true, nullptr}.dynamic()), y = sh(D::make_array(da, db, dc, 1, "two", 2.5, true, nullptr)); CHECK(x == y, who + ": array of values: typed " + x + ", untyped " + y); }
    CHECK(sh(typename D::array {}.dynamic()) == sh(Val::arr()), who + ": empty array");
    std::vector<std::string> m; for (int n = s.draw(6); n--;) m.push_back(gen_str(s, o));
    { typename D::array x {1}; x = m; CHECK(sh(x.dynamic()) == sh(D {m}), who + ": array of a vector"); }
    CHECK(sh(typename D::string {}.dynamic()) == sh(Val::str("")), who + ": default string");
    CHECK(sh(typename D::number {}.dynamic()) == sh(Val::integer(0)), who + ": default number");
    CHECK(sh(typename D::flag {}.dynamic()) == sh(Val::boolean(false)), who + ": default flag");
    CHECK(sh(typename D::null {}.dynamic()) == sh(Val::null()) && sh(typename D::null {nullptr}.dynamic()) == sh(Val::null()), who + ": null");
    auto t = gen_str(s, o); auto i = gen_int(s); auto d = gen_dec(s, o); bool f = s.flip(); short h = s.range(-32768, 32767); unsigned ui = s.draw(1ull << 32); float fl = (float)s.range(-99, 99) / 8;
    CHECK(sh(typename D::string {t}.dynamic()) == sh(Val::str(t)) && sh(typename D::string {sv(t)}.dynamic()) == sh(Val::str(t)) && sh(typename D::string {t.c_str()}.dynamic()) == sh(Val::str(t.c_str())), who + ": string of text " + eng::quote(t));
    CHECK(sh(typename D::number {i}.dynamic()) == sh(Val::integer(i)) && sh(typename D::number {h}.dynamic()) == sh(Val::integer(h)) && sh(typename D::number {ui}.dynamic()) == sh(Val::integer(ui)), who + ": number of an integer");
    CHECK(sh(typename D::number {d}.dynamic()) == sh(Val::dec(d)) && sh(typename D::number {fl}.dynamic()) == sh(Val::dec(fl)), who + ": number of a decimal");
    CHECK(sh(typename D::flag {f}.dynamic()) == sh(Val::boolean(f)), who + ": flag");
    // Typed values as arguments
    D arr = D::make_array(typename D::string {sv(t)}, typename D::number {i}, typename D::flag {f}, typename D::null {}, typename D::array {1, 2}, typename D::object {"k", "v"});
    SAME(arr, Val::arr({Val::str(t), Val::integer(i), Val::boolean(f), Val::null(), Val::arr({Val::integer(1), Val::integer(2)}), Val::obj({{"k", Val::str("v")}})}), who + ": typed values inside an array");
    if (t.size() > 65535) return;
    D obj = D::make_object(typename D::string {sv(t)}, typename D::array {i});
    SAME(obj, Val::obj({{t, Val::arr({Val::integer(i)})}}), who + ": typed key and value");
  }
  // Constructors
  template <class D> void make(Src& s, Opt const& o) {
    Val a = gen_val(s, o), b = gen_val(s, o), c = gen_scalar(s, o);
    auto k1 = gen_key(s, o, {}), k2 = gen_key(s, o, {k1}), k3 = gen_key(s, o, {k1, k2});
    auto da = build_heap(a); auto db = build_packet(b); auto dc = build_subbuffer(c);
    { auto x = outcome([&] { return sh(typename D::object {sv(k1), da, sv(k2), db, sv(k3), dc}.dynamic()); }), y = outcome([&] { return sh(D::make_object(sv(k1), da, sv(k2), db, sv(k3), dc)); }); CHECK(x == y, who + ": object of pairs: typed " + x + ", untyped " + y); }
    { auto x = outcome([&] { return sh(typename D::object {}.dynamic()); }), y = outcome([&] { return sh(D::make_object()); }); CHECK(x == y, who + ": empty object: typed " + x + ", untyped " + y); }
    std::map<std::string, std::string> m; for (int n = s.draw(6); n--;) m[gen_key(s, o, {})] = gen_str(s, o);
    std::unordered_map<std::string, int> um; for (auto& p : m) um[p.first] = (int)p.second.size();
    { auto x = outcome([&] { return sh(typename D::object {m}.dynamic()); }), y = outcome([&] { return sh(D {m}); }); CHECK(x == y, who + ": object of a map: typed " + x + ", untyped " + y); }
    { auto x = outcome([&] { return sh(typename D::object {um}.dynamic()); }), y = outcome([&] { return sh(D {um}); }); CHECK(x == y, who + ": object of an unordered map: typed " + x + ", untyped " + y); }
    { auto x = outcome([&] { return sh(typename D::object {std::map<std::string, std::string>(m)}.dynamic()); }), y = outcome([&] { return sh(D {m}); }); CHECK(x == y, who + ": object of an expiring map: typed " + x + ", untyped " + y); }
    more(s, o, (D*)nullptr, a, b, c);
  }
}
