// D03: mutable objects behave as a key-value map under any history.
#include "ops.h"
using namespace dl;

template <class P>
static void check_key(P const& p, Val const& m, std::string const& k) {
  auto* w = m.get(k);
  CHECK(p.has_key(sv(k)) == !!w, "has_key " + eng::quote(k));
  auto g = p.get(sv(k));
  if (w) {
    SAME(g, *w, "get " + eng::quote(k));
    SAME(p.at(sv(k)), *w, "at " + eng::quote(k));
    auto it = p.find(sv(k));
    CHECK(it != p.end(), "find " + eng::quote(k));
    SAME(*it, *w, "*find " + eng::quote(k));
    CHECK(str((*p.find_key(sv(k))).strv()) == k, "find_key " + eng::quote(k));
  } else {
    CHECK(g.is_null(), "get of a missing key");
    CHECK(p.find(sv(k)) == p.end(), "find of a missing key");
    CHECK(p.find_key(sv(k)) == p.key_end(), "find_key of a missing key");
    THROWS(std::out_of_range, p.at(sv(k)), "at of a missing key");
  }
}

template <class P>
static void machine(Src& s) {
  Opt o; o.depth = 2; o.width = 4; o.wide = false; o.big = false;
  Opt ov = o; ov.depth = 1;
  Val m = Val::obj();
  if (s.draw(3) == 2) m = gen_obj(s, ov);
  P p = conv<P>::mk(m, &s);
  std::vector<std::string> seen = keys_of(m);
  size_t n = 2 + s.draw(s.draw(4) == 3 ? 60 : 14);
  int writes = 0;
  auto key = [&] {
    if (!seen.empty() && s.draw(5) >= 3) return s.pick(seen);
    auto k = gen_key(s, o, seen);
    if (s.draw(3) == 0 && seen.size() > 4) k = s.pick(seen);
    return k;
  };
  auto pos_of = [&](std::string const& k) { auto it = p.begin(); for (auto& x : m.o) { if (x.first == k) break; ++it; } return it; };
  // the element after k in iteration order, which must be the document's own order
  for (size_t i = 0; i < n; i++) {
    switch (s.weigh({5, 5, 3, 4, 2, 2, 2, 3, 1, 2, 2, 1, 1})) {
      case 0: case 1: {
        auto k = key(); auto v = gen_val(s, ov);
        seen.push_back(k);
        s.label(m.get(k) ? "insert:replace" : "insert:new");
        NOTE("insert " + eng::quote(k) + " = " + show(v, 100));
        auto it = give_key<P>(s, k, [&](auto&& kk) { return give<P>(s, v, [&](auto&& vv) { return p.insert(kk, std::forward<decltype(vv)>(vv)); }); });
        m.o[k] = v; writes++;
        SAME(*it, v, "insert returns the position of the value");
        check_key(p, m, k);
        break;
      }
      case 2: {
        auto k = key(); auto v = gen_val(s, ov);
        NOTE("add_field " + eng::quote(k) + " = " + show(v, 100));
        seen.push_back(k);
        give<P>(s, v, [&](auto&& vv) { return p.add_field(sv(k), std::forward<decltype(vv)>(vv)); });
        m.o[k] = v; writes++;
        break;
      }
      case 3: {
        auto k = key(); auto v = gen_val(s, ov);
        NOTE("set " + eng::quote(k) + " = " + show(v, 100));
        if (m.get(k)) {
          s.label("set:present");
          auto it = give_key<P>(s, k, [&](auto&& kk) { return give<P>(s, v, [&](auto&& vv) { return p.set(kk, std::forward<decltype(vv)>(vv)); }); });
          m.o[k] = v; writes++;
          SAME(*it, v, "set returns the position of the value");
        } else {
          s.label("set:missing");
          THROWS(std::out_of_range, p.set(sv(k), conv<P>::mk(v)), "set of a missing key");
        }
        check_key(p, m, k);
        break;
      }
      case 4: {
        if (m.o.empty()) break;
        auto k = s.pick(keys_of(m)); auto v = gen_val(s, ov);
        NOTE("insert at the position of " + eng::quote(k));
        s.label("insert:iterator");
        auto it = s.flip() ? p.insert(p.find(sv(k)), conv<P>::mk(v)) : p.insert(pos_of(k), conv<P>::mk(v));
        m.o[k] = v; writes++;
        SAME(*it, v, "insert(position) returns the position");
        break;
      }
      case 5: {
        if (m.o.empty()) break;
        auto k = s.pick(keys_of(m)); auto v = gen_val(s, ov);
        NOTE("set at the position of " + eng::quote(k));
        s.label("set:iterator");
        auto it = s.flip() ? p.set(p.find(sv(k)), conv<P>::mk(v)) : p.set(p.find_key(sv(k)), conv<P>::mk(v));
        m.o[k] = v; writes++;
        SAME(*it, v, "set(position) returns the position");
        break;
      }
      case 6: case 7: {
        auto k = key();
        bool had = m.get(k);
        s.label(had ? "erase:present" : "erase:missing");
        NOTE("erase " + eng::quote(k));
        auto next = m.o.upper_bound(k);
        auto it = give_key<P>(s, k, [&](auto&& kk) { return p.erase(kk); });
        m.o.erase(k); writes++;
        CHECK(had || it == p.end(), "erase of a missing key returns the end");
        if (had) {
          if (next == m.o.end()) CHECK(it == p.end(), "erase of the last pair returns the end");
          else { CHECK(it != p.end(), "erase returns the next position"); SAME(*it, next->second, "erase returns the next position"); }
        }
        check_key(p, m, k);
        break;
      }
      case 8: {
        if (s.draw(4)) break;
        NOTE("clear"); s.label("clear");
        p.clear(); m.o.clear(); writes++;
        CHECK(p.empty() && p.size() == 0, "clear");
        break;
      }
      case 9: {
        if (m.o.empty()) break;
        auto k = s.pick(keys_of(m));
        NOTE("erase at the position of " + eng::quote(k));
        s.label("erase:iterator");
        auto next = m.o.upper_bound(k);
        auto it = s.flip() ? p.erase(p.find(sv(k))) : p.erase(pos_of(k));
        m.o.erase(k); writes++;
        if (next == m.o.end()) CHECK(it == p.end(), "erase(position) of the last pair returns the end");
        else SAME(*it, next->second, "erase(position) returns the next position");
        break;
      }
      case 10: {
        auto k = key();
        NOTE("remove_field " + eng::quote(k));
        if (s.flip()) p.remove_field(sv(k)); else p.remove_field(P::make_string(sv(k)));
        m.o.erase(k); writes++;
        break;
      }
      case 11: { // nested: take out, change, put back
        if (m.o.empty()) break;
        auto k = s.pick(keys_of(m));
        if (m.o[k].t != Val::Obj) break;
        s.label("nested change");
        auto sub = p[sv(k)]; auto k2 = gen_key(s, o, keys_of(m.o[k])); auto v = gen_scalar(s, ov);
        NOTE("change nested " + eng::quote(k) + "." + eng::quote(k2));
        sub.insert(sv(k2), conv<P>::mk(v));
        SAME(p, m, "changing an extracted part does not change the whole");
        m.o[k].o[k2] = v;
        p.insert(sv(k), sub); writes++;
        break;
      }
      default: { // wrong uses leave it alone
        NOTE("wrong use");
        s.label("wrong use");
        switch (s.draw(6)) {
          case 0: THROWS(dart::type_error, p.insert(P::make_boolean(true), 1), "boolean key"); break;
          case 1: THROWS(dart::type_error, p.insert(P::make_null(), 1), "null key"); break;
          case 2: THROWS(dart::type_error, p.insert(3, 1), "integer key on an object"); break;
          case 3: THROWS(dart::type_error, p.push_back(1), "push_back on an object"); break;
          case 4: THROWS(std::invalid_argument, p.insert(std::string(65536, 'k'), 1), "key too long"); break;
          default: THROWS(dart::type_error, p.erase(P::make_decimal(0.5)), "decimal key"); break;
        }
      }
    }
    CHECK(p.is_object() && p.size() == m.o.size() && p.empty() == m.o.empty(), "size after the operation");
    if (m.o.size() < 12 || s.draw(4) == 0) SAME(p, m, "contents after operation " + eng::num(i));
  }
  SAME(p, m, "final contents");
  auto ks = p.keys();
  CHECK(ks.size() == m.o.size(), "keys()");
  size_t at = 0;
  for (auto& x : m.o) CHECK(str(ks[at++].strv()) == x.first, "keys() in order");
  for (auto& k : seen) check_key(p, m, k);
  CHECK(p == conv<P>::mk(m), "equal to a freshly built object");
  if (writes >= 4) s.nontrivial();
}

static void run(Src& s) {
  if (s.flip()) { s.label("generic"); machine<dart::packet>(s); } else { s.label("heap"); machine<dart::heap>(s); }
}

namespace eng {
  Prop prop = {
    "D03", "random histories of insert/add_field/set/erase/remove_field/clear/lookup through text, string-value and iterator arguments on heap and generic objects, "
    "compared after each step with a map; non-trivial: at least 4 effective writes",
    run, 15000, 300000
  };
}
