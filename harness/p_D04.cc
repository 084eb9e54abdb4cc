// D04: mutable arrays behave as a sequence under any history.
#include "ops.h"
using namespace dl;

template <class P>
static void check_at(P const& p, Val const& m, size_t i) {
  typename P::number idx {(int64_t)i};
  auto g = p.get(i);
  if (i < m.a.size()) {
    SAME(g, m.a[i], "get");
    SAME(p[i], m.a[i], "[]");
    SAME(p.at(i), m.a[i], "at");
    SAME(p.get(idx), m.a[i], "get(number)");
    SAME(p[idx], m.a[i], "[number]");
    SAME(p.at(idx), m.a[i], "at(number)");
  } else {
    CHECK(g.is_null() && p[i].is_null() && p.get(idx).is_null(), "out-of-range get is null");
    THROWS(std::out_of_range, p.at(i), "out-of-range at");
    THROWS(std::out_of_range, p.at(idx), "out-of-range at");
    SAME(p.get_or(i, 17), Val::integer(17), "out-of-range get_or");
  }
}

template <class P>
static void ends(P const& p, Val const& m) {
  if (m.a.empty()) {
    CHECK(p.front().is_null() && p.back().is_null(), "ends of an empty array are null");
    THROWS(std::out_of_range, p.at_front(), "at_front");
    THROWS(std::out_of_range, p.at_back(), "at_back");
    SAME(p.front_or(5), Val::integer(5), "front_or");
    SAME(p.back_or("d"), Val::str("d"), "back_or");
  } else {
    SAME(p.front(), m.a.front(), "front"); SAME(p.back(), m.a.back(), "back");
    SAME(p.at_front(), m.a.front(), "at_front"); SAME(p.at_back(), m.a.back(), "at_back");
    SAME(p.front_or(5), m.a.front(), "front_or"); SAME(p.back_or(5), m.a.back(), "back_or");
  }
}

template <class P, class F>
static auto give_index(Src& s, size_t i, F&& f) -> decltype(f(P {})) {
  switch (s.draw(4)) {
    case 0: return f((int)i);
    case 1: return f(i);
    case 2: return f(P::make_integer(i));
    default: { typename P::number n {(int64_t)i}; return f(n); }
  }
}

template <class P>
static void machine(Src& s) {
  Opt o; o.depth = 1; o.width = 4; o.wide = false; o.big = false;
  Val m = Val::arr();
  if (s.draw(3) == 2) m = gen_arr(s, o);
  P p = conv<P>::mk(m, &s);
  size_t n = 2 + s.draw(s.draw(4) == 3 ? 70 : 14);
  int writes = 0;
  P keep;  // another handle now and then, so that writes happen on shared storage too
  Val keep_m;
  for (size_t i = 0; i < n; i++) {
    size_t len = m.a.size();
    // an index biased to the boundaries
    auto index = [&]() -> size_t { switch (s.draw(5)) { case 0: return 0; case 1: return len; case 2: return len ? len - 1 : 0; case 3: return len + 1 + s.draw(3); default: return s.draw(len + 1); } };
    auto at = [&](size_t k) { auto it = p.begin(); for (size_t j = 0; j < k; j++) ++it; return it; };
    auto v = gen_val(s, o);
    auto next = [&](typename P::iterator it, size_t k) {
      if (k >= m.a.size()) CHECK(it == p.end(), "erase at the tail returns the end");
      else { CHECK(it != p.end(), "erase returns the next position"); SAME(*it, m.a[k], "erase returns the next position"); }
    };
    switch (s.weigh({5, 3, 4, 3, 4, 2, 2, 2, 1, 2, 1, 2, 2, 1})) {
      case 0: NOTE("push_back " + show(v, 80)); give<P>(s, v, [&](auto&& vv) { return p.push_back(std::forward<decltype(vv)>(vv)); }); m.a.push_back(v); writes++; break;
      case 1: NOTE("push_front " + show(v, 80)); give<P>(s, v, [&](auto&& vv) { return p.push_front(std::forward<decltype(vv)>(vv)); }); m.a.insert(m.a.begin(), v); writes++; break;
      case 2: {
        auto k = index();
        NOTE("insert at " + eng::num(k) + " " + show(v, 80));
        if (k > len) { s.label("insert:out of range"); THROWS(std::out_of_range, give_index<P>(s, k, [&](auto&& kk) { return p.insert(kk, conv<P>::mk(v)); }), "insert past the end"); break; }
        s.label(k == len ? "insert:at end" : k == 0 ? "insert:at front" : "insert:middle");
        auto it = give_index<P>(s, k, [&](auto&& kk) { return give<P>(s, v, [&](auto&& vv) { return p.insert(kk, std::forward<decltype(vv)>(vv)); }); });
        m.a.insert(m.a.begin() + k, v); writes++;
        SAME(*it, v, "insert returns the position");
        break;
      }
      case 3: {
        auto k = index();
        NOTE("set at " + eng::num(k) + " " + show(v, 80));
        if (k >= len) { s.label("set:out of range"); THROWS(std::out_of_range, give_index<P>(s, k, [&](auto&& kk) { return p.set(kk, conv<P>::mk(v)); }), "set past the end"); break; }
        s.label("set:in range");
        auto it = give_index<P>(s, k, [&](auto&& kk) { return give<P>(s, v, [&](auto&& vv) { return p.set(kk, std::forward<decltype(vv)>(vv)); }); });
        m.a[k] = v; writes++;
        SAME(*it, v, "set returns the position");
        break;
      }
      case 4: {
        auto k = index();
        NOTE("erase at " + eng::num(k));
        auto it = give_index<P>(s, k, [&](auto&& kk) { return p.erase(kk); });
        if (k < len) { s.label("erase:in range"); m.a.erase(m.a.begin() + k); writes++; next(it, k); }
        else { s.label("erase:out of range"); CHECK(it == p.end(), "erase out of range returns the end"); }
        break;
      }
      case 5: NOTE("pop_back"); if (!len) s.label("pop:empty"); p.pop_back(); if (len) m.a.pop_back(); writes++; break;
      case 6: NOTE("pop_front"); if (!len) s.label("pop:empty"); p.pop_front(); if (len) m.a.erase(m.a.begin()); writes++; break;
      case 7: {
        auto k = s.draw(len + 1);
        NOTE("insert at position " + eng::num(k)); s.label("insert:iterator");
        auto it = p.insert(at(k), conv<P>::mk(v));
        m.a.insert(m.a.begin() + k, v); writes++;
        SAME(*it, v, "insert(position) returns the position");
        break;
      }
      case 8: {
        if (!len) break;
        auto k = s.draw(len);
        NOTE("set at position " + eng::num(k)); s.label("set:iterator");
        auto it = p.set(at(k), conv<P>::mk(v));
        m.a[k] = v; writes++;
        SAME(*it, v, "set(position) returns the position");
        break;
      }
      case 9: {
        if (!len) break;
        auto k = s.draw(len);
        NOTE("erase at position " + eng::num(k)); s.label("erase:iterator");
        auto it = p.erase(at(k));
        m.a.erase(m.a.begin() + k); writes++;
        next(it, k);
        break;
      }
      case 10: {
        size_t k = s.draw(12);
        NOTE("resize " + eng::num(k)); s.label(k < len ? "resize:shrink" : "resize:grow");
        if (s.flip()) { p.resize(k, conv<P>::mk(v)); m.a.resize(k, v); }
        else { p.resize(k); m.a.resize(k); }
        writes++;
        break;
      }
      case 11: {
        size_t k = s.draw(64);
        NOTE("reserve " + eng::num(k)); s.label("reserve");
        p.reserve(k);
        CHECK(p.capacity() >= k && p.capacity() >= len, "capacity after reserve");
        break;
      }
      case 12: {
        if (s.draw(3) == 0) { NOTE("clear"); p.clear(); m.a.clear(); writes++; }
        else { NOTE("copy"); keep = p; keep_m = m; s.label("shared"); }
        break;
      }
      default: {
        s.label("wrong use");
        NOTE("wrong use");
        switch (s.draw(6)) {
          case 0: THROWS(dart::type_error, p.insert("key", 1), "text key on an array"); break;
          case 1: THROWS(dart::type_error, p.add_field("key", 1), "add_field on an array"); break;
          case 2: THROWS(dart::type_error, p.insert(P::make_boolean(true), 1), "boolean index"); break;
          case 3: THROWS(std::out_of_range, p.insert(-1, 1), "negative index"); break;
          case 4: THROWS(std::out_of_range, p.set(INT64_MIN, 1), "negative index"); break;
          default: CHECK(p.erase(P::make_integer(-1)) == p.end(), "erase of a negative index"); break;
        }
      }
    }
    CHECK(p.is_array() && p.size() == m.a.size() && p.empty() == m.a.empty(), "size after the operation");
    if (m.a.size() < 12 || s.draw(4) == 0) SAME(p, m, "contents after operation " + eng::num(i));
    check_at(p, m, index());
    if (s.draw(3) == 0) ends(p, m);
    if (!keep_m.a.empty() && keep.is_array()) SAME(keep, keep_m, "the copy taken earlier");
  }
  SAME(p, m, "final contents");
  ends(p, m);
  auto vs = p.values();
  CHECK(vs.size() == m.a.size(), "values()");
  for (size_t i = 0; i < vs.size(); i++) SAME(vs[i], m.a[i], "values()");
  CHECK(p == conv<P>::mk(m), "equal to a freshly built array");
  if (writes >= 4) s.nontrivial();
}

static void run(Src& s) {
  if (s.flip()) { s.label("generic"); machine<dart::packet>(s); } else { s.label("heap"); machine<dart::heap>(s); }
}

namespace eng {
  Prop prop = {
    "D04", "random histories of push/pop/insert/set/erase/resize/reserve/clear and reads with integer, number-value and iterator positions (biased to 0, size-1, size, size+1) "
    "on heap and generic arrays, compared after each step with a vector; non-trivial: at least 4 effective writes",
    run, 15000, 300000
  };
}
