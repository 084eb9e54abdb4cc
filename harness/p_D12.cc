// D12: iteration visits every element once, in a stable documented order.
#include "ops.h"
#include <algorithm>
using namespace dl;

namespace {
  std::vector<std::string> order;   // keys, in the documented order
  std::vector<Val> vals;

  template <class D> struct ext { static Val of(D const& d) { return extract(d); } };
#define IS(got, want, msg) do { auto g_ = extract(got); if (!(g_ == (want))) eng::fail(__FILE__, __LINE__, #got, std::string(msg) + ": " + diff(g_, want)); } while (0)

  // A random walk over positions of begin..end against an index.
  template <class It, class F>
  void walk(Src& s, It begin, It end, size_t n, F&& want, std::string const& form) {
    size_t i = 0; It it = begin;
    if (s.flip()) { it = end; i = n; }
    for (int steps = 4 + s.draw(12); steps; steps--) {
      switch (s.draw(9)) {
        case 0: if (i < n) { ++it; ++i; } break;
        case 1: if (i > 0) { --it; --i; } break;
        case 2: if (i < n) { It old = it++; CHECK(old != it, form + ": it++ moves"); IS(*old, want(i), form + ": it++ returns the old position"); ++i; } break;
        case 3: if (i > 0) { It old = it--; CHECK(old != it, form + ": it-- moves"); if (i < n) IS(*old, want(i), form + ": it-- returns the old position"); --i; } break;
        case 4: { size_t j = s.draw(n + 1); It o = std::next(begin, j); CHECK((o == it) == (i == j) && (o != it) == (i != j), form + ": comparison of positions " + eng::num(i) + " and " + eng::num(j)); break; }
        case 5: { size_t j = s.draw(n + 1); std::advance(it, (ptrdiff_t)j - (ptrdiff_t)i); i = j; break; }
        case 6: { It c = it; CHECK(c == it, form + ": a copied position"); if (i < n) { ++c; CHECK(c != it, form + ": the copy moves alone"); } break; }
        case 7: { It c = it; It m = std::move(c); CHECK(m == it, form + ": a moved position"); It a = begin; a = m; CHECK(a == it, form + ": an assigned position"); break; }
        default: CHECK((it == end) == (i == n) && (it == begin) == (i == 0), form + ": begin and end"); break;
      }
      if (i < n) IS(*it, want(i), form + ": element " + eng::num(i) + " of " + eng::num(n));
      CHECK((it == end) == (i == n), form + ": end reached after " + eng::num(i) + " of " + eng::num(n));
    }
    CHECK((size_t)std::distance(begin, end) == n, form + ": distance");
    CHECK((size_t)std::distance(it, end) == n - i && (size_t)std::distance(begin, it) == i, form + ": distance from the middle");
  }

  template <class R>
  std::vector<Val> all(R b, R e, size_t n, std::string const& what) {
    std::vector<Val> r;
    for (; b != e; ++b) { CHECK(r.size() < n, what + " visits more than size() elements"); r.push_back(extract(*b)); }
    CHECK(r.size() == n, what + " visits " + eng::num(r.size()) + " of " + eng::num(n));
    return r;
  }

  void same(std::vector<Val> const& g, std::vector<Val> const& w, std::string const& what) { CHECK(g == w, what + ": " + diff(Val::arr(g), Val::arr(w))); }

  template <class D>
  void check(Src& s, D const& d, Val const& v, std::string const& form) {
    if (!v.is_agg()) {
      THROWS(dart::type_error, d.begin(), form + ": begin of a scalar"); THROWS(dart::type_error, d.end(), form + ": end of a scalar");
      THROWS(dart::type_error, d.key_begin(), form + ": key_begin of a scalar"); THROWS(dart::type_error, d.rbegin(), form + ": rbegin of a scalar");
      THROWS(dart::type_error, d.keys(), form + ": keys of a scalar"); THROWS(dart::type_error, d.values(), form + ": values of a scalar");
      return;
    }
    size_t n = v.size();
    CHECK(d.size() == n && d.empty() == (n == 0), form + ": size");
    std::vector<Val> rv(vals.rbegin(), vals.rend()), ks, rk;
    for (auto& k : order) ks.push_back(Val::str(k));
    rk.assign(ks.rbegin(), ks.rend());
    same(all(d.begin(), d.end(), n, form + ": iteration"), vals, form + ": iteration");
    same(all(d.cbegin(), d.cend(), n, form + ": const iteration"), vals, form + ": const iteration");
    same(all(d.rbegin(), d.rend(), n, form + ": reverse iteration"), rv, form + ": reverse iteration");
    same(all(d.crbegin(), d.crend(), n, form + ": const reverse iteration"), rv, form + ": const reverse iteration");
    { size_t i = 0; for (auto x : d) { IS(x, vals[i], form + ": range for"); i++; } CHECK(i == n, form + ": range for"); }
    { auto vs = d.values(); CHECK(vs.size() == n, form + ": values()"); for (size_t i = 0; i < n; i++) IS(vs[i], vals[i], form + ": values()"); }
    walk(s, d.begin(), d.end(), n, [&](size_t i) -> Val const& { return vals[i]; }, form + " values");
    walk(s, d.rbegin(), d.rend(), n, [&](size_t i) -> Val const& { return rv[i]; }, form + " reversed values");
    { auto it = d.begin(); for (size_t i = 0; i < n; i++, ++it) { auto a = it->get_type(); CHECK((int)a == (int)(*it).get_type(), form + ": arrow"); } }
    { using I = decltype(d.begin()); I none, none2; CHECK(!none && none == none2, form + ": positions made from nothing"); CHECK((bool)d.begin() && (bool)d.end(), form + ": a position of a document"); }
    // Two iterations at once, and each from its own call.
    { auto a = d.begin(); auto b = d.begin(); for (size_t i = 0; i < n; i++) { CHECK(a == b, form + ": equal steps"); ++a; if (i + 1 < n) IS(*b, vals[i], form + ": lagging iterator"); CHECK(a != b, form + ": unequal steps"); ++b; } }

    if (v.t == Val::Obj) {
      same(all(d.key_begin(), d.key_end(), n, form + ": keys"), ks, form + ": keys");
      same(all(d.rkey_begin(), d.rkey_end(), n, form + ": reverse keys"), rk, form + ": reverse keys");
      walk(s, d.key_begin(), d.key_end(), n, [&](size_t i) -> Val const& { return ks[i]; }, form + " keys");
      { auto kk = d.keys(); CHECK(kk.size() == n, form + ": keys()"); for (size_t i = 0; i < n; i++) IS(kk[i], ks[i], form + ": keys()"); }
      auto kv = d.kvbegin(); auto ke = d.kvend();
      for (size_t i = 0; i < n; i++) { IS(*std::get<0>(kv), ks[i], form + ": kvbegin keys"); IS(*std::get<1>(kv), vals[i], form + ": kvbegin values"); CHECK(kv != ke, form + ": kvend"); ++std::get<0>(kv); ++std::get<1>(kv); }
      CHECK(kv == ke, form + ": kvend reached");
      auto rv2 = d.rkvbegin(); for (size_t i = 0; i < n; i++) { IS(*std::get<0>(rv2), rk[i], form + ": rkvbegin keys"); IS(*std::get<1>(rv2), rv[i], form + ": rkvbegin values"); ++std::get<0>(rv2); ++std::get<1>(rv2); }
      CHECK(rv2 == d.rkvend(), form + ": rkvend reached");
      // Lookups give the same positions as stepping.
      for (int t = 0; t < 4; t++) {
        auto k = t && order.size() ? s.pick(order) : probe_key(s, v, Opt {});
        auto w = std::find(order.begin(), order.end(), k);
        size_t i = w - order.begin();
        { auto a = d.find(k); auto ak = d.find_key(k); CHECK(a == std::next(d.begin(), i) && ak == std::next(d.key_begin(), i), form + ": find(std::string " + eng::quote(k) + ") against stepping"); }
        if (k.size() <= 65535) { dart::heap::string ks_ {sv(k)}; auto a = d.find(ks_); auto ak = d.find_key(ks_); CHECK(a == std::next(d.begin(), i) && ak == std::next(d.key_begin(), i), form + ": find(heap::string " + eng::quote(k) + ") against stepping"); }
        auto it = d.find(sv(k)); auto kit = d.find_key(sv(k));
        CHECK((it == d.end()) == (i == n) && (kit == d.key_end()) == (i == n), form + ": find of a " + (i == n ? "missing" : "present") + " key");
        if (i < n) {
          IS(*it, vals[i], form + ": found value"); IS(*kit, ks[i], form + ": found key");
          // from there, step to both ends
          auto a = it; for (size_t j = i; j < n; j++, ++a) IS(*a, vals[j], form + ": forward from a found position"); CHECK(a == d.end(), form + ": end from a found position");
          auto b = kit; for (size_t j = i; j > 0; j--) { --b; IS(*b, ks[j - 1], form + ": backward from a found key"); } CHECK(b == d.key_begin(), form + ": begin from a found key");
        }
      }
    } else {
      THROWS(dart::type_error, d.key_begin(), form + ": keys of an array"); THROWS(dart::type_error, d.keys(), form + ": keys of an array"); THROWS(dart::type_error, d.kvbegin(), form + ": pairs of an array");
      for (size_t i = 0; i < n; i++) IS(d[i], vals[i], form + ": index order");
    }
    // Standard algorithms.
    { size_t nulls = 0, want = 0; nulls = std::count_if(d.begin(), d.end(), [](D const& x) { return x.is_null(); }); for (auto& x : vals) want += x.t == Val::Null; CHECK(nulls == want, form + ": count_if"); }
    { std::vector<D> copy(d.begin(), d.end()); CHECK(copy.size() == n, form + ": vector from range"); for (size_t i = 0; i < n; i++) IS(copy[i], vals[i], form + ": vector from range"); }
  }

  template <class T>
  void typed(T const& t, Val const& v, std::string const& form) {
    size_t n = v.size();
    auto r = [](auto b, auto e) { std::vector<Val> o; for (; b != e; ++b) o.push_back(extract(*b)); return o; };
    same(r(t.begin(), t.end()), vals, form); same(r(t.cbegin(), t.cend()), vals, form);
    same(r(t.rbegin(), t.rend()), std::vector<Val>(vals.rbegin(), vals.rend()), form + " reversed");
    same(r(t.crbegin(), t.crend()), std::vector<Val>(vals.rbegin(), vals.rend()), form + " const reversed");
    CHECK(t.size() == n && t.empty() == !n, form + " size");
    auto vs = t.values(); for (size_t i = 0; i < n; i++) IS(vs[i], vals[i], form + " values()");
  }
  template <class T>
  void typed_keys(T const& t, std::string const& form) {
    std::vector<Val> ks; for (auto& k : order) ks.push_back(Val::str(k));
    auto r = [](auto b, auto e) { std::vector<Val> o; for (; b != e; ++b) o.push_back(extract(*b)); return o; };
    same(r(t.key_begin(), t.key_end()), ks, form); same(r(t.rkey_begin(), t.rkey_end()), std::vector<Val>(ks.rbegin(), ks.rend()), form + " reversed");
    auto kk = t.keys(); CHECK(kk.size() == ks.size(), form + " keys()"); for (size_t i = 0; i < kk.size(); i++) IS(kk[i], ks[i], form + " keys()");
    auto kv = t.kvbegin(); for (size_t i = 0; i < ks.size(); i++) { IS(*std::get<0>(kv), ks[i], form); IS(*std::get<1>(kv), vals[i], form); ++std::get<0>(kv); ++std::get<1>(kv); } CHECK(kv == t.kvend(), form + " kvend");
    for (auto& k : order) { CHECK(t.find(sv(k)) != t.end() && extract(*t.find_key(sv(k))) == Val::str(k), form + " find"); }
  }

  void run(Src& s) {
    Opt o; o.depth = s.draw(3); o.big = false; o.wide = s.draw(8) == 7;
    Val v;
    switch (s.weigh({6, 4, 1})) {
      case 0: v = gen_obj(s, o); break;
      case 1: v = gen_arr(s, o); break;
      default: v = gen_scalar(s, o); break;
    }
    order.clear(); vals.clear();
    if (v.t == Val::Obj) for (auto& p : v.o) { order.push_back(p.first); vals.push_back(p.second); }
    if (v.t == Val::Arr) vals = v.a;
    label_val(s, v);
    if (v.is_agg() && v.size() > 1) s.nontrivial();
    s.label(tname(v.t));
    NOTE("document " + show(v, 800));
    auto h = build_heap(v, &s); auto b = build_subbuffer(v, &s);
    // The mutable form may have a past.
    if (v.is_agg() && s.draw(3) == 2) { Val m = v; auto w = h; Opt e; e.depth = 1; for (int i = s.draw(6); i >= 0; i--) mutate_doc(s, w, m, e, [&] { Val x = gen_val(s, e); return std::make_pair(build_heap(x, &s), x); });
      auto o2 = order; auto v2 = vals; order.clear(); vals.clear();
      if (m.t == Val::Obj) for (auto& p : m.o) { order.push_back(p.first); vals.push_back(p.second); } else vals = m.a;
      check(s, w, m, "edited heap"); order = o2; vals = v2; s.label("after edits"); }
    check(s, h, v, "heap");
    check(s, b, v, "buffer");
    dart::packet p = s.flip() ? dart::packet(b) : dart::packet(h);
    check(s, p, v, p.is_finalized() ? "finalized packet" : "packet");
    if (v.t == Val::Obj) { typed(dart::heap::object {h}, v, "heap::object"); typed(dart::buffer::object {b}, v, "buffer::object"); typed(dart::packet::object {p}, v, "packet::object");
      typed_keys(dart::heap::object {h}, "heap::object keys"); typed_keys(dart::buffer::object {b}, "buffer::object keys"); typed_keys(dart::packet::object {p}, "packet::object keys"); }
    if (v.t == Val::Arr) { typed(dart::heap::array {h}, v, "heap::array"); typed(dart::buffer::array {b}, v, "buffer::array"); typed(dart::packet::array {p}, v, "packet::array"); }
    // Mutating one copy does not disturb an iteration of another.
    if (v.is_agg() && v.size()) {
      auto it = h.begin(); auto copy = h; Val m = v; Opt e; e.depth = 1; size_t at = s.draw(v.size());
      for (size_t i = 0; i < v.size(); i++, ++it) { if (i == at) mutate_doc(s, copy, m, e, [&] { Val x = gen_val(s, e); return std::make_pair(build_heap(x), x); }); IS(*it, vals[i], "iteration while a copy is mutated"); }
      CHECK(it == h.end(), "end of an iteration while a copy is mutated");
      SAME(copy, m, "the mutated copy");
    }
  }
}

namespace eng {
  Prop prop = {
    "D12", "random objects, arrays and scalars in the mutable (also after edits), immutable, generic and typed forms: forward, reverse, key, pair and range iteration, random walks of ++, --, postfix, next/advance/distance, "
    "comparisons, lookups against stepping, iteration while a copy is mutated, all against an index model; non-trivial: two or more elements",
    run, 2500, 80000
  };
}
