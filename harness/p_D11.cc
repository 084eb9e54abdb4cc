// D11: inject and project are map update and map restriction.
#include "ops.h"
using namespace dl;

namespace {
  using View = dart::shim::string_view;
  std::vector<std::pair<std::string, Val>> pairs;
  std::vector<std::string> wanted;

  // The value handed over natively, or in one of the document types.
  template <class P, class F>
  auto give_any(Src& s, Val const& v, F&& f) { return give<typename std::conditional<std::is_same<P, dart::buffer>::value, dart::heap, P>::type>(s, v, f); }

  template <class D> struct as { static D of(dart::packet const& p) { return static_cast<D>(p); } };
  template <> struct as<dart::packet> { static dart::packet of(dart::packet const& p) { return p; } };

  // All inject entry points on one document.
  template <class D>
  D inject(Src& s, D const& d, unsigned how) {
    auto hspan = [&](auto tag) {
      using E = decltype(tag);
      std::vector<E> el;
      for (auto& p : pairs) { el.push_back(as<E>::of(dart::packet(build_subbuffer(Val::str(p.first))))); el.push_back(as<E>::of(s.flip() ? dart::packet(build_subbuffer(p.second, &s)) : build_packet(p.second, &s))); }
      return el;
    };
    switch (how) {
      case 0: { std::vector<dart::heap> el; for (auto& p : pairs) { el.push_back(dart::heap::make_string(sv(p.first))); el.push_back(build_heap(p.second, &s)); } return d.inject(gsl::span<dart::heap const>(el.data(), el.size())); }
      case 1: { std::vector<dart::buffer> el; for (auto& p : pairs) { el.push_back(build_subbuffer(Val::str(p.first), &s)); el.push_back(build_subbuffer(p.second, &s)); } return d.inject(gsl::span<dart::buffer const>(el.data(), el.size())); }
      case 2: { auto el = hspan(dart::packet()); return d.inject(gsl::span<dart::packet const>(el.data(), el.size())); }
      default: // variadic
        if (pairs.empty()) return d.inject();
        if (pairs.size() == 1) return give_any<D>(s, pairs[0].second, [&](auto&& x) -> D { using X = decltype(x);
            switch (s.draw(4)) {
              case 0: return d.inject(sv(pairs[0].first), std::forward<X>(x));
              case 1: return d.inject(pairs[0].first, std::forward<X>(x));
              case 2: return d.inject(dart::heap::make_string(sv(pairs[0].first)), std::forward<X>(x));
              default: { dart::packet::string k {sv(pairs[0].first)}; return d.inject(k, std::forward<X>(x)); }
            } });
        if (pairs.size() == 2) { auto a = build_packet(pairs[0].second, &s); auto b = build_subbuffer(pairs[1].second, &s); return d.inject(sv(pairs[0].first), a, pairs[1].first, b); }
        if (pairs.size() == 3) return d.inject(pairs[0].first, build_heap(pairs[0].second), sv(pairs[1].first), build_packet(pairs[1].second), dart::packet::make_string(sv(pairs[2].first)), build_subbuffer(pairs[2].second));
        return inject(s, d, s.draw(3));
    }
  }

  template <class D>
  D project(Src& s, D const& d, unsigned how) {
    switch (how) {
      case 0: { std::vector<View> v; for (auto& k : wanted) v.push_back(sv(k)); return d.project(gsl::span<View const>(v.data(), v.size())); }
      case 1: return d.project(gsl::span<std::string const>(wanted.data(), wanted.size()));
      default: {
        auto w = [&](size_t i) { return sv(wanted[i]); };
        switch (wanted.size()) {
          case 0: return d.project(std::initializer_list<View> {});
          case 1: return d.project({w(0)});
          case 2: return d.project({w(0), w(1)});
          case 3: return d.project({w(0), w(1), w(2)});
          case 4: return d.project({w(0), w(1), w(2), w(3)});
          default: return project(s, d, s.draw(2));
        }
      }
    }
  }

  template <class D>
  void both(Src& s, D const& d, Val const& v, Val const& inj, Val const& prj, std::string const& form) {
    auto how = s.draw(4), how2 = s.draw(3);
    auto a = inject(s, d, how);
    SAME(a, inj, form + ".inject, entry point " + eng::num(how));
    SAME(d, v, form + " after inject");
    auto b = project(s, d, how2);
    SAME(b, prj, form + ".project, entry point " + eng::num(how2));
    SAME(d, v, form + " after project");
    // The result is a document like any other.
    for (auto& k : wanted) { auto x = prj.get(k); if (x) SAME(b[sv(k)], *x, form + ": lookup in the projection of " + eng::quote(k)); else CHECK(b[sv(k)].is_null() && !b.has_key(sv(k)), form + ": absent key found in the projection"); }
    for (auto& p : inj.o) SAME(a[sv(p.first)], p.second, form + ": lookup in the injection of " + eng::quote(p.first));
    if (s.flip()) { // composition
      auto c = project(s, a, s.draw(3)); Val want = Val::obj(); for (auto& k : wanted) if (auto x = inj.get(k)) want.o[k] = *x;
      SAME(c, want, form + ": projection of the injection");
      auto e = inject(s, b, s.draw(4)); Val w2 = prj; for (auto& p : pairs) w2.o[p.first] = p.second;
      SAME(e, w2, form + ": injection into the projection");
    }
    typename D::object o {d};
    SAME(o.dynamic(), v, "typed");
    auto tp = o.project(gsl::span<std::string const>(wanted.data(), wanted.size())); SAME(tp.dynamic(), prj, form + "::object.project");
    if (pairs.size() == 1) { auto ti = o.inject(sv(pairs[0].first), build_heap(pairs[0].second)); SAME(ti.dynamic(), inj, form + "::object.inject"); }
  }

  void run(Src& s) {
    Opt o; o.depth = 1 + s.draw(3); o.wide = s.draw(6) == 5;
    Val v = gen_obj(s, o);
    label_val(s, v);
    pairs.clear(); wanted.clear();
    auto ks = keys_of(v);
    Val inj = v, prj = Val::obj();
    Val add = Val::obj();
    for (size_t n = s.weigh({1, 4, 3, 2, 1, 1, 1}) + (s.draw(20) == 19 ? s.draw(60) : 0); n; n--) {
      auto k = s.draw(3) == 2 && ks.size() ? s.pick(ks) : gen_key(s, o, ks);
      if (k.size() > 65535 || add.o.count(k)) continue;
      Opt vo; vo.depth = s.draw(3); vo.big = s.draw(20) == 19;
      auto x = gen_val(s, vo);
      if (inj.o.count(k)) s.label("inject:replaces"); else s.label("inject:adds");
      add.o[k] = x; pairs.emplace_back(k, x); inj.o[k] = x;
    }
    for (auto& k : ks) if (s.flip()) wanted.push_back(k);
    for (size_t n = s.draw(4); n; n--) { auto k = probe_key(s, v, o); wanted.push_back(k); }
    if (s.draw(8) == 7) for (size_t n = s.draw(40); n; n--) { wanted.push_back("absent" + std::to_string(n)); s.label("project:many absent keys"); }
    if (wanted.size() && s.draw(3) == 2) { wanted.push_back(s.pick(wanted)); s.label("project:repeated keys"); }
    if (wanted.size() > 1) for (size_t i = wanted.size(); i > 1; i--) std::swap(wanted[i - 1], wanted[s.draw(i)]);
    for (auto& k : wanted) { if (auto x = v.get(k)) prj.o[k] = *x; else s.label("project:absent"); }
    if (v.size() && (pairs.size() || wanted.size())) s.nontrivial();
    NOTE("document " + show(v, 500));
    for (auto& p : pairs) NOTE("  inject " + eng::quote(p.first) + " = " + show(p.second, 100));
    for (auto& k : wanted) NOTE("  project " + eng::quote(k));

    both(s, build_heap(v, &s), v, inj, prj, "heap");
    auto b = build_buffer(v, &s);
    both(s, b, v, inj, prj, "buffer");
    dart::packet p = s.flip() ? dart::packet(b) : build_packet(v, &s);
    bool fin = p.is_finalized();
    both(s, p, v, inj, prj, fin ? "finalized packet" : "packet");

    if (s.draw(6) == 5) { // repeated keys and wrong arguments: an answer or the documented error, and nothing changed
      std::vector<dart::heap> el; std::vector<dart::buffer> bel;
      auto k = gen_key(s, o, ks); if (k.size() > 65535) k = "k";
      for (int i = 0; i < 2; i++) { el.push_back(dart::heap::make_string(sv(k))); el.push_back(dart::heap::make_integer(i)); bel.push_back(build_subbuffer(Val::str(k))); bel.push_back(build_subbuffer(Val::integer(i))); }
      Val w = v; w.o[k] = Val::integer(1);
      SAME(build_heap(v).inject(gsl::span<dart::heap const>(el.data(), el.size())), w, "heap.inject of a repeated key: the later wins");
      try { auto r = b.inject(gsl::span<dart::buffer const>(bel.data(), bel.size())); SAME(r, w, "buffer.inject of a repeated key"); } catch (std::invalid_argument const&) {}
      SAME(b, v, "buffer after a repeated key");
      s.label("inject:repeated key");
      auto nk = gen_val(s, Opt {1}); if (nk.t == Val::Str) nk = Val::integer(3);
      auto bad = build_heap(nk); auto h = build_heap(v, &s);
      THROWS(std::exception, h.inject(bad, 1), "key of the wrong type (heap)"); SAME(h, v, "heap after a bad key");
      THROWS(std::exception, b.inject(bad, 1), "key of the wrong type (buffer)"); SAME(b, v, "buffer after a bad key");
      std::vector<dart::heap> odd(el.begin(), el.begin() + 3);
      THROWS(std::invalid_argument, h.inject(gsl::span<dart::heap const>(odd.data(), odd.size())), "an odd number of values (heap)"); SAME(h, v, "heap after an odd list");
      THROWS(std::invalid_argument, b.inject(gsl::span<dart::heap const>(odd.data(), odd.size())), "an odd number of values (buffer)");
      std::string longk(65536 + s.draw(100), 'k');
      THROWS(std::invalid_argument, h.inject(longk, 1), "key too long (heap)"); SAME(h, v, "heap after a long key");
      THROWS(std::invalid_argument, b.inject(longk, 1), "key too long (buffer)");
      Val other = gen_val(s, Opt {1}); if (other.t == Val::Obj) other = Val::arr();
      auto ho = build_heap(other); auto bo = build_subbuffer(other);
      THROWS(dart::type_error, ho.inject("a", 1), "inject into a non-object (heap)"); THROWS(dart::type_error, bo.inject("a", 1), "inject into a non-object (buffer)");
      THROWS(dart::type_error, ho.project({"a"}), "project of a non-object (heap)"); THROWS(dart::type_error, bo.project({"a"}), "project of a non-object (buffer)");
      s.label("wrong arguments");
    }
  }
}

namespace eng {
  Prop prop = {
    "D11", "random objects, injected pairs (new, replacing, none, many; native values, heaps, buffers, packets in spans or variadic) and projected key lists (present, near misses, absent, repeated, many) "
    "in the mutable, immutable and generic form against map update and restriction; inputs compared before and after; non-trivial: a non-empty object with something injected or projected",
    run, 3000, 90000
  };
}
