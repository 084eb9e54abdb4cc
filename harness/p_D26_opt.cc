#include "d26.h"
#include <cmath>

template <class F> static std::string outcome(long fuse, F f) {
  Trk::fuse() = fuse;
  std::string r = "ok";
  try { f(); } catch (Boom&) { r = "failed"; } catch (dart::bad_optional_access&) { r = "bad access"; } catch (std::bad_optional_access&) { r = "bad access"; }
  Trk::fuse() = 0;
  return r;
}

template <class O> static std::string state(O const& o) {
  if (!o.has_value()) return "-";
  o->ok();
  return std::to_string(o->v) + (o->moved ? "m" : "");
}

static void history(Src& s) {
  Trk::moves() = s.draw(3) == 2;
  { std::vector<dart::optional<Trk>> d(3); std::vector<std::optional<Trk>> e(3);
    std::string log;
    unsigned n = 1 + s.draw(10);
    for (unsigned k = 0; k < n; k++) {
      unsigned i = s.draw(3), j = s.draw(3), op = s.draw(19); int x = s.draw(20);
      long fuse = s.draw(4) == 3 ? 1 + s.draw(3) : 0;
      if ((i == j && op < 2) || op == 13) fuse = 0; // whether a value is assigned to itself is not observable otherwise
      std::string a, b, ra, rb; // outcomes and results
      bool has = s.flip();
      auto both = [&](auto f, auto in) {
        a = outcome(fuse, [&] { f(d, ra, in(dart::optional<int>())); });
        b = outcome(fuse, [&] { f(e, rb, in(std::optional<int>())); });
      };
      auto in = [&](auto o) { if (has) o = x; return o; };
      auto null = [](auto const& c) { using T = std::decay_t<decltype(c[0])>; if constexpr (std::is_same<T, std::optional<Trk>>::value) return std::nullopt; else return dart::nullopt; };
      char const* name = "";
#define OP(n, ...) case n: name = #__VA_ARGS__; both([&](auto& o, std::string& r, auto&& in) { using O = std::decay_t<decltype(o[0])>; __VA_ARGS__; }, in); break;
      switch (op) {
        OP(0, o[i] = o[j])
        OP(1, o[i] = std::move(o[j]))
        OP(2, Trk t(x); o[i] = t; r = std::to_string(t.v))
        OP(3, Trk t(x); o[i] = std::move(t); r = std::to_string(t.v))
        OP(4, o[i] = null(o))
        OP(5, o[i].reset())
        OP(6, auto& t = o[i].emplace(x, 3); r = std::to_string(t.v) + (&t == &*o[i] ? "" : "!"))
        OP(7, o[i].emplace())
        OP(8, o[i] = in)
        OP(9, o[i] = std::move(in))
        OP(10, O t(o[j]); r = state(t))
        OP(11, O t(std::move(o[j])); r = state(t))
        OP(12, O t(in); O u(std::move(in)); O w(x); Trk z(x); O y(z); O v(null(o)); r = state(t) + state(u) + state(w) + state(y) + state(v))
        OP(13, std::swap(o[i], o[j]))
        OP(14, auto const& c = o[i]; r = std::to_string(o[i].value().v) + std::to_string(c.value().v) + std::to_string(std::move(c).value().v); Trk t(std::move(o[i]).value()); r += std::to_string(t.v))
        OP(15, Trk t(50); Trk w = o[i].value_or(t); r = std::to_string(w.v); Trk u = o[i].value_or(x); r += "," + std::to_string(u.v))
        OP(16, Trk t(50); Trk w = std::move(o[i]).value_or(std::move(t)); r = std::to_string(w.v) + (t.moved ? "m" : ""))
        OP(17, if (o[i]) { (*o[i]).v = x; o[i]->moved = false; auto const& c = o[i]; r = std::to_string((*c).v + c->v); Trk t(*std::move(o[i])); r += std::to_string(t.v); })
        OP(18, o[i] = x)
      }
#undef OP
      log += std::string(name) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + " x=" + std::to_string(x) + (fuse ? " failing at " + std::to_string(fuse) : "") + "; ";
      if (a == "failed") s.label("a failing element");
      if (state(d[0]) + state(d[1]) + state(d[2]) != "---") s.nontrivial();
      CHECK(a == b, "optional: " + a + " and the standard one " + b + " after " + log);
      CHECK(ra == rb, "optional: result " + ra + " and the standard one " + rb + " after " + log);
      for (int q = 0; q < 3; q++) {
        CHECK(state(d[q]) == state(e[q]), "optional " + std::to_string(q) + " holds " + state(d[q]) + " and the standard one " + state(e[q]) + " after " + log);
        CHECK((bool)d[q] == d[q].has_value(), "bool and has_value");
        for (int p = 0; p < 3; p++) {
#define REL(R) CHECK((d[q] R d[p]) == (e[q] R e[p]), std::string("comparison " #R " after ") + log); CHECK((d[q] R Trk(x)) == (e[q] R Trk(x)) && (Trk(x) R d[q]) == (Trk(x) R e[q]), std::string("comparison with a value " #R " after ") + log);
#define NUL(R) CHECK((d[q] R dart::nullopt) == (e[q] R std::nullopt) && (dart::nullopt R d[q]) == (std::nullopt R e[q]), std::string("comparison with nothing " #R " after ") + log);
          NUL(==) NUL(!=) NUL(<) NUL(<=)
          REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
#undef REL
        }
      }
    }
    NOTE("optionals: " + log);
  }
  CHECK(Trk::all().empty(), "optionals leave objects alive or destroy them twice");
}

// Numbers of different types, with unordered ones.
template <class A, class B> static void numbers(Src& s, std::vector<A> const& as, std::vector<B> const& bs) {
  bool ha = s.draw(4), hb = s.draw(4); A a = s.pick(as); B b = s.pick(bs);
  dart::optional<A> d; dart::optional<B> f; std::optional<A> e; std::optional<B> g;
  if (ha) d = a, e = a; if (hb) f = b, g = b;
  std::string h = " of " + (ha ? std::to_string(a) : "-") + " and " + (hb ? std::to_string(b) : "-");
  NOTE("optional numbers" + h);
  if (ha && hb) s.nontrivial();
#define REL(R) CHECK((d R f) == (e R g), "comparison " #R + h); CHECK((f R d) == (g R e), "comparison " #R " reversed" + h); if (hb) { CHECK((d R b) == (e R b), "comparison with a value " #R + h); CHECK((b R d) == (b R e), "comparison of a value " #R + h); } \
  CHECK((d R d) == (e R e), "comparison with itself " #R + h);
  REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
#undef REL
  auto same = [](auto x, auto y) { return memcmp(&x, &y, sizeof x) == 0; };
  bool defined = !std::is_integral<A>::value || (std::isfinite((double)b) && std::fabs((double)b) < 1e9); // the conversion of the other value
  if (defined) {
    CHECK(same(d.value_or(b), e.value_or(b)), "value_or" + h);
    dart::optional<A> x = f; std::optional<A> y = g; CHECK(x.has_value() == y.has_value() && (!x || same(*x, *y)), "conversion" + h);
    dart::optional<A> x2 = d; std::optional<A> y2 = e; x2 = f; y2 = g; CHECK(x2.has_value() == y2.has_value() && (!x2 || same(*x2, *y2)), "converting assignment" + h);
    x2 = b; y2 = b; CHECK(same(*x2, *y2), "converting assignment of a value" + h);
  }
  dart::optional<dart::optional<A>> n, n1 = d, n2 = dart::nullopt; std::optional<std::optional<A>> m, m1 = e, m2 = std::nullopt;
  CHECK(n.has_value() == m.has_value() && n1.has_value() == m1.has_value() && n2.has_value() == m2.has_value(), "nested optionals" + h);
}

void d26_opt(Src& s) {
  double inf = INFINITY, nan = NAN;
  switch (s.weigh({4, 1, 1})) {
    case 0: return history(s);
    case 1: return numbers<double, int>(s, {0, -0.0, 1, 1.5, nan, inf, -inf, -1}, {0, 1, -1, 2, INT_MAX, INT_MIN});
    default: return numbers<int64_t, double>(s, {0, 1, -1, INT64_MAX, INT64_MIN, (1ll << 53) + 1, 5}, {0, 1, -1, 1.5, nan, inf, 9.2e18});
  }
}
