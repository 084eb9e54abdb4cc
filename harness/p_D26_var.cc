#include "d26.h"
#include <dart/support/variant.h>

template <class F> static std::string outcome(long fuse, F f) {
  Trk::fuse() = fuse;
  std::string r = "ok";
  try { f(); } catch (Boom&) { r = "failed"; } catch (mpark::bad_variant_access&) { r = "bad access"; } catch (std::bad_variant_access&) { r = "bad access"; }
  Trk::fuse() = 0;
  return r;
}
static std::string text(std::string const& t) { return t; }
static std::string text(Trk const& t) { t.ok(); return "T" + std::to_string(t.v) + (t.moved ? "m" : ""); }
static std::string text(int64_t i) { return "i" + std::to_string(i); }
static std::string text(mpark::monostate) { return "0"; }
static std::string text(std::monostate) { return "0"; }

struct Mp { template <class... T> using var = mpark::variant<T...>; using mono = mpark::monostate; };
struct St { template <class... T> using var = std::variant<T...>; using mono = std::monostate; };
template <class F> using V = typename F::template var<typename F::mono, int64_t, Trk, std::string>;

template <class W> static std::string state(W const& w) {
  if (w.valueless_by_exception()) return w.index() == (size_t)-1 ? "none" : "wrong index";
  auto f = [](auto const& x) { return text(x); };
  return std::to_string(w.index()) + visit(f, w);
}

void d26_var(Src& s) {
  Trk::moves() = s.flip();
  { V<Mp> d[3]; V<St> e[3];
    std::string log;
    for (unsigned k = 1 + s.draw(8); k--;) {
      unsigned i = s.draw(3), j = s.draw(3), op = s.draw(16); int x = s.draw(20); std::string t(s.draw(30), 't');
      long fuse = s.draw(4) == 3 && op != 10 ? 1 + s.draw(3) : 0; // how many moves a swap makes is not prescribed
      std::string a, b, ra, rb; char const* name = "";
#define OP(n, ...) case n: name = #__VA_ARGS__; { auto f = [&](auto& o, std::string& r, auto fam) { using F = decltype(fam); using W = V<F>; __VA_ARGS__; }; \
  a = outcome(fuse, [&] { f(d, ra, Mp()); }); b = outcome(fuse, [&] { f(e, rb, St()); }); } break;
      switch (op) {
        OP(0, o[i] = o[j])
        OP(1, if (i != j) o[i] = std::move(o[j]))
        OP(2, o[i] = (int64_t)x)
        OP(3, Trk q(x); o[i] = q)
        OP(4, Trk q(x); o[i] = std::move(q); r = text(q))
        OP(5, o[i] = t)
        OP(6, o[i] = typename F::mono())
        OP(7, r = text(o[i].template emplace<2>(x, 3)))
        OP(8, r = text(o[i].template emplace<std::string>(t)))
        OP(9, o[i].template emplace<1>(x))
        OP(10, if (!o[i].valueless_by_exception() && !o[j].valueless_by_exception()) o[i].swap(o[j])) // (libstdc++ loses the valueless state here)
        OP(11, W w(o[j]); r = state(w))
        OP(12, W w(std::move(o[j])); r = state(w))
        OP(13, r = text(get<2>(o[i])); r += text(get<Trk>(o[i])))
        OP(14, r = text(get<std::string>(o[i])))
        OP(15, r = holds_alternative<Trk>(o[i]) ? "y" : "n"; if (auto* p = get_if<2>(&o[i])) r += text(*p); if (auto* p = get_if<std::string>(&o[i])) r += *p; std::string z(visit([](auto const& m, auto const& n) { return text(m) + text(n); }, o[i], o[j])); r += z)
      }
#undef OP
      log += std::string(name) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + (fuse ? " failing at " + std::to_string(fuse) : "") + "; ";
      s.nontrivial();
      CHECK(a == b, "variant: " + a + " and the standard one " + b + " after " + log);
      CHECK(ra == rb, "variant: result " + ra + " and the standard one " + rb + " after " + log);
      for (int q = 0; q < 3; q++) CHECK(state(d[q]) == state(e[q]), "variant " + std::to_string(q) + " holds " + state(d[q]) + " and the standard one " + state(e[q]) + " after " + log);
      for (int q = 0; q < 3; q++) {
        for (int p = 0; p < 3; p++)
          CHECK((d[q] == d[p]) == (e[q] == e[p]) && (d[q] != d[p]) == (e[q] != e[p]) && (d[q] < d[p]) == (e[q] < e[p]) && (d[q] <= d[p]) == (e[q] <= e[p]) && (d[q] > d[p]) == (e[q] > e[p]) && (d[q] >= d[p]) == (e[q] >= e[p]), "comparison after " + log);
      }
    }
    NOTE("variants: " + log);
  }
  CHECK(Trk::all().empty(), "variants leave objects alive");
}
