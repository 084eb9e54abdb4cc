// Native types: generator, expected document, expected extraction, expected comparison.
#pragma once
#include "dartlib.h"
#include <array>
#include <deque>
#include <list>
#include <forward_list>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <chrono>
#include <algorithm>

namespace d15 {
  using namespace dl;

  struct Type { char const* name; void (*run)(Src&); };
  std::vector<Type>& types();
  struct Reg { Reg(char const* n, void (*f)(Src&)) { types().push_back({n, f}); } };

  // Set when the model does not define the outcome (lossy narrowing and the like).
  extern bool unspec;

  inline bool num_eq(Val const& v, i64 i) {
    if (v.t == Val::Int) return v.i == i;
    if (v.t == Val::Dec) { if (i > (1ll << 53) || i < -(1ll << 53)) unspec = true; return v.d == (double)i; }
    return false;
  }
  inline bool num_eq(Val const& v, double d) {
    if (v.t == Val::Dec) return v.d == d;
    if (v.t == Val::Int) { if (v.i > (1ll << 53) || v.i < -(1ll << 53)) unspec = true; return (double)v.i == d; }
    return false;
  }

  inline Opt small() { Opt o; o.depth = 2; o.width = 3; o.wide = false; o.big = false; return o; }
  inline size_t len(Src& s) { return s.weigh({3, 3, 3, 1}) == 3 ? s.draw(20) : s.draw(5); }

  template <class T, class = void> struct C;

  template <class T> struct C<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static T gen(Src& s) {
      switch (s.draw(4)) {
        case 0: return (T)s.draw(3);
        case 1: return std::numeric_limits<T>::min();
        case 2: { auto m = std::numeric_limits<T>::max(); return (u64)m > (u64)INT64_MAX ? (T)INT64_MAX : m; }
        default: { i64 v = gen_int(s); T t = (T)v; return (i64)t < 0 && std::is_unsigned<T>::value ? (T)7 : t; }
      }
    }
    static Val to(T const& t) { return Val::integer((i64)t); }
    static bool from(Val const& v, T& t) {
      if (v.t != Val::Int) return false;
      t = (T)v.i;
      if ((i64)t != v.i || (std::is_unsigned<T>::value && v.i < 0)) unspec = true;
      return true;
    }
    static bool eq(Val const& v, T const& t) { return num_eq(v, (i64)t); }
  };
  template <class T> struct C<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T gen(Src& s) { T t = (T)gen_dec(s); return t == t ? t : (T)1.5; }
    static Val to(T const& t) { return Val::dec((double)t); }
    static bool from(Val const& v, T& t) {
      if (v.t != Val::Dec) return false;
      if (std::is_same<T, float>::value && !(fabs(v.d) <= 3e38)) { unspec = true; t = 0; return true; }
      t = (T)v.d;
      if ((double)t != v.d) unspec = true;
      return true;
    }
    static bool eq(Val const& v, T const& t) { return num_eq(v, (double)t); }
  };
  template <> struct C<bool> {
    static bool gen(Src& s) { return s.flip(); }
    static Val to(bool t) { return Val::boolean(t); }
    static bool from(Val const& v, bool& t) { t = v.t == Val::Bool ? v.b : v.t != Val::Null; return true; }
    static bool eq(Val const& v, bool t) { return v.t == Val::Bool && v.b == t; }
  };
  template <> struct C<std::nullptr_t> {
    static std::nullptr_t gen(Src&) { return nullptr; }
    static Val to(std::nullptr_t) { return Val::null(); }
    static bool from(Val const& v, std::nullptr_t&) { return v.t == Val::Null; }
    static bool eq(Val const& v, std::nullptr_t) { return v.t == Val::Null; }
  };
  template <> struct C<std::string> {
    static std::string gen(Src& s) { return s.draw(6) ? gen_str(s, small()) : s.draw(5) ? std::string(s.draw(40), 'a') : gen_str(s); }
    static Val to(std::string const& t) { return Val::str(t); }
    static bool from(Val const& v, std::string& t) { if (v.t != Val::Str) return false; t = v.s; return true; }
    static bool eq(Val const& v, std::string const& t) { return v.t == Val::Str && v.s == t; }
  };

  // Sequences
  template <class S, class T> struct Seq {
    static S gen(Src& s) { std::vector<T> v; for (size_t n = len(s); n; n--) v.push_back(C<T>::gen(s)); return S(v.begin(), v.end()); }
    static Val to(S const& t) { Val r = Val::arr(); for (auto& e : t) r.a.push_back(C<T>::to(e)); return r; }
    static bool from(Val const& v, S& t) {
      if (v.t != Val::Arr) return false;
      std::vector<T> x;
      for (auto& e : v.a) { T y; if (!C<T>::from(e, y)) return false; x.push_back(y); }
      t = S(x.begin(), x.end());
      return true;
    }
    static bool eq(Val const& v, S const& t) {
      if (v.t != Val::Arr) return false;
      size_t i = 0;
      for (auto& e : t) { if (i == v.a.size() || !C<T>::eq(v.a[i], e)) return false; i++; }
      return i == v.a.size();
    }
  };
  // The elements pair off one to one.
  template <class T, class I> bool permutes(std::vector<Val> const& a, I b, I e) {
    std::vector<Val> left = a;
    // Equality must be an equivalence for the question to make sense (1 and 1.0 are different documents that both equal 1).
    for (auto x = b; x != e; ++x) { Val const* m = nullptr; for (auto& v : a) if (C<T>::eq(v, *x)) { if (m && *m != v) unspec = true; m = &v; } }
    for (; b != e; ++b) {
      size_t i = 0;
      while (i < left.size() && !C<T>::eq(left[i], *b)) i++;
      if (i == left.size()) return false;
      left.erase(left.begin() + i);
    }
    return left.empty();
  }
  template <class S, class T> struct Set : Seq<S, T> {
    static bool eq(Val const& v, S const& t) { return v.t == Val::Arr && v.a.size() == t.size() && permutes<T>(v.a, t.begin(), t.end()); }
  };
  template <class T> struct C<std::vector<T>> : Seq<std::vector<T>, T> {};
  template <class T> struct C<std::deque<T>> : Seq<std::deque<T>, T> {};
  template <class T> struct C<std::list<T>> : Seq<std::list<T>, T> {};
  template <class T> struct C<std::forward_list<T>> : Seq<std::forward_list<T>, T> {};
  template <class T> struct C<std::set<T>> : Set<std::set<T>, T> {};
  template <class T> struct C<std::multiset<T>> : Set<std::multiset<T>, T> {};
  template <class T> struct C<std::unordered_set<T>> : Set<std::unordered_set<T>, T> {};
  template <class T> struct C<std::unordered_multiset<T>> : Set<std::unordered_multiset<T>, T> {};
  template <class T, size_t n> struct C<std::array<T, n>> {
    using S = std::array<T, n>;
    static S gen(Src& s) { S r; for (auto& e : r) e = C<T>::gen(s); return r; }
    static Val to(S const& t) { Val r = Val::arr(); for (auto& e : t) r.a.push_back(C<T>::to(e)); return r; }
    static bool from(Val const& v, S& t) {
      if (v.t != Val::Arr || v.a.size() != n) return false;
      for (size_t i = 0; i < n; i++) if (!C<T>::from(v.a[i], t[i])) return false;
      return true;
    }
    static bool eq(Val const& v, S const& t) {
      if (v.t != Val::Arr || v.a.size() != n) return false;
      for (size_t i = 0; i < n; i++) if (!C<T>::eq(v.a[i], t[i])) return false;
      return true;
    }
  };

  // Keys
  struct Id {
    int n = 0;
    bool operator ==(Id const& o) const { return n == o.n; }
    bool operator !=(Id const& o) const { return n != o.n; }
    bool operator <(Id const& o) const { return n > o.n; }
  };
  template <> struct C<Id> {
    static Id gen(Src& s) { return Id {(int)s.draw(12)}; }
    static Val to(Id const& t) { return Val::str("id:" + std::to_string(t.n)); }
    static bool from(Val const& v, Id& t) {
      if (v.t != Val::Str || v.s.compare(0, 3, "id:") || v.s.size() < 4 || v.s.size() > 8) return false;
      for (size_t i = 3; i < v.s.size(); i++) if (v.s[i] < '0' || v.s[i] > '9') return false;
      t.n = atoi(v.s.c_str() + 3);
      return true;
    }
    static bool eq(Val const& v, Id const& t) { return v.t == Val::Str && v.s == "id:" + std::to_string(t.n); }
  };
  template <class K> struct KeyGen { static K gen(Src& s, std::vector<K> const&) { return C<K>::gen(s); } };
  template <> struct KeyGen<std::string> {
    static std::string gen(Src& s, std::vector<std::string> const& near) { return gen_key(s, small(), near); }
  };
  template <class S, class K, class T> struct Map {
    static S gen(Src& s) {
      S r; std::vector<K> near;
      for (size_t n = len(s); n; n--) { near.push_back(KeyGen<K>::gen(s, near)); r.emplace(near.back(), C<T>::gen(s)); }
      return r;
    }
    static Val to(S const& t) { Val r = Val::obj(); for (auto& e : t) r.o[C<K>::to(e.first).s] = C<T>::to(e.second); return r; }
    static bool from(Val const& v, S& t) {
      if (v.t != Val::Obj) return false;
      t.clear();
      for (auto& e : v.o) { K k; T x; if (!C<K>::from(Val::str(e.first), k) || !C<T>::from(e.second, x)) return false; if (!t.emplace(k, x).second) unspec = true; }
      return true;
    }
    static bool eq(Val const& v, S const& t) {
      if (v.t != Val::Obj || v.o.size() != t.size()) return false;
      for (auto& e : t) { auto x = v.get(C<K>::to(e.first).s); if (!x || !C<T>::eq(*x, e.second)) return false; }
      return true;
    }
  };
  template <class S, class K, class T> struct Multi {
    static S gen(Src& s) {
      S r; std::vector<K> near;
      for (size_t n = len(s); n; n--) { near.push_back(near.size() && s.flip() ? s.pick(near) : KeyGen<K>::gen(s, near)); r.emplace(near.back(), C<T>::gen(s)); }
      return r;
    }
    static Val to(S const& t) { Val r = Val::obj(); for (auto& e : t) { auto& a = r.o[C<K>::to(e.first).s]; a.t = Val::Arr; a.a.push_back(C<T>::to(e.second)); } return r; }
    static bool from(Val const& v, S& t) {
      if (v.t != Val::Obj) return false;
      t.clear();
      for (auto& e : v.o) {
        K k; if (!C<K>::from(Val::str(e.first), k)) return false;
        if (e.second.t == Val::Arr) { for (auto& y : e.second.a) { T x; if (!C<T>::from(y, x)) return false; t.emplace(k, x); } }
        else { T x; if (!C<T>::from(e.second, x)) return false; t.emplace(k, x); }
      }
      return true;
    }
    static bool eq(Val const& v, S const& t) {
      if (v.t != Val::Obj) return false;
      std::map<std::string, std::vector<T>> g;
      for (auto& e : t) g[C<K>::to(e.first).s].push_back(e.second);
      if (g.size() != v.o.size()) return false;
      for (auto& e : g) { auto x = v.get(e.first); if (!x || x->t != Val::Arr || x->a.size() != e.second.size() || !permutes<T>(x->a, e.second.begin(), e.second.end())) return false; }
      return true;
    }
  };
  template <class K, class T> struct C<std::map<K, T>> : Map<std::map<K, T>, K, T> {};
  template <class K, class T, class H> struct C<std::unordered_map<K, T, H>> : Map<std::unordered_map<K, T, H>, K, T> {};
  template <class K, class T> struct C<std::multimap<K, T>> : Multi<std::multimap<K, T>, K, T> {};
  template <class K, class T, class H> struct C<std::unordered_multimap<K, T, H>> : Multi<std::unordered_multimap<K, T, H>, K, T> {};

  template <class T> struct C<dart::shim::optional<T>> {
    using S = dart::shim::optional<T>;
    static S gen(Src& s) { if (!s.draw(3)) return S(); return S(C<T>::gen(s)); }
    static Val to(S const& t) { return t ? C<T>::to(*t) : Val::null(); }
    static bool from(Val const& v, S& t) { if (v.t == Val::Null) { t = S(); return true; } T x; if (!C<T>::from(v, x)) return false; t = S(x); return true; }
    static bool eq(Val const& v, S const& t) { return t ? C<T>::eq(v, *t) : v.t == Val::Null; }
  };
  template <class... Ts> struct C<dart::shim::variant<Ts...>> {
    using S = dart::shim::variant<Ts...>;
    template <size_t i> static S gen_at(Src&, size_t, std::integral_constant<size_t, i>, std::false_type) { return S(); }
    template <size_t i> static S gen_at(Src& s, size_t w, std::integral_constant<size_t, i>, std::true_type) {
      if (w == i) return S(C<std::tuple_element_t<i, std::tuple<Ts...>>>::gen(s));
      return gen_at(s, w, std::integral_constant<size_t, i + 1> {}, std::integral_constant<bool, (i + 1 < sizeof...(Ts))> {});
    }
    static S gen(Src& s) { return gen_at(s, s.draw(sizeof...(Ts)), std::integral_constant<size_t, 0> {}, std::true_type {}); }
    static Val to(S const& t) { return dart::shim::visit([] (auto& x) { return C<std::decay_t<decltype(x)>>::to(x); }, t); }
    template <class...> struct L {};
    static bool try_(Val const&, S&, L<>) { return false; }
    template <class T, class... R> static bool try_(Val const& v, S& t, L<T, R...>) { T x; if (C<T>::from(v, x)) { t = S(x); return true; } return try_(v, t, L<R...> {}); }
    static bool from(Val const& v, S& t) { return try_(v, t, L<Ts...> {}); }
    static bool eq(Val const& v, S const& t) { return dart::shim::visit([&] (auto& x) { return C<std::decay_t<decltype(x)>>::eq(v, x); }, t); }
  };
  template <class A, class B> struct C<std::pair<A, B>> {
    using S = std::pair<A, B>;
    static S gen(Src& s) { auto a = C<A>::gen(s); return S(a, C<B>::gen(s)); }
    static Val to(S const& t) { return Val::arr({C<A>::to(t.first), C<B>::to(t.second)}); }
    static bool from(Val const& v, S& t) { return v.t == Val::Arr && v.a.size() == 2 && C<A>::from(v.a[0], t.first) && C<B>::from(v.a[1], t.second); }
    static bool eq(Val const& v, S const& t) { return v.t == Val::Arr && v.a.size() == 2 && C<A>::eq(v.a[0], t.first) && C<B>::eq(v.a[1], t.second); }
  };
  template <class... Ts> struct C<std::tuple<Ts...>> {
    using S = std::tuple<Ts...>;
    template <size_t i> using At = std::tuple_element_t<i, S>;
    template <size_t... i> static S gen_(Src& s, std::index_sequence<i...>) { S r; int x[] = {0, (std::get<i>(r) = C<At<i>>::gen(s), 0)...}; (void)x; return r; }
    static S gen(Src& s) { return gen_(s, std::index_sequence_for<Ts...> {}); }
    template <size_t... i> static Val to_(S const& t, std::index_sequence<i...>) { Val r = Val::arr(); int x[] = {0, (r.a.push_back(C<At<i>>::to(std::get<i>(t))), 0)...}; (void)x; return r; }
    static Val to(S const& t) { return to_(t, std::index_sequence_for<Ts...> {}); }
    template <size_t... i> static bool from_(Val const& v, S& t, std::index_sequence<i...>) { bool ok = true; int x[] = {0, (ok = ok && C<At<i>>::from(v.a[i], std::get<i>(t)), 0)...}; (void)x; return ok; }
    static bool from(Val const& v, S& t) { return v.t == Val::Arr && v.a.size() == sizeof...(Ts) && from_(v, t, std::index_sequence_for<Ts...> {}); }
    template <size_t... i> static bool eq_(Val const& v, S const& t, std::index_sequence<i...>) { bool ok = true; int x[] = {0, (ok = ok && C<At<i>>::eq(v.a[i], std::get<i>(t)), 0)...}; (void)x; return ok; }
    static bool eq(Val const& v, S const& t) { return v.t == Val::Arr && v.a.size() == sizeof...(Ts) && eq_(v, t, std::index_sequence_for<Ts...> {}); }
  };
  template <class T, T x> struct C<std::integral_constant<T, x>> {
    using S = std::integral_constant<T, x>;
    static S gen(Src&) { return {}; }
    static Val to(S) { return C<T>::to(x); }
    static bool from(Val const& v, S&) { return C<T>::eq(v, x); }
    static bool eq(Val const& v, S) { return C<T>::eq(v, x); }
  };
  // Civil date from days (proleptic Gregorian), written out independently of the C library.
  inline std::string iso(i64 t) {
    i64 days = t / 86400, sec = t % 86400; if (sec < 0) { sec += 86400; days--; }
    int y = 1970;
    auto leap = [] (int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; };
    while (days < 0) { y--; days += leap(y) ? 366 : 365; }
    while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; y++; }
    int const dm[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0; while (days >= dm[m]) days -= dm[m++];
    char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.000Z", y, m + 1, (int)days + 1, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60));
    return b;
  }
  template <class D> struct C<std::chrono::time_point<std::chrono::system_clock, D>> {
    using S = std::chrono::time_point<std::chrono::system_clock, D>;
    static i64 unit() { return std::max<i64>(1, std::chrono::duration_cast<std::chrono::seconds>(D(1)).count()); }
    static i64 secs(S t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
    static S mk(i64 x) { return S(std::chrono::duration_cast<D>(std::chrono::seconds(x / unit() * unit()))); }
    static S gen(Src& s) {
      i64 const lo = -9214560000ll, hi = 9214646399ll;   // 1678 to 2261
      i64 x;
      switch (s.draw(5)) {
        case 0: x = (i64)s.draw(100000); break;
        case 1: x = -(i64)s.draw(100000); break;
        case 2: x = (i64)s.draw(210000) * 86400 - 9214560000ll + (s.flip() ? 86399 : 0); break;   // ends of days
        default: x = s.range(lo, hi); break;
      }
      return mk(std::min(hi, std::max(lo, x)));
    }
    static Val to(S const& t) { return Val::str(iso(secs(t))); }
    static bool from(Val const& v, S& t) {
      if (v.t != Val::Str) return false;
      if (v.s.empty() || (v.s[0] > '9' && !isspace((unsigned char)v.s[0])) || v.s.size() < 6) return false;
      unspec = true;    // other strings: judged by the round trip of generated times alone
      return true;
    }
    static bool eq(Val const& v, S const& t) { return v == to(t); }
  };
  // Documents as elements.
  template <class P> struct CDoc {
    static P gen(Src& s) { return build(s, gen_val(s, opt())); }
    static Opt opt() { Opt o = small(); o.negzero = false; return o; }
    static P build(Src& s, Val const& v) { return s.draw(3) ? P(build_packet(v)) : P(build_subbuffer(v)); }
    static Val to(P const& p) { return extract<P>(p); }
    static bool from(Val const& v, P& p) { p = P(build_packet(v)); return true; }
    static bool eq(Val const& v, P const& p) { return v == extract<P>(p); }
  };
  template <> struct C<dart::packet> : CDoc<dart::packet> {};
  template <> struct C<dart::heap> : CDoc<dart::heap> {};

  // ---- checks ----
  // Optionals and variants have converting constructors of their own that a cast expression prefers.
  template <class T, class F> T direct_(F&& f, T*) { return static_cast<T>(std::forward<F>(f)); }
  template <class T, class F> dart::shim::optional<T> direct_(F&& f, dart::shim::optional<T>*) { return dart::convert::cast<dart::shim::optional<T>>(f); }
  template <class... T, class F> dart::shim::variant<T...> direct_(F&& f, dart::shim::variant<T...>*) { return dart::convert::cast<dart::shim::variant<T...>>(f); }
  template <class T, class F> std::tuple<T> direct_(F&& f, std::tuple<T>*) { return dart::convert::cast<std::tuple<T>>(f); }
  template <class T, class F> T direct(F&& f) { return direct_(std::forward<F>(f), (T*)nullptr); }
  template <class T, class F> void reads(F const& f, T const& t, char const* form) {
    auto at = std::string(" of ") + form;
    auto x = dart::convert::cast<T>(f);
    CHECK(x == t, "cast gives back the value" + at);
    CHECK(f.template as<T>() == t, "as gives back the value" + at);
    CHECK(direct<T>(f) == t, "conversion operator gives back the value" + at);
    { auto c = f; CHECK(std::move(c).template as<T>() == t, "as on a temporary gives back the value" + at); }
    { auto c = f; CHECK(direct<T>(std::move(c)) == t, "conversion operator on a temporary gives back the value" + at); }
    CHECK(f == t && t == f, "equals its own conversion" + at);
    CHECK(!(f != t) && !(t != f), "not unequal to its own conversion" + at);
    CHECK(dart::convert::compare(f, t) && dart::convert::compare(t, f), "compare with its own conversion" + at);
  }
  inline void ck(bool ok, std::string const& what) { CHECK(ok, what); }
  template <class T, class F> void other(F const& f, Val const& d, T const& t, char const* form) {
    auto at = std::string(" of ") + form;
    unspec = false;
    T want = t;
    bool ok = C<T>::from(d, want);
    if (!unspec) {
      if (ok) {
        NOTHROW(ck(dart::convert::cast<T>(f) == want, "cast of another document" + at), "cast of a matching document" + at);
        NOTHROW(ck(f.template as<T>() == want, "as of another document" + at), "as of a matching document" + at);
      } else {
        THROWS(dart::type_error, dart::convert::cast<T>(f), "cast of a wrongly shaped document" + at);
        THROWS(dart::type_error, f.template as<T>(), "as of a wrongly shaped document" + at);
        THROWS(dart::type_error, direct<T>(f), "conversion of a wrongly shaped document" + at);
      }
    }
    unspec = false;
    bool same = C<T>::eq(d, t);
    if (!unspec) {
      CHECK((f == t) == same, std::string(same ? "equal" : "different") + " native value compared with another document (==)" + at);
      CHECK((t == f) == same, std::string(same ? "equal" : "different") + " native value compared with another document (reversed ==)" + at);
      CHECK((f != t) == !same, std::string(same ? "equal" : "different") + " native value compared with another document (!=)" + at);
    }
  }

  template <class T, class P> void into(Src& s, T const& t, Val const& m, char const* form) {
    auto at = std::string(" into ") + form;
    P p = dart::convert::cast<P>(t);
    SAME(p, m, "conversion" + at);
    { T c = t; Val mc = C<T>::to(c); P q = dart::convert::cast<P>(std::move(c)); SAME(q, mc, "conversion of a temporary" + at); }
    { P q(t); SAME(q, m, "construction" + at); }
    { P q = P::make_null(); q = t; SAME(q, m, "assignment" + at); }
    P a = P::make_array(t, t), o = P::make_object("k", t);
    a.push_back(t); a.insert(0, t); a.set(1, t);
    o.add_field("l", t); o.insert("m", t); o.set("k", t);
    SAME(a, Val::arr({m, m, m, m}), "as an element" + at);
    SAME(o, Val::obj({{"k", m}, {"l", m}, {"m", m}}), "as a member" + at);
    reads<T>(p, t, form);
    P ao = P::make_object("x", 0, "y", a);
    reads<T>(ao["y"][2], t, form);
  }

  template <class T> void run(Src& s) {
    T t = C<T>::gen(s);
    Val m = C<T>::to(t);
    NOTE("document " + show(m, 500));
    if (m.nodes() > 2) s.nontrivial();
    into<T, dart::heap>(s, t, m, "heap");
    into<T, dart::packet>(s, t, m, "packet");
    auto b = build_subbuffer(m, &s);
    dart::packet fp {b};
    reads<T>(b, t, "buffer");
    reads<T>(fp, t, "finalized packet");
    { dart::heap h = dart::convert::cast<dart::heap>(t); dart::heap::view hv = h; CHECK(dart::convert::cast<T>(hv) == t, "through a view of heap"); }
    { dart::packet::view pv = fp; CHECK(dart::convert::cast<T>(pv) == t, "through a view of a packet"); }
    // Other documents: near misses, the same type's other values, anything.
    for (int i = 0; i < 3; i++) {
      Val d = s.weigh({3, 2, 1}) == 0 ? mutate(s, m, small()) : s.flip() ? C<T>::to(C<T>::gen(s)) : gen_val(s, small());
      if (s.draw(8) == 7) d = mutate(s, d, small());
      NOTE("other " + show(d, 300));
      bool nan = false;
      std::vector<Val const*> st {&d};
      while (st.size()) { auto v = st.back(); st.pop_back(); if (v->t == Val::Dec && (v->d != v->d || (v->d == 0 && std::signbit(v->d)))) nan = true; for (auto& e : v->a) st.push_back(&e); for (auto& e : v->o) st.push_back(&e.second); }
      if (nan) continue;
      T u; unspec = false;
      s.label(C<T>::from(d, u) ? "source:fits" : "source:wrong shape");
      s.label(C<T>::eq(d, t) ? "compare:equal" : "compare:different");
      switch (s.draw(4)) {
        case 0: other<T>(build_heap(d, &s), d, t, "heap"); break;
        case 1: other<T>(build_packet(d, &s), d, t, "packet"); break;
        case 2: other<T>(build_subbuffer(d, &s), d, t, "buffer"); break;
        default: other<T>(dart::packet {build_subbuffer(d, &s)}, d, t, "finalized packet"); break;
      }
    }
  }
}

#define TYPE(name, ...) static ::d15::Reg reg_##name(#name, ::d15::run<__VA_ARGS__>)

namespace dart { namespace convert {
  template <> struct conversion_traits<d15::Id> {
    template <class Packet> Packet to_dart(d15::Id id) { return Packet::make_string("id:" + std::to_string(id.n)); }
    template <class Packet> d15::Id from_dart(Packet const& p) {
      d15::Id i; mdl::Val v = p.is_str() ? mdl::Val::str(dl::str(p.strv())) : mdl::Val::null();
      if (!d15::C<d15::Id>::from(v, i)) throw type_error("not an id");
      return i;
    }
    template <class Packet> bool compare(Packet const& p, d15::Id const& id) noexcept { return p.is_str() && dl::str(p.strv()) == "id:" + std::to_string(id.n); }
  };
}}
namespace std { template <> struct hash<d15::Id> { size_t operator ()(d15::Id const& i) const { return i.n % 3; } }; }
