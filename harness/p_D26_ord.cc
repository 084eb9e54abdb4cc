#include "d26.h"
#include <cmath>
#include <limits>

template <class T> static std::string bytes_(T const& t) { return std::string((char const*)&t, sizeof t); }
template <class T> static std::string show(T t) { auto b = bytes_(t); std::string r; for (unsigned char c : b) { char x[4]; snprintf(x, 4, "%02x", c); r += x; } return r + "(" + std::to_string((long double)t) + ")"; }

template <class T> static T gen(Src& s) {
  switch (s.draw(4)) {
    case 0: return (T)(int)s.draw(5);
    case 1: { eng::u64 v = s.draw(0); T t; memcpy(&t, &v, sizeof t); return t; }
    case 2: { T c[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::lowest(), (T)-1, std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::quiet_NaN(), (T)0x12}; return c[s.draw(8)]; }
    default: { auto i = s.range(-200, 200); if (std::is_floating_point<T>::value) return (T)(i / 8.0); return (T)i; }
  }
}

template <class T> static std::string layout(T t, bool big) { auto b = bytes_(t); if (big) std::reverse(b.begin(), b.end()); return b; }

template <class T> static bool fits(long double v) { return std::isfinite(v) && (sizeof(T) < 8 || std::fabs(v) < 4e18L) && v > (long double)std::numeric_limits<T>::lowest() - 1 && v < (long double)std::numeric_limits<T>::max() + 1; }
// Whether native arithmetic is defined: computed in the common type, and converted back.
template <class T> struct safe {
  template <class U, class F> static bool ok(T a, U b, F over, bool division) {
    using C = decltype(a + b); C x = (C)a, y = (C)b, r = 0;
    if constexpr (std::is_floating_point<C>::value) { C q; switch (over) { case '+': q = x + y; break; case '-': q = x - y; break; case '*': q = x * y; break; default: q = x / y; } return std::is_floating_point<T>::value || fits<T>(q); }
    else if (over == '/') return y != 0 && !(std::is_signed<C>::value && x == std::numeric_limits<C>::lowest() && y == (C)-1);
    else if constexpr (std::is_signed<C>::value) switch (over) { case '+': return !__builtin_add_overflow(x, y, &r); case '-': return !__builtin_sub_overflow(x, y, &r); default: return !__builtin_mul_overflow(x, y, &r); }
    else return true;
  }
  template <class U> static bool sum(T a, U b, int sign) { return ok(a, b, sign > 0 ? '+' : '-', false); }
  template <class U> static bool mul(T a, U b) { return ok(a, b, '*', false); }
  template <class U> static bool div(T a, U b) { return b != 0 && ok(a, b, '/', true); }
};

template <class T, class U> static void arith(Src& s, std::true_type) {
  T a = gen<T>(s); U b = gen<U>(s);
  bool big = s.flip();
  NOTE("numbers " + show(a) + " and " + show(b));
  s.nontrivial();
  auto go = [&](auto o) {
    using O = decltype(o);
    auto same = [&](O const& x, T y, char const* what) {
      std::string h = std::string(what) + " on " + show(a) + " and " + show(b);
      CHECK(bytes_(x) == layout(y, big) || (y != y && x.get() != x.get()), h + ": bytes " + show(x.get()) + " want " + show(y));
      CHECK(bytes_(x.get()) == bytes_(y) || (y != y && x.get() != x.get()), h + ": value " + show(x.get()) + " want " + show(y));
      T z = x; CHECK(bytes_(z) == bytes_(y) || y != y, h + ": converted");
    };
    static_assert(sizeof(O) == sizeof(T), "size");
    { O x; same(x, T(), "default"); }
    { O x(a); CHECK(bytes_(x) == layout(a, big), "set bit patterns " + show(a)); same(x, a, "construct"); O y = x; same(y, a, "copy"); y = (T)3; same(y, (T)3, "assign"); y = std::move(x); same(y, a, "move"); }
    { O x; T r = x.set(a); same(x, a, "set"); CHECK(bytes_(r) == bytes_(a), "set returns"); }
    { O x(a); dart::big_order<U> y(b); dart::little_order<U> z(b); CHECK((x == y) == (a == b) && (x == z) == (a == b) && (x != y) == (a != b) && (x != z) == (a != b), "equality of " + show(a) + " and " + show(b));
      CHECK((x == a) == (a == a), "equality with a number"); }
    if (safe<T>::sum(a, b, 1)) { T n = a; n += b; O x(a); auto& r = (x += b); same(x, n, "+="); CHECK(&r == &x, "returns itself"); }
    if (safe<T>::sum(a, b, -1)) { T n = a; n -= b; O x(a); x -= b; same(x, n, "-="); }
    if (safe<T>::mul(a, b)) { T n = a; n *= b; O x(a); x *= b; same(x, n, "*="); }
    if (safe<T>::div(a, b)) { T n = a; n /= b; O x(a); x /= b; same(x, n, "/="); }
    if (safe<T>::sum(a, 1, 1)) { T n = a; O x(a); auto p = x++; CHECK(bytes_(p) == bytes_(n) || n != n, "x++"); n++; same(x, n, "x++"); O y(a); auto& q = ++y; CHECK(&q == &y, "++x"); same(y, n, "++x"); }
    if (safe<T>::sum(a, 1, -1)) { T n = a; O x(a); auto p = x--; CHECK(bytes_(p) == bytes_(n) || n != n, "x--"); n--; same(x, n, "x--"); O y(a); --y; same(y, n, "--x"); }
    T c = gen<T>(s);
    if (safe<T>::sum(a, c, 1)) { T n = a; n += c; O x(a); T r = x.increment(c); same(x, n, "increment"); CHECK(bytes_(r) == bytes_(n) || n != n, "increment returns"); }
    if (safe<T>::mul(a, c)) { T n = a; n *= c; O x(a); T r = x.scale(c); same(x, n, "scale"); CHECK(bytes_(r) == bytes_(n) || n != n, "scale returns"); }
    if (safe<T>::div(a, c)) { T n = a; n /= c; O x(a); T r = x.shrink(c); same(x, n, "shrink"); CHECK(bytes_(r) == bytes_(n) || n != n, "shrink returns"); }
    bits(a, b, c, o, same, std::integral_constant<bool, std::is_integral<T>::value && std::is_integral<U>::value>());
  };
  if (big) go(dart::big_order<T> {}); else go(dart::little_order<T> {});
}
template <class T, class U, class O, class F> static void bits(T a, U b, T c, O, F same, std::true_type) {
  { T n = a; n &= b; O x(a); x &= b; same(x, n, "&="); n = a; n &= c; O y(a); CHECK(y.mask(c) == n, "mask returns"); same(y, n, "mask"); }
  { T n = a; n |= b; O x(a); x |= b; same(x, n, "|="); n = a; n |= c; O y(a); CHECK(y.fill(c) == n, "fill returns"); same(y, n, "fill"); }
  { T n = a; n ^= b; O x(a); x ^= b; same(x, n, "^="); n = a; n ^= c; O y(a); CHECK(y.flip(c) == n, "flip returns"); same(y, n, "flip"); }
}
template <class T, class U, class O, class F> static void bits(T, U, T, O, F, std::false_type) {}

template <class T> static void with(Src& s) {
  std::true_type t;
  switch (s.draw(7)) {
    case 0: return arith<T, T>(s, t);
    case 1: return arith<T, int>(s, t);
    case 2: return arith<T, unsigned>(s, t);
    case 3: return arith<T, double>(s, t);
    case 4: return arith<T, int64_t>(s, t);
    case 5: return arith<T, uint64_t>(s, t);
    default: return arith<T, uint8_t>(s, t);
  }
}

enum class Small : uint16_t { a = 1, b = 0x1234, c = 0xffff };

void d26_ord(Src& s) {
  switch (s.draw(11)) {
    case 0: return with<int64_t>(s);
    case 1: return with<uint64_t>(s);
    case 2: return with<int32_t>(s);
    case 3: return with<uint32_t>(s);
    case 4: return with<int16_t>(s);
    case 5: return with<uint16_t>(s);
    case 6: return with<int8_t>(s);
    case 7: return with<uint8_t>(s);
    case 8: return with<double>(s);
    case 9: return with<float>(s);
    default: { // pointers, enumerations, booleans
      int arr[8] = {0, 1, 2, 3, 4, 5, 6, 7};
      int i = s.draw(8), j = (int)s.range(-i, 7 - i);
      s.nontrivial();
      auto go = [&](auto o, auto e, auto b, bool big) {
        using O = decltype(o);
        O x(arr + i); CHECK(bytes_(x) == layout(arr + i, big), "pointer layout"); CHECK(*x == arr[i] && x.get() == arr + i, "pointer value");
        x += j; CHECK(x.get() == arr + i + j && *x == i + j, "pointer +="); x -= j; CHECK(x.get() == arr + i, "pointer -=");
        if (i < 7) { CHECK((x++) == arr + i && x.get() == arr + i + 1, "pointer ++"); --x; CHECK(x.get() == arr + i, "pointer --"); }
        Small es[] = {Small::a, Small::b, Small::c}; Small v = es[s.draw(3)];
        e = v; CHECK(bytes_(e) == layout(v, big) && e.get() == v, "enumeration");
        bool f = s.flip(); b = f; CHECK(bytes_(b) == layout(f, big) && b.get() == f, "boolean");
      };
      if (s.flip()) go(dart::big_order<int*>(), dart::big_order<Small>(), dart::big_order<bool>(), true);
      else go(dart::little_order<int*>(), dart::little_order<Small>(), dart::little_order<bool>(), false);
    }
  }
}
