#include "d15.h"
namespace d15 {
  bool unspec;
  std::vector<Type>& types() { static std::vector<Type> t; return t; }
}
using namespace d15;

TYPE(int64, int64_t);
TYPE(int32, int);
TYPE(int16, int16_t);
TYPE(int8, signed char);
TYPE(uint8, unsigned char);
TYPE(uint16, uint16_t);
TYPE(uint32, unsigned);
TYPE(uint64, uint64_t);
TYPE(float32, float);
TYPE(float64, double);
TYPE(boolean, bool);
TYPE(null, std::nullptr_t);
TYPE(string, std::string);
TYPE(user, Id);
TYPE(const_int, std::integral_constant<int, 5>);
TYPE(const_bool, std::integral_constant<bool, true>);

// Types that convert one way only or do not own their text.
static void borrowed(Src& s) {
  auto t = C<std::string>::gen(s);
  Val m = Val::str(t);
  auto v = sv(t);
  for (int i = 0; i < 2; i++) {
    dart::packet p = i ? dart::packet {build_subbuffer(m)} : dart::convert::cast<dart::packet>(v);
    SAME(p, m, "conversion of a string view");
    CHECK(dart::convert::cast<dart::shim::string_view>(p) == v && p == v && v == p && !(p != v), "string view");
    if (t.find('\0') == std::string::npos) {
      SAME(dart::convert::cast<dart::heap>(t.c_str()), m, "conversion of a C string");
      CHECK(p == t.c_str() && t.c_str() == p && !(p != t.c_str()), "comparison with a C string");
      CHECK(!strcmp(dart::convert::cast<char const*>(p), t.c_str()), "extraction of a C string");
    }
  }
  CHECK(!(dart::convert::cast<dart::heap>(v) == sv(t + "x")), "longer string view");
  THROWS(dart::type_error, dart::convert::cast<dart::shim::string_view>(dart::packet::make_integer(1)), "string view of an integer");
  std::vector<int64_t> x; for (size_t n = len(s); n; n--) x.push_back(gen_int(s));
  gsl::span<int64_t> sp(x);
  Val a = C<std::vector<int64_t>>::to(x);
  auto h = dart::convert::cast<dart::heap>(sp); SAME(h, a, "conversion of a span");
  auto p = dart::convert::cast<dart::packet>(sp); SAME(p, a, "conversion of a span");
  auto b = build_subbuffer(a, &s);
  gsl::span<int64_t const> csp(x);
  CHECK(h == sp && p == sp && b == sp && sp == b, "comparison with a span");
  if (x.size()) {
    s.nontrivial();
    auto y = x; y[s.draw(y.size())] ^= 1; gsl::span<int64_t> ysp(y);
    CHECK(h != ysp && p != ysp && b != ysp, "comparison with a different span");
    y = x; y.pop_back(); ysp = y;
    CHECK(h != ysp && p != ysp && b != ysp, "comparison with a shorter span");
    y = x; y.push_back(0); ysp = y;
    CHECK(h != ysp && p != ysp && b != ysp, "comparison with a longer span");
  }
}
static Reg b_("borrowed", borrowed);

static void run(Src& s) {
  auto& t = types()[s.draw(types().size())];
  s.label(t.name);
  NOTE(std::string("type ") + t.name);
  t.run(s);
}

namespace eng {
  Prop prop = {
    "D15", "random values of about 60 native types (machine numbers, text, sequences, maps, multimaps, sets, optionals, variants, tuples, time points, user types and nestings); "
    "converted into and out of every form by copy, move, construction, assignment and insertion, and compared in both orders with their own documents, near misses and unrelated documents; "
    "expected documents, extractions and comparisons come from per-type models; non-trivial: the document has more than 2 nodes",
    run, 16000, 800000
  };
}
static struct reg { reg() { eng::prop.assumptions = {"integers over 2^53 are not compared with decimals; narrowing conversions of values out of range are not judged", "time points have whole seconds, from 1678 to 2261"}; } } r_;
