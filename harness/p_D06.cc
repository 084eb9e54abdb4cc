// D06: JSON text and documents correspond exactly.
#include "dartlib.h"
#include <cmath>
using namespace dl;

static constexpr int ULPS = 8;   // the default number parser trades the last bits for speed

static bool moderate(Val const& v) { // away from the overflow limit of that parser
  if (v.t == Val::Dec) return std::fabs(v.d) < 1e300;
  for (auto& x : v.a) if (!moderate(x)) return false;
  for (auto& x : v.o) if (!moderate(x.second)) return false;
  return true;
}

#define NEAR(got, want, msg) do { auto g_ = extract(got); auto const& w_ = (want); \
  if (!near(g_, w_, ULPS)) eng::fail(__FILE__, __LINE__, #got, std::string(msg) + ": " + diff(g_, w_)); } while (0)

static void written(std::string const& json, Val const& v, char const* what) {
  Val back; std::string err; JsonInfo info;
  CHECK(json_parse(json, back, err, &info), std::string(what) + " is not valid JSON (" + err + "): " + eng::quote(json, 300));
  CHECK(info.dups == 0, std::string(what) + " repeats a key: " + eng::quote(json, 300));
  CHECK(back == v, std::string(what) + " denotes another document: " + diff(back, v) + " in " + eng::quote(json, 300));
}

static bool nan_same(Val const& x, Val const& y) {
  if (x.t == Val::Dec && y.t == Val::Dec && std::isnan(x.d)) return std::isnan(y.d);
  if (x.t != y.t) return false;
  if (x.t == Val::Arr) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!nan_same(x.a[i], y.a[i])) return false; return true; }
  if (x.t == Val::Obj) { if (x.o.size() != y.o.size()) return false; auto j = y.o.begin(); for (auto& p : x.o) { if (p.first != j->first || !nan_same(p.second, j->second)) return false; ++j; } return true; }
  return near(x, y, ULPS);
}

static void run(Src& s) {
  Opt o; o.bytes = false; o.depth = 1 + s.draw(4);
  unsigned mode = s.draw(8);
  Val v;
  if (mode == 7) { // not only objects
    v = gen_val(s, o);
  } else v = gen_obj(s, o);
  if (s.draw(30) == 29) { size_t n = s.draw(200); s.label("deep chain"); for (size_t i = 0; i < n; i++) v = s.flip() ? Val::arr({v}) : Val::obj({{"k", v}}); if (v.t != Val::Obj) v = Val::obj({{"r", v}}); }
  label_val(s, v);
  NOTE("document " + show(v, 800));
  if (v.is_agg() && v.size()) s.nontrivial();

  // Writing.
  auto h = build_heap(v, &s);
  written(h.to_json(), v, "heap.to_json()");
  SAME(h, v, "the document after writing it");
  auto sub = build_subbuffer(v, &s);
  auto bj = sub.to_json();
  written(bj, v, "buffer.to_json()");
  dart::packet p = s.flip() ? dart::packet(sub) : dart::packet(h);
  auto pj = p.to_json();
  written(pj, v, "packet.to_json()");

  // Reading what was written.
  bool mod = moderate(v);
  if (!mod) s.label("extreme decimals (writing only)");
  if (v.is_agg() && mod) {
    NEAR(dart::heap::from_json(sv(bj)), v, "heap from the written text");
    if (v.t == Val::Obj) NEAR(dart::buffer::from_json(sv(pj)), v, "buffer from the written text");
  }

  // Reading any text that denotes the document.
  if (v.is_agg() && mod) {
    JsonStyle st; st.ws = s.flip(); st.escapes = s.flip(); st.dups = s.draw(3) == 2; st.numforms = s.flip();
    auto text = json_write(v, &s, st);
    NOTE("text " + eng::quote(text, 400));
    if (st.dups) s.label("text:duplicate keys"); if (st.escapes) s.label("text:escapes"); if (st.numforms) s.label("text:number forms");
    auto h2 = dart::heap::from_json(sv(text));
    NEAR(h2, v, "heap::from_json");
    NEAR(dart::heap::parse(sv(text)), v, "heap::parse");
    NEAR(dart::packet::from_json(sv(text)), v, "packet::from_json");
    if (v.t == Val::Obj) {
      auto b2 = dart::buffer::from_json(sv(text));
      NEAR(b2, v, "buffer::from_json");
      CHECK(extract(b2) == extract(h2), "both forms of the parsed text agree: " + diff(extract(b2), extract(h2)));
      CHECK(b2 == h2 && h2.lower() == b2, "both forms of the parsed text compare equal");
      auto p2 = dart::packet::from_json(sv(text), true);
      CHECK(p2.is_finalized(), "packet::from_json(text, true) is finalized");
      NEAR(p2, v, "packet::from_json(text, true)");
      NEAR(dart::buffer::parse(sv(text)), v, "buffer::parse");
    }
    if (s.draw(4) == 3) { // the documented dialects
      JsonStyle d = st; d.dups = false; d.comments = s.flip(); d.trailing = !d.comments || s.flip(); d.ws = true;
      auto t2 = json_write(v, &s, d);
      NOTE("dialect text " + eng::quote(t2, 400));
      if (d.comments) s.label("text:comments"); if (d.trailing) s.label("text:trailing commas");
      NEAR(dart::heap::from_json<dart::parse_permissive>(sv(t2)), v, "heap::from_json<parse_permissive>");
      if (v.t == Val::Obj) NEAR(dart::buffer::from_json<dart::parse_permissive>(sv(t2)), v, "buffer::from_json<parse_permissive>");
      NEAR((dart::packet::from_json<dart::parse_permissive>(sv(t2))), v, "packet::from_json<parse_permissive>");
    }
  }

  if (s.draw(6) == 5) { // infinities and NaN, when asked for
    Opt n = o; n.nonfinite = true; n.depth = 2;
    Val w = gen_obj(s, n); w.o["n"] = Val::dec(s.flip() ? NAN : s.flip() ? INFINITY : -INFINITY);
    if (moderate(w) || true) {
      s.label("non-finite");
      auto hw = build_heap(w, &s);
      auto text = s.flip() ? hw.to_json<dart::write_nan>() : hw.lower().to_json<dart::write_nan>();
      bool fin = true; // extreme finite numbers aside
      std::function<void(Val const&)> walk = [&](Val const& x) { if (x.t == Val::Dec && std::isfinite(x.d) && std::fabs(x.d) > 1e300) fin = false; for (auto& y : x.a) walk(y); for (auto& y : x.o) walk(y.second); };
      walk(w);
      if (fin) {
        CHECK(nan_same(extract(dart::heap::from_json<dart::parse_nan>(sv(text))), w), "write_nan / parse_nan round trip (heap) of " + eng::quote(text, 300));
        CHECK(nan_same(extract(dart::buffer::from_json<dart::parse_nan>(sv(text))), w), "write_nan / parse_nan round trip (buffer) of " + eng::quote(text, 300));
      }
    }
  }
}

static void once() {
  auto both = [](std::string const& t, Val const& v) {
    NEAR(dart::heap::from_json(sv(t)), v, "heap " + t);
    NEAR(dart::buffer::from_json(sv(t)), v, "buffer " + t);
  };
  auto one = [&](std::string const& n, Val const& v) { both("{\"a\":" + n + "}", Val::obj({{"a", v}})); };
  for (int sh = 0; sh < 64; sh++) for (int d = -2; d <= 2; d++) {
    auto u = (1ull << sh) + d;
    one(std::to_string((int64_t)u), Val::integer((int64_t)u));
    if ((int64_t)u < 0) one(std::to_string(u), Val::dec((double)u));
  }
  one("18446744073709551615", Val::dec(18446744073709551615.0));
  one("18446744073709551616", Val::dec(18446744073709551616.0));
  one("-9223372036854775809", Val::dec(-9223372036854775809.0));
  one("1e0", Val::dec(1)); one("1E+2", Val::dec(100)); one("0.0", Val::dec(0)); one("-0.0", Val::dec(-0.0)); one("-0", Val::integer(0)); one("0", Val::integer(0));
  one("\"\\u0000\"", Val::str(std::string(1, '\0'))); one("\"\\ud83d\\ude00\"", Val::str("\xf0\x9f\x98\x80"));
  for (int c = 0; c < 128; c++) { char b[32]; snprintf(b, 32, "\"\\u%04x\"", c); one(b, Val::str(std::string(1, (char)c))); if (c >= 32 && c != '"' && c != '\\') one(std::string("\"") + (char)c + '"', Val::str(std::string(1, (char)c))); }
  for (int c = 0; c < 128; c++) for (auto h : {true, false}) { Val v = Val::obj({{std::string("k") + (char)c, Val::str(std::string(3, (char)c))}}); auto d = build_heap(v); written(h ? d.to_json() : d.lower().to_json(), v, "escaping"); }
  for (auto n : {0, 1, 14, 15, 16, 22, 23, 24, 65534, 65535}) both("{\"" + std::string(n, 'k') + "\":\"" + std::string(n, 'v') + "\"}", Val::obj({{std::string(n, 'k'), Val::str(std::string(n, 'v'))}}));
  both("{}", Val::obj()); both(" { } ", Val::obj()); both("{\"a\":[[],[[]],{}]}", Val::obj({{"a", Val::arr({Val::arr(), Val::arr({Val::arr()}), Val::obj()})}}));
  both("{\"a\":1,\"a\":2,\"b\":3,\"a\":[4]}", Val::obj({{"a", Val::arr({Val::integer(4)})}, {"b", Val::integer(3)}}));
  SAME(dart::heap::from_json("[]"), Val::arr(), "array root");
  SAME(dart::heap::from_json("[1,[2]]"), Val::arr({Val::integer(1), Val::arr({Val::integer(2)})}), "array root");
}

namespace eng {
  Prop prop = {
    "D06", "random documents (Unicode strings) written by each form and read by an independent JSON parser; random texts for them (whitespace, escapes, number forms, "
    "duplicate keys, and the documented dialects) read by each form and compared with the document; non-trivial: a non-empty aggregate",
    run, 5000, 150000
  };
}
static struct reg { reg() { eng::prop.once = once; eng::prop.assumptions = {"decimals read by the default parser may be off by up to 8 units in the last place; magnitudes above 1e300 are only written"}; } } r_;
