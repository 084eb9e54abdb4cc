// D02: finalized objects find exactly the keys they contain.
#include "dartlib.h"
using namespace dl;

static std::vector<std::string> family(Src& s) {
  // Keys built to collide: shared prefixes, equal lengths, bytes around the signed boundary.
  static const int plen[] = {0, 0, 1, 2, 3, 7, 250, 253, 254, 255, 256, 300, 1000};
  Opt o;
  std::vector<std::string> ks;
  std::string prefix;
  size_t pl = plen[s.draw(sizeof plen / sizeof *plen)];
  char pc = s.flip() ? (char)s.draw(256) : 'p';
  prefix.assign(pl, pc);
  size_t n = s.draw(3) == 2 ? s.draw(60) : s.draw(9);
  static const unsigned char tail[] = {'a', 'b', 0, 1, 0x7f, 0x80, 0x81, 0xff, 'z'};
  unsigned mode = s.draw(4);
  for (size_t i = 0; i < n; i++) {
    std::string k;
    switch (mode) {
      case 0: k = gen_key(s, o, ks); break;
      case 1: { k = prefix; size_t m = s.draw(4); for (size_t j = 0; j < m; j++) k += (char)tail[s.draw(sizeof tail)]; break; }
      case 2: { k.resize(1 + s.draw(2)); for (auto& c : k) c = (char)tail[s.draw(sizeof tail)]; k += prefix; break; }
      default: { k = prefix; k += (char)s.draw(256); if (s.flip()) k += (char)s.draw(256); break; }
    }
    ks.push_back(k);
  }
  return ks;
}

template <class P>
static void lookups(Src& s, P const& p, Val const& obj, std::string const& k) {
  auto* want = obj.get(k);
  typename dart::heap::string hk {sv(k)};
  std::string at = " key " + eng::quote(k);
  CHECK(p.has_key(sv(k)) == !!want, "has_key" + at);
  CHECK(p.has_key(hk) == !!want, "has_key(string)" + at);
  auto v = p.get(sv(k));
  auto v2 = p[sv(k)];
  auto v3 = p.get(hk);
  auto v4 = p[hk];
  auto it = p.find(sv(k));
  auto it2 = p.find(hk);
  auto kt = p.find_key(sv(k));
  auto kt2 = p.find_key(hk);
  if (want) {
    SAME(v, *want, "get" + at);
    SAME(v2, *want, "[]" + at);
    SAME(v3, *want, "get(string)" + at);
    SAME(v4, *want, "[string]" + at);
    SAME(p.at(sv(k)), *want, "at" + at);
    SAME(p.at(hk), *want, "at(string)" + at);
    CHECK(it != p.end() && it2 != p.end(), "find" + at);
    SAME(*it, *want, "*find" + at);
    SAME(*it2, *want, "*find(string)" + at);
    CHECK(kt != p.key_end() && kt2 != p.key_end(), "find_key" + at);
    CHECK(str((*kt).strv()) == k && str((*kt2).strv()) == k, "*find_key" + at);
  } else {
    CHECK(v.is_null() && v2.is_null() && v3.is_null() && v4.is_null(), "get of a missing key" + at);
    THROWS(std::out_of_range, p.at(sv(k)), "at of a missing key" + at);
    THROWS(std::out_of_range, p.at(hk), "at of a missing key" + at);
    CHECK(it == p.end() && it2 == p.end(), "find of a missing key" + at);
    CHECK(kt == p.key_end() && kt2 == p.key_end(), "find_key of a missing key" + at);
  }
}

static void run(Src& s) {
  Opt o; o.depth = 1; o.width = 3; o.wide = false; o.nonfinite = false;
  Val v = Val::obj();
  std::vector<std::string> ks;
  if (s.draw(4)) { ks = family(s); for (auto& k : ks) v.o[k] = s.draw(6) ? Val::integer(v.o.size()) : gen_val(s, o); }
  else { v = gen_obj(s); ks = keys_of(v); }
  NOTE("object " + show(v, 600));
  Val root = v; std::string where;
  auto b = build_buffer(v, &s);
  if (s.draw(4) == 3) { // as a nested object
    s.label("nested");
    auto outer = build_buffer(Val::obj({{"before", Val::str("xyz")}, {"in", v}}), &s);
    b = outer["in"];
  }
  dart::packet p {b};
  label_val(s, v);
  s.label(ks.size() > 20 ? "keys:>20" : ks.size() > 3 ? "keys:4-20" : "keys:0-3");
  if (v.o.size() >= 3) s.nontrivial();
  size_t n = 0;
  for (auto& x : v.o) if (++n <= 40) lookups(s, b, v, x.first);
  for (int i = 0; i < 12; i++) {
    auto k = gen_key(s, o, ks);
    s.label(v.get(k) ? "probe:present" : "probe:absent");
    lookups(s, b, v, k);
    if (i < 3) lookups(s, p, v, k);
  }
  if (ks.size()) {
    // Systematic near misses of one member.
    auto k = s.pick(ks);
    lookups(s, p, v, k);
    for (int d : {-1, 1}) for (size_t at : {size_t(0), k.size() / 2, k.size() - 1}) if (at < k.size()) { auto m = k; m[at] = (char)(m[at] + d); lookups(s, b, v, m); }
    lookups(s, b, v, k + '\0');
    lookups(s, b, v, k.substr(0, k.size() ? k.size() - 1 : 0));
    if (k.size() > 256) { lookups(s, b, v, k.substr(0, 255)); lookups(s, b, v, k.substr(0, k.size() - 256)); }
  }
}

static void once() {
  // Every key length from 0 to 600 and around the maximum, in objects of neighbours.
  std::vector<size_t> lens;
  for (size_t i = 0; i <= 600; i++) lens.push_back(i);
  for (size_t i : {4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535}) lens.push_back(i);
  Src s;
  for (size_t base = 0; base < lens.size(); base += 3) {
    Val v = Val::obj();
    for (size_t i = base; i < std::min(base + 5, lens.size()); i++) { v.o[std::string(lens[i], 'k')] = Val::integer(i); if (lens[i]) { auto k = std::string(lens[i], 'k'); k.back() = '\xff'; v.o[k] = Val::integer(-(int)i); } }
    auto b = build_buffer(v);
    for (auto& x : v.o) lookups(s, b, v, x.first);
    for (auto& x : v.o) { auto k = x.first; k += 'k'; lookups(s, b, v, k); if (x.first.size()) { k = x.first; k[0] = '\x80'; lookups(s, b, v, k); } }
  }
  // Very wide objects: counts on both sides of the 15- and 16-bit limits.
  for (size_t n : {size_t(32766), size_t(32770), size_t(65537), size_t(70001)}) {
    Val w = Val::obj();
    for (size_t i = 0; i < n; i++) { auto k = "k" + std::to_string(i * 2654435761u % 1000003); w.o[k] = Val::integer(i); }
    dart::heap h = dart::heap::make_object();
    for (auto& x : w.o) h.add_field(sv(x.first), x.second.i);
    dart::buffer wb = h.lower();
    CHECK(wb.size() == w.o.size(), "size of a very wide object");
    size_t at = 0;
    for (auto& x : w.o) {
      if (++at % 37 && at + 40 < w.o.size() && at > 40) continue;
      auto g = wb.get(sv(x.first));
      CHECK(g.is_integer() && g.integer() == x.second.i, "get of a member of a very wide object: " + x.first);
      CHECK(!wb.has_key(sv(x.first + "x")), "absent key of a very wide object");
    }
  }
  // Every one- and two-byte prefix pattern.
  Val v = Val::obj();
  for (int c = 0; c < 256; c++) { v.o[std::string(1, (char)c)] = Val::integer(c); v.o[std::string(1, (char)c) + "x"] = Val::integer(1000 + c); if (c % 3) v.o[std::string("y") + (char)c] = Val::integer(2000 + c); }
  auto b = build_buffer(v);
  for (int c = 0; c < 256; c++) for (auto k : {std::string(1, (char)c), std::string(1, (char)c) + "x", std::string("y") + (char)c, std::string("xx") + (char)c}) lookups(s, b, v, k);
}

namespace eng {
  Prop prop = {
    "D02", "random key sets (families with shared prefixes, equal lengths, embedded zeros, bytes over 127, lengths around 2, 8, 254-257 and up to 65535) "
    "finalized by random routes; every member and near-miss probes looked up through every entry point (get, [], at, has_key, find, find_key; text and string keys) "
    "against a map; non-trivial: at least 3 keys",
    run, 20000, 400000
  };
}
static struct reg { reg() { eng::prop.once = once; } } r_;
