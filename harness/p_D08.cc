// D08: validated bytes are safe to read.
#include <pthread.h>
#include "dartlib.h"
#include "codec.h"
#include <new>
using namespace dl;

namespace {

  struct Mem { // exactly sized, 8 byte aligned
    gsl::byte* p = nullptr; size_t n = 0;
    Mem(std::string const& b) : n(b.size()) { void* q = nullptr; if (posix_memalign(&q, 8, n)) abort(); p = (gsl::byte*)q; memcpy(p, b.data(), n); }
    Mem(Mem const&) = delete;
    ~Mem() { free(p); }
  };
  struct NoFree { void operator ()(gsl::byte const*) const {} };

  char const *lo, *hi;
  u64 nodes, limit;
  bool inside(char const* p, size_t n) { return p >= lo && p <= hi && n <= (size_t)(hi - p); }

  template <class D> std::string keystr(D const& k) { return std::string(k.str(), k.size()); }

  // Reads everything reachable; every pointer must lie within the bytes and the work is bounded by their number.
  template <class D>
  void read(D const& d, int depth, bool direct) {
    CHECK(++nodes <= limit, "reading visits more values than the bytes can hold");
    switch (d.get_type()) {
      case dart::packet::type::object: {
        size_t n = d.size(), seen = 0;
        auto k = d.key_begin(); auto e = d.end();
        for (auto it = d.begin(); it != e; ++it, ++k, ++seen) {
          auto key = *k; auto val = *it;
          CHECK(key.is_str(), "key type");
          auto kv = key.strv();
          if (direct) CHECK(inside(kv.data(), kv.size() + 1), "key lies outside the bytes");
          CHECK(kv.data()[kv.size()] == 0, "key is terminated");
          volatile unsigned sum = 0; for (char c : kv) sum += (unsigned char)c;
          read(val, depth + 1, direct);
        }
        CHECK(seen == n, "object steps equal its size");
        break;
      }
      case dart::packet::type::array: {
        size_t n = d.size(), i = 0;
        auto e = d.end();
        for (auto it = d.begin(); it != e; ++it, ++i) { auto val = *it; read(val, depth + 1, direct); }
        CHECK(i == n, "array steps equal its size");
        if (n) { auto a = d.at(0), b = d.at(n - 1), c = d.at_back(), f = d.at_front(); (void)a; (void)b; (void)c; (void)f; }
        CHECK(d.get(n).is_null(), "past the end");
        break;
      }
      case dart::packet::type::string: {
        auto v = d.strv();
        if (direct) CHECK(inside(v.data(), v.size() + 1), "string lies outside the bytes");
        CHECK(v.data()[v.size()] == 0, "string is terminated");
        volatile unsigned sum = 0; for (char c : v) sum += (unsigned char)c;
        break;
      }
      case dart::packet::type::integer: { volatile i64 x = d.integer(); (void)x; break; }
      case dart::packet::type::decimal: { volatile double x = d.decimal(); (void)x; break; }
      case dart::packet::type::boolean: { volatile bool x = d.boolean(); (void)x; break; }
      case dart::packet::type::null: break;
      default: CHECK(false, "a value of no type");
    }
  }

  void read_all(Src& s, dart::buffer const& b, std::vector<std::string> const& words) {
    CHECK(b.is_object(), "the root is an object");
    nodes = 0; read(b, 0, true);
    u64 total = nodes;
    // Lookups.
    for (auto& w : words) {
      auto v = b[sv(w)]; nodes = 0; read(v, 0, true);
      auto f = b.find(sv(w)); if (f != b.end()) { auto x = *f; nodes = 0; read(x, 0, true); }
      auto fk = b.find_key(sv(w)); if (fk != b.key_end()) { auto x = *fk; CHECK(inside(x.str(), x.size() + 1), "found key outside"); }
      (void)b.has_key(sv(w));
      auto g = b.get_nested(sv(w)); nodes = 0; read(g, 0, true);
      auto h = b.get_nested(sv(w + "." + words[0])); nodes = 0; read(h, 0, true);
      try { auto a = b.at(sv(w)); } catch (std::out_of_range const&) {}
    }
    { auto ks = b.keys(); CHECK(ks.size() == b.size(), "keys()"); }
    // Text.
    try { auto j = b.to_json(); (void)j; } catch (std::exception const&) {}
    try { auto j = b.to_json<dart::write_nan>(); } catch (std::exception const&) {}
    // Comparison.
    dart::buffer c = b;
    (void)(c == b);
    auto own = dart::buffer(b.get_bytes());
    CHECK(own == b, "a copy of the bytes compares equal");
    CHECK(bytes_of(own.get_bytes()) == bytes_of(b.get_bytes()), "a copy has the same bytes");
    { size_t len = 0; auto d = b.dup_bytes(len); CHECK(len == b.get_bytes().size(), "dup_bytes length"); }
    // The other forms.
    dart::heap h {b};
    nodes = 0; read(h, 0, false);
    CHECK(nodes <= total, "definalizing adds values");
    (void)(h == b); (void)(b == h);
    dart::packet p {b}; nodes = 0; read(p, 0, true);
    p.lift(); nodes = 0; read(p, 0, false);
    auto again = h.lower();
    Val u = extract(again), w = extract(h);
    CHECK(u == w, "refinalizing what was definalized");
    // Nested values outlive the root handle.
    if (b.size()) { auto it = b.begin(); for (size_t n = s.draw(b.size()); n; n--) ++it; auto sub = *it; nodes = 0; read(sub, 0, true); }
    { dart::buffer::object ob {b}; (void)ob.size(); }
  }

  std::string valid_name(int v) { return v ? "accepts" : "rejects"; }

  // All ways of asking; they must agree.
  bool verdict(std::string const& b, Src& s) {
    Mem m {b};
    bool v = dart::is_valid(m.p, m.n);
    auto same = [&](bool w, char const* how) { CHECK(w == v, std::string("is_valid(pointer) ") + valid_name(v) + " but " + how + " " + valid_name(w)); };
    auto thr = [&](char const* how, auto&& f) {
      bool ok = true;
      try { f(); } catch (dart::validation_error const& e) { ok = false; CHECK(e.what() && *e.what(), "a message"); }
      same(ok, how);
    };
    gsl::span<gsl::byte const> sp {m.p, (std::ptrdiff_t)m.n};
    std::unique_ptr<gsl::byte const, NoFree> u1 {m.p}; std::unique_ptr<gsl::byte const[], NoFree> u2 {m.p};
    std::unique_ptr<gsl::byte, NoFree> u3 {m.p}; std::unique_ptr<gsl::byte[], NoFree> u4 {m.p};
    std::shared_ptr<gsl::byte const> sh {m.p, NoFree {}};
    same(dart::is_valid(sp), "is_valid(span)");
    same(dart::is_valid(u1, m.n), "is_valid(unique_ptr<const>)"); same(dart::is_valid(u2, m.n), "is_valid(unique_ptr<const[]>)");
    same(dart::is_valid(u3, m.n), "is_valid(unique_ptr)"); same(dart::is_valid(u4, m.n), "is_valid(unique_ptr<[]>)");
    same(dart::is_valid(sh, m.n), "is_valid(shared_ptr)");
    thr("validate(pointer)", [&] { dart::validate(m.p, m.n); });
    thr("validate(span)", [&] { dart::validate(sp); });
    thr("validate(unique_ptr<const>)", [&] { dart::validate(u1, m.n); }); thr("validate(unique_ptr<const[]>)", [&] { dart::validate(u2, m.n); });
    thr("validate(unique_ptr)", [&] { dart::validate(u3, m.n); }); thr("validate(unique_ptr<[]>)", [&] { dart::validate(u4, m.n); });
    thr("validate(shared_ptr)", [&] { dart::validate(sh, m.n); });
    (void)s;
    return v;
  }

  void examine(std::string const& bytes, Src& s, std::vector<std::string> const& words) {
    bool v = verdict(bytes, s);
    s.label(v ? "verdict:valid" : "verdict:rejected");
    if (!v) return;
    Mem m {bytes};
    lo = (char const*)m.p; hi = lo + m.n; limit = 2 + m.n;
    switch (s.draw(2)) {
      case 0: {
        dart::buffer b {std::shared_ptr<gsl::byte const>(m.p, NoFree {})};
        read_all(s, b, words);
        break;
      }
      default: {
        dart::buffer b {gsl::span<gsl::byte const>(m.p, (std::ptrdiff_t)m.n)};
        auto g = b.get_bytes(); lo = (char const*)g.data(); hi = lo + g.size();
        CHECK((size_t)g.size() <= m.n, "the copy is larger than the bytes");
        read_all(s, b, words);
        break;
      }
    }
  }

  void run(Src& s) {
    std::string b; std::vector<codec::Field> fs;
    std::vector<std::string> words = {"a", "", "key", std::string(300, 'k')};
    unsigned mode = s.weigh({8, 2, 1, 1});
    if (mode == 0 || mode == 1) {
      Opt o; o.depth = 1 + s.draw(4); o.nonfinite = true; o.big = s.draw(10) == 9; o.wide = s.draw(10) == 9; o.width = 2 + s.draw(6);
      Val v = gen_obj(s, o);
      if (v.o.empty()) { v.o["a"] = Val::arr({Val::null(), Val::integer(1)}); }
      for (auto& k : keys_of(v)) words.push_back(k);
      codec::How h; h.s = &s; h.wide = s.flip(); h.fields = &fs;
      b = codec::encode(v, h);
      int edits = mode == 1 ? 0 : 1 + s.draw(4);
      NOTE("document " + show(v, 500) + ", " + std::to_string(b.size()) + " bytes");
      for (int i = 0; i < edits; i++) { auto w = codec::corrupt(s, b, fs); NOTE("  " + w); }
      if (mode == 0) { s.nontrivial(); s.label("corrupted document"); } else s.label("genuine document");
    } else if (mode == 2) { // hand made headers over random contents
      size_t n = 8 * s.draw(30) + (s.draw(8) == 7 ? s.draw(8) : 0);
      b.resize(n); for (auto& c : b) c = s.draw(3) ? 0 : (char)s.draw(256);
      if (n >= 16) {
        codec::wr(b, 0, 4, s.draw(8) == 7 ? s.draw(0) : n); size_t k = s.draw((n - 8) / 8 + 1); codec::wr(b, 4, 4, k);
        for (size_t i = 0; i < k; i++) { codec::wr(b, 8 + 8 * i, 4, s.draw(n + 4) & ~1ull); codec::wr(b, 12 + 8 * i, 1, s.draw(13)); }
        s.nontrivial();
      }
      s.label("random tables");
    } else {
      size_t n = s.draw(64); for (size_t i = 0; i < n; i++) b += (char)s.draw(256);
      s.label("random bytes");
    }
    NOTE("bytes " + eng::quote(b, 200));
    examine(b, s, words);
    // The same range, one byte at a time shorter, must be safe to ask about as well.
    if (s.draw(16) == 15) for (size_t n = b.size(); n-- > 0 && b.size() - n < 40;) verdict(b.substr(0, n), s);
  }

  // Children laid one over another: few bytes, exponentially many values.
  std::string shared(int levels, bool arrays) {
    std::string b;
    // root object with one key whose value is an array of two entries which both refer to the next array, and so on
    size_t root = 8 + 8 + 4;               // header, entry, key "a" (2+1+1)
    root = (root + 7) / 8 * 8;
    size_t each = 8 + 16;
    b.assign(root + each * levels + 16, '\0');
    size_t total = b.size();
    codec::wr(b, 0, 4, total); codec::wr(b, 4, 4, 1);
    codec::wr(b, 8, 4, 16); codec::wr(b, 12, 1, arrays ? codec::ARRAY : codec::OBJECT); codec::wr(b, 13, 1, 1); codec::wr(b, 14, 2, 'a');
    codec::wr(b, 16, 2, 1); b[18] = 'a';
    for (int i = 0; i < levels; i++) {
      size_t base = root + each * i;
      codec::wr(b, base, 4, total - base); codec::wr(b, base + 4, 4, 2);
      for (int k = 0; k < 2; k++) { codec::wr(b, base + 8 + 8 * k, 4, each + (k && i + 1 == levels ? 0 : 0)); codec::wr(b, base + 12 + 8 * k, 1, codec::ARRAY); }
    }
    size_t last = root + each * levels;
    codec::wr(b, last, 4, 16); codec::wr(b, last + 4, 4, 0);
    return b;
  }

  void once() {
    Src s;
    eng::Src* keep = eng::current; eng::current = &s;
    for (auto& b : {std::string(), std::string(1, '\0'), std::string(7, '\0'), std::string(8, '\0'), std::string(16, '\0')}) verdict(b, s);
    CHECK(!dart::is_valid(gsl::span<gsl::byte const> {}), "an empty range is not valid");
    THROWS(dart::validation_error, dart::validate(gsl::span<gsl::byte const> {}), "an empty range");
    examine(codec::encode(Val::obj()), s, {"a"});
    for (int n : {1, 2, 8, 40}) examine(shared(n, true), s, {"a"});
    // every single byte of small documents set to every value
    for (auto& v : {Val::obj({{"a", Val::boolean(true)}, {"bb", Val::arr({Val::null(), Val::str("x"), Val::integer(70000)})}}),
                    Val::obj({{"k", Val::obj({{"x", Val::null()}, {"y", Val::dec(0.1)}})}, {"l", Val::arr({Val::arr(), Val::obj(), Val::boolean(false)})}})}) {
      auto b = codec::encode(v);
      for (size_t i = 0; i < b.size(); i++) for (int c = 0; c < 256; c++) { if (c > 12 && c < 248 && c % 16) continue; auto d = b; d[i] = (char)c; examine(d, s, {"a", "bb", "k"}); }
    }
    eng::current = keep;
  }
}

// A million nested arrays, validated on a thread with the usual 8 MB of stack.
static void* probe_run(void* p) { auto& b = *(std::string*)p; dart::is_valid(gsl::make_span((gsl::byte const*)b.data(), b.size())); return nullptr; }
static void probe_deep() {
  size_t n = 1000000; std::string b(24 + 16 * n + 8, '\0');
  codec::wr(b, 0, 4, b.size()); codec::wr(b, 4, 4, 1); codec::wr(b, 8, 4, 24); codec::wr(b, 12, 1, codec::ARRAY); codec::wr(b, 13, 1, 1); codec::wr(b, 14, 2, 'a'); codec::wr(b, 16, 2, 1); b[18] = 'a';
  for (size_t i = 0, at = 24; i < n; i++, at += 16) { codec::wr(b, at, 4, b.size() - at); codec::wr(b, at + 4, 4, 1); codec::wr(b, at + 8, 4, 16); codec::wr(b, at + 12, 1, codec::ARRAY); }
  codec::wr(b, b.size() - 8, 4, 8);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8u << 20);
  pthread_t t; CHECK(!pthread_create(&t, &a, probe_run, &b), "a thread"); pthread_join(t, nullptr);
}

namespace eng {
  Prop prop = {
    "D08", "encoded documents with one to four structure-aware corruptions (sizes, counts, offsets, types, lengths, shared children, truncations, flips), hand-made tables over random contents, and "
    "random bytes, in exactly sized memory under AddressSanitizer; whatever validation accepts is read out completely (all accessors, lookups, text, comparison, conversions), every string pointer must lie "
    "inside and the number of values visited is bounded by the bytes; all 14 validation entry points must agree; non-trivial: a corrupted document or a table",
    run, 6000, 300000
  };
}
static struct reg { reg() { eng::prop.once = once; eng::prop.known = {{"deep-validation", "validating arrays nested a million levels deep overflows an 8 MB stack", probe_deep}};
  eng::prop.assumptions = {"the range starts on an 8 byte boundary, as the interface requires", "nesting below about 2000 levels (deeper: see known_findings.txt)"}; } } r_;
