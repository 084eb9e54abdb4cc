// D09: validation accepts every genuine buffer and no truncation of one.
#include "dartlib.h"
#include "codec.h"
using namespace dl;

namespace {
  struct Mem {
    gsl::byte* p = nullptr; size_t n;
    Mem(char const* b, size_t n) : n(n) { void* q = nullptr; if (posix_memalign(&q, 8, n)) abort(); p = (gsl::byte*)q; memcpy(p, b, n); }
    Mem(Mem const&) = delete;
    ~Mem() { free(p); }
  };
  struct NoFree { void operator ()(gsl::byte const*) const {} };

  bool valid(std::string const& b, size_t n) {
    Mem m {b.data(), n};
    bool v = dart::is_valid(m.p, m.n), w = true;
    try { dart::validate(gsl::span<gsl::byte const>(m.p, (std::ptrdiff_t)m.n)); } catch (dart::validation_error const&) { w = false; }
    CHECK(v == w, "is_valid and validate agree on " + std::to_string(n) + " bytes");
    return v;
  }

  void genuine(dart::buffer const& b, Val const& v, std::string const& how) {
    auto sp = b.get_bytes();
    CHECK(dart::is_valid(sp), "is_valid refuses the bytes of " + how);
    CHECK(dart::is_valid(sp.data(), sp.size()), "is_valid refuses the bytes of " + how);
    NOTHROW(dart::validate(sp), "validate refuses the bytes of " + how);
    std::shared_ptr<gsl::byte const> sh; b.share_bytes(sh); CHECK(dart::is_valid(sh, sp.size()), "is_valid refuses the shared bytes of " + how);
    size_t len = 0; auto d = b.dup_bytes(len);
    CHECK(len == (size_t)sp.size(), "dup_bytes reports the length");
    CHECK(dart::is_valid(d, len), "is_valid refuses the duplicated bytes of " + how);
    auto bytes = bytes_of(sp);
    CHECK(valid(bytes, bytes.size()), "validation refuses a copy of the bytes of " + how);
    Mem m {bytes.data(), bytes.size()};
    dart::buffer r {std::shared_ptr<gsl::byte const>(m.p, NoFree {})};
    CHECK((size_t)r.get_bytes().size() == bytes.size(), "the bytes report another length");
    SAME(r, v, "reading the validated bytes of " + how);
  }

  void truncations(Src& s, std::string const& b) {
    size_t n = b.size();
    auto no = [&](size_t k) { CHECK(!valid(b, k), "validation accepts the first " + std::to_string(k) + " of " + std::to_string(n) + " bytes"); };
    if (n <= 400) { for (size_t k = 0; k < n; k++) no(k); s.label("every truncation"); }
    else { for (size_t k = 1; k <= 24; k++) no(n - k); for (int i = 0; i < 40; i++) no(s.draw(n)); for (size_t k = 0; k < 24; k++) no(k); s.label("sampled truncations"); }
  }

  void run(Src& s) {
    Opt o; o.depth = 1 + s.draw(4); o.nonfinite = s.draw(4) == 3; o.big = s.draw(8) == 7; o.wide = s.draw(4) == 3;
    Val v = gen_obj(s, o);
    // Nulls take no space: the corner of the layout.
    if (s.draw(4) == 3) { Val a = Val::arr(); for (int i = s.draw(6); i >= 0; i--) a.a.push_back(s.draw(3) ? Val::null() : gen_scalar(s, o)); v.o[gen_key(s, o, keys_of(v))] = a; v.o[gen_key(s, o, keys_of(v))] = Val::null(); s.label("runs of nulls"); }
    label_val(s, v);
    if (v.size()) s.nontrivial();
    NOTE("document " + show(v, 800));
    auto route = s.draw(buffer_routes() + 3);
    std::string how = "route " + std::to_string(route);
    dart::buffer b = build_buffer_route(v, 0, &s);
    if ((int)route < buffer_routes()) b = build_buffer_route(v, route, &s);
    else if ((int)route == buffer_routes()) { // injected
      Val base = Val::obj(), add = Val::obj();
      for (auto& p : v.o) { if (s.flip()) base.o[p.first] = p.second; else add.o[p.first] = p.second; if (s.draw(4) == 3) base.o[p.first] = gen_scalar(s, o); }
      b = build_buffer(base, &s);
      for (auto& p : add.o) b = b.inject(sv(p.first), build_heap(p.second, &s));
      for (auto& p : base.o) if (!(p.second == v.o[p.first])) b = b.inject(sv(p.first), build_heap(v.o[p.first], &s));
      how = "inject";
    } else if ((int)route == buffer_routes() + 1) { // projected
      Val big = v; for (int i = s.draw(5); i >= 0; i--) { auto k = "zz" + std::to_string(i) + gen_key(s, o, {}); if (k.size() <= 65535) big.o.emplace(k, gen_scalar(s, o)); }
      std::vector<dart::shim::string_view> ks; auto kv = keys_of(v); for (auto& k : kv) ks.push_back(sv(k));
      b = build_buffer(big, &s).project(ks);
      how = "project";
    } else { // part of a larger document
      b = build_subbuffer(Val::arr({v}), &s)[0];
      how = "nested";
      b = dart::buffer(b.get_bytes());
    }
    genuine(b, v, how);
    auto bytes = bytes_of(b.get_bytes());
    truncations(s, bytes);
    // More room than the document needs is fine.
    if (s.flip()) CHECK(valid(bytes + std::string(1 + s.draw(64), (char)s.draw(256)), bytes.size() + 1), "validation refuses a document followed by other bytes");
    // Reaching out.
    codec::How h; std::vector<codec::Field> fs; h.fields = &fs;
    auto enc = codec::encode(v, h);
    CHECK(valid(enc, enc.size()), "validation refuses independently encoded bytes");
    for (int i = 0; i < 12; i++) {
      std::string what; auto c = codec::out_of_range(s, enc, fs, what);
      if (c.empty()) continue;
      s.label("reaches outside");
      CHECK(!valid(c, c.size()), "validation accepts bytes in which a " + what);
    }
    if (json_safe(v) && utf8_safe(v) && s.draw(3) == 2) {
      auto j = dart::buffer::from_json(sv(json_write(v))); auto jb = bytes_of(j.get_bytes());
      CHECK(valid(jb, jb.size()), "validation refuses a document parsed from JSON"); truncations(s, jb);
    }
  }

  void once() {
    Src s; eng::current = &s;
    std::vector<Val> vs = {Val::obj()};
    auto N = Val::null(); auto I = Val::integer(1);
    std::vector<Val> el = {N, I, Val::boolean(true), Val::str(""), Val::str("ab"), Val::arr(), Val::obj(), Val::dec(0.1), Val::integer(1ll << 40)};
    for (auto& x : el) for (auto& y : el) for (auto& z : el) {
      vs.push_back(Val::obj({{"a", Val::arr({x, y, z})}}));
      vs.push_back(Val::obj({{"a", x}, {"b", y}, {"cc", z}}));
      vs.push_back(Val::obj({{"", x}, {"bcd", y}, {"eee", z}}));
    }
    for (auto& v : vs) { auto b = build_heap(v).lower(); genuine(b, v, show(v)); auto bytes = bytes_of(b.get_bytes()); for (size_t k = 0; k < bytes.size(); k++) CHECK(!valid(bytes, k), "a truncation of " + show(v)); }
  }
}

namespace eng {
  Prop prop = {
    "D09", "buffers made along every route (incl. inject, project, nested and JSON) validated through several entry points and reread; all proper prefixes (sampled above 400 bytes) and copies in which "
    "a size, count, offset, length or type reaches outside must be refused; fixed: all triples of value kinds; non-trivial: a non-empty object",
    run, 3000, 80000
  };
}
static struct reg { reg() { eng::prop.once = once; } } r_;
