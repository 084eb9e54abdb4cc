// D10: raw bytes transfer a document exactly, and equal documents have equal bytes.
#include "dartlib.h"
using namespace dl;

namespace {
  using bytes_span = gsl::span<gsl::byte const>;
  struct Free { void operator ()(gsl::byte const* p) const { free((void*)p); } };
  gsl::byte* raw(std::string const& b, char fillafter = 0) { void* q = nullptr; if (posix_memalign(&q, 8, b.size())) abort(); memcpy(q, b.data(), b.size()); (void)fillafter; return (gsl::byte*)q; }

  bool s_flip;
  // A document made of the given bytes, by one of the ways of handing them over.
  template <class B>
  B adopt(std::string const& b, unsigned how) {
    auto* p = raw(b);
    switch (how) {
      case 0: { B d {bytes_span(p, (std::ptrdiff_t)b.size())}; memset((void*)p, 0xdd, b.size()); free(p); return d; }
      case 1: return B {std::shared_ptr<gsl::byte const>(p, Free {})};
      case 2: return B {std::unique_ptr<gsl::byte const[], Free>(p)};
      case 3: return B {std::unique_ptr<gsl::byte const, Free>(p)};
      default: { std::shared_ptr<gsl::byte const> sh (p, Free {}); B d {sh}; B e {std::move(sh)}; return s_flip ? d : e; }
    }
  }

  template <class B>
  void transfers(Src& s, B const& d, std::string const& want, Val const& v, char const* form) {
    auto is = [&](auto const& x, char const* how) {
      CHECK(bytes_of(x.get_bytes()) == want, std::string(form) + ": bytes differ after " + how);
      SAME(x, v, std::string(form) + ": value after " + how);
      CHECK(x == d && d == x, std::string(form) + ": equality after " + how);
    };
    is(d, "nothing");
    is(adopt<B>(want, s.draw(5)), "handing over the bytes");
    { size_t n = 1; auto u = d.dup_bytes(n); CHECK(n == want.size() && !memcmp(u.get(), want.data(), n), "dup_bytes"); CHECK(u.get() != d.get_bytes().data(), "dup_bytes makes a copy"); is(B {std::move(u)}, "dup_bytes"); }
    { auto u = d.dup_bytes(); is(B {std::move(u)}, "dup_bytes without a length"); }
    { std::shared_ptr<gsl::byte const> o; auto n = d.share_bytes(o); CHECK(n == want.size() && o.get() == d.get_bytes().data(), "share_bytes shares"); is(B {o}, "share_bytes"); }
    is(B {d.get_bytes()}, "copying the span");
  }

  void run(Src& s) {
    s_flip = s.flip(); eng::dirty(s.draw(1000) + 1); // what fresh memory holds must not matter
    Opt o; o.depth = 1 + s.draw(4); o.nonfinite = s.draw(4) == 3;
    Val v = gen_obj(s, o);
    label_val(s, v);
    NOTE("document " + show(v, 800));
    if (v.size() > 1) s.nontrivial();

    int r1 = s.draw(buffer_routes());
    auto b = build_buffer_route(v, r1, &s);
    auto want = bytes_of(b.get_bytes());
    SAME(b, v, "the document");

    // Other routes to an equal document, on memory that held something else.
    for (int k = 0; k < 2; k++) {
      eng::dirty(s.draw(1000) + 2);
      int r = s.draw(buffer_routes() + 6);
      dart::buffer c = b;
      std::string how = "route " + std::to_string(r);
      if (r < buffer_routes()) c = build_buffer_route(v, r, &s);
      else switch (r - buffer_routes()) {
        case 0: if (!(json_safe(v) && utf8_safe(v))) continue; { // decimals by this route may differ in the last bit
            auto h = dart::heap::from_json(sv(json_write(v, &s, {true, true, s.flip(), true, false, false})));
            c = dart::buffer::from_json(sv(h.to_json()));
            auto e = dart::heap::from_json(sv(h.to_json())).lower();
            CHECK(bytes_of(e.get_bytes()) == bytes_of(c.get_bytes()), "JSON into the immutable form and by way of the mutable form"); s.label("route:json");
            continue; }
        case 1: { // history of edits that cancel out
            auto h = build_heap(v, &s); auto ks = keys_of(v);
            for (int i = s.draw(5); i >= 0; i--) { auto k = gen_key(s, o, ks); if (k.size() > 65535) continue; auto old = v.get(k); h.add_field(sv(k), build_heap(gen_val(s, Opt {2}))); if (old) h.set(sv(k), build_heap(*old, &s)); else h.erase(sv(k)); }
            c = h.finalize(); how = "edits"; s.label("route:edits"); break; }
        case 2: { Val base = v; std::vector<std::string> ks; for (auto& p : v.o) if (s.flip()) { ks.push_back(p.first); if (s.flip()) base.o.erase(p.first); else base.o[p.first] = gen_scalar(s, o); }
            c = build_buffer(base, &s); for (auto& k : ks) c = c.inject(sv(k), build_heap(v.o[k], &s)); for (auto& p : base.o) if (!(v.o[p.first] == p.second)) c = c.inject(sv(p.first), build_heap(v.o[p.first], &s));
            how = "inject"; s.label("route:inject"); break; }
        case 3: { Val big = v; for (int i = s.draw(6); i >= 0; i--) { auto k = gen_key(s, o, keys_of(v)); if (k.size() <= 65535) big.o.emplace(k, gen_val(s, Opt {2})); }
            std::vector<std::string> kv = keys_of(v); if (kv.size() > 1 && s.flip()) std::swap(kv[0], kv.back()); if (kv.size() && s.flip()) kv.push_back(kv[0]); std::vector<dart::shim::string_view> ks; for (auto& k : kv) ks.push_back(sv(k));
            c = build_buffer(big, &s).project(ks); how = "project"; s.label("route:project"); break; }
        case 4: { c = static_cast<dart::buffer>(dart::heap {dart::buffer {b.get_bytes()}}); c = static_cast<dart::buffer>(dart::heap {c}); how = "definalized and refinalized twice"; s.label("route:refinalized"); break; }
        default: { auto outer = build_buffer(Val::obj({{"p", Val::arr({Val::integer(s.draw(100)), v})}}), &s); c = outer["p"][1]; how = "taken out of a larger document"; s.label("route:nested"); break; }
      }
      CHECK(bytes_of(c.get_bytes()) == want, "equal documents have different bytes by " + how + " and route " + std::to_string(r1));
      CHECK(c == b, "documents with equal bytes compare equal");
    }

    transfers(s, b, want, v, "buffer");
    dart::packet p {b};
    transfers(s, p, want, v, "packet");
    { auto q = build_packet(v, &s); THROWS(dart::state_error, q.get_bytes(), "bytes of a mutable packet"); q.finalize(); CHECK(bytes_of(q.get_bytes()) == want, "finalize in place"); transfers(s, q, want, v, "finalized packet"); }
    if (s.flip()) { // a nested object as a document of its own
      for (auto& x : v.o) if (x.second.t == Val::Obj) { auto sub = b[sv(x.first)]; auto w = bytes_of(build_heap(x.second).lower().get_bytes());
        size_t n = 0; auto d = sub.dup_bytes(n); CHECK(std::string((char const*)d.get(), n) == w, "bytes of a nested object"); SAME(dart::buffer {std::move(d)}, x.second, "nested object"); 
        SAME(dart::buffer {sub.get_bytes()}, x.second, "nested object by span"); s.label("nested object"); break; }
    }
  }
}

namespace eng {
  Prop prop = {
    "D10", "documents made immutable along pairs of routes (direct, by JSON, cancelling edits, inject, project, refinalizing, nesting) over dirtied memory, bytes compared; bytes handed over by span, pointer, "
    "unique_ptr, shared_ptr, duplicated or shared, into buffers and packets, the original memory then overwritten; non-trivial: two or more keys",
    run, 5000, 150000
  };
}
