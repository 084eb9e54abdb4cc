// D27: the wire format is the documented one.
#include "dartlib.h"
#include "codec.h"
using namespace dl;

static void check_bytes(std::string const& b, Val const& v, char const* what) {
  Val got; std::string err;
  CHECK(codec::decode(b, got, err), std::string(what) + " does not follow the layout: " + err);
  CHECK(got == v, std::string(what) + " decodes to another document: " + diff(got, v));
}

static dart::buffer adopt(std::string const& b, Src& s) {
  switch (s.draw(3)) {
    case 0: {
      void* p = nullptr; CHECK(posix_memalign(&p, 8, b.size()) == 0, "memory");
      memcpy(p, b.data(), b.size());
      dart::buffer d {gsl::span<gsl::byte const>((gsl::byte const*)p, b.size())};
      memset(p, 0xee, b.size()); free(p);
      return d;
    }
    case 1: {
      void* p = nullptr; CHECK(posix_memalign(&p, 8, b.size()) == 0, "memory");
      memcpy(p, b.data(), b.size());
      return dart::buffer {std::shared_ptr<gsl::byte const>((gsl::byte const*)p, [](gsl::byte const* q) { free((void*)q); })};
    }
    default: {
      void* p = nullptr; CHECK(posix_memalign(&p, 8, b.size()) == 0, "memory");
      memcpy(p, b.data(), b.size());
      return dart::buffer {std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)>((gsl::byte const*)p, [](gsl::byte const* q) { free((void*)q); })};
    }
  }
}

static void run(Src& s) {
  Opt o; o.depth = 1 + s.draw(4); o.nonfinite = s.draw(4) == 3;
  Val v = gen_obj(s, o);
  bool nan = false;
  label_val(s, v);
  NOTE("document " + show(v, 800));
  if (v.size()) s.nontrivial();
  (void)nan;

  // What the library writes, our decoder reads, by every way of making a buffer.
  auto route = s.draw(buffer_routes());
  auto b = build_buffer_route(v, route, &s);
  auto bytes = bytes_of(b.get_bytes());
  check_bytes(bytes, v, ("buffer of route " + std::to_string(route)).c_str());
  // Byte for byte what the layout prescribes.
  auto ours = codec::encode(v);
  CHECK(ours == bytes, "the library's bytes differ from the layout's");
  // Nested values carry their own bytes.
  if (v.o.size() && s.flip()) {
    auto k = s.pick(keys_of(v));
    auto sub = b[sv(k)];
    if (v.o[k].t == Val::Obj) {
      dart::buffer copy = sub;
      auto own = sub.dup_bytes();
      size_t len = 0; auto own2 = sub.dup_bytes(len);
      CHECK(std::string((char const*)own2.get(), len) == codec::encode(v.o[k]), "bytes of a nested object");
      s.label("nested object bytes");
    }
  }
  if (s.draw(3) == 2) { // inject, project and JSON go through other encoders
    Val w = v;
    auto k = gen_key(s, o, keys_of(v)); Val x = gen_val(s, Opt {2});
    if (k.size() <= 65535) {
      w.o[k] = x;
      auto h = build_heap(x, &s);
      auto inj = b.inject(sv(k), h);
      check_bytes(bytes_of(inj.get_bytes()), w, "inject");
      s.label("inject");
    }
    std::vector<std::string> keep; Val r = Val::obj();
    for (auto& p : v.o) if (s.flip()) { keep.push_back(p.first); r.o[p.first] = p.second; }
    if (s.flip()) keep.push_back("absent");
    std::vector<dart::shim::string_view> kv; for (auto& q : keep) kv.push_back(sv(q));
    auto pr = b.project(kv);
    check_bytes(bytes_of(pr.get_bytes()), r, "project");
    s.label("project");
  }
  if (s.draw(3) == 2 && json_safe(v) && utf8_safe(v)) {
    auto text = json_write(v);
    auto j = dart::buffer::from_json(sv(text));
    Val got; std::string err;
    CHECK(codec::decode(bytes_of(j.get_bytes()), got, err), "bytes of parsed JSON do not follow the layout: " + err);
    s.label("json");
  }

  // What an independent encoder writes, the library reads.
  codec::How h; h.s = &s; h.wide = s.draw(3) == 2;
  if (h.wide) s.label("wider encodings than necessary");
  auto enc = codec::encode(v, h);
  if (h.wide) { Val back; std::string err; CHECK(codec::decode(enc, back, err, false) && back == v, "self check " + err); }
  auto d = adopt(enc, s);
  SAME(d, v, "reading independently encoded bytes");
  CHECK(dart::is_valid(d.get_bytes()), "independently encoded bytes are valid");
  for (auto& p : v.o) SAME(d[sv(p.first)], p.second, "lookup in independently encoded bytes");
  SAME(dart::heap {d}, v, "definalized from independently encoded bytes");
  CHECK(bytes_of((dart::heap {d}).lower().get_bytes()) == bytes, "reencoding");
}

static void once() {
  auto is = [](Val const& v) { auto b = build_heap(v).lower(); auto bytes = bytes_of(b.get_bytes()); check_bytes(bytes, v, "fixed"); CHECK(bytes == codec::encode(v), "fixed bytes"); };
  is(Val::obj());
  for (int sh = 0; sh < 64; sh++) for (int d = -2; d <= 2; d++) { i64 u = (i64)((1ull << sh) + d); is(Val::obj({{"i", Val::integer(u)}, {"j", Val::arr({Val::integer(-(u / 2)), Val::integer(u)})}})); }
  for (size_t n : {0, 1, 2, 3, 14, 15, 16, 22, 23, 24, 254, 255, 256, 257, 65534, 65535, 65536, 70000}) {
    is(Val::obj({{"s", Val::str(std::string(n, 'x'))}}));
    if (n < 65536) is(Val::obj({{std::string(n, 'k'), Val::integer(1)}, {std::string(n ? n - 1 : 1, 'l'), Val::null()}}));
  }
  for (double d : {0.0, -0.0, 1.5, 0.1, 3.4028234663852886e38, 3.5e38, 1e-45, 1e-46, 5e-324, 1e308}) is(Val::obj({{"d", Val::dec(d)}}));
  is(Val::obj({{"a", Val::arr({Val::null(), Val::null(), Val::integer(1), Val::null()})}, {"b", Val::null()}, {"c", Val::obj({{"x", Val::null()}, {"y", Val::null()}})}}));
  { Val a = Val::arr(); for (int i = 0; i < 1000; i++) a.a.push_back(Val::boolean(i % 3)); is(Val::obj({{"a", a}})); }
  { Val a = Val::obj(); for (int i = 0; i < 1000; i++) a.o[std::to_string(i * 7919 % 1000)] = Val::integer(i); is(Val::obj({{"a", a}})); }
}

namespace eng {
  Prop prop = {
    "D27", "random documents made immutable along every route and decoded by an independent strict decoder of the layout, compared byte for byte with an independent encoder, and independently "
    "encoded bytes (canonical, or with wider numbers and strings than necessary) read by the library; non-trivial: a non-empty object",
    run, 6000, 200000
  };
}
static struct reg { reg() { eng::prop.once = once; eng::prop.assumptions = {"the layout is the one described by include/dart/common.h, object.tcc and array.tcc at the pinned commit", "little-endian host"}; } } r_;
