#include "capi.h"

namespace capi {

  thread_local u64 tick = 0;

  std::string msg() { auto* m = dart_get_error(); CHECK(m, "dart_get_error is a string"); return m; }

  dart_type_t ctype(Val::T t) {
    switch (t) { case Val::Obj: return DART_OBJECT; case Val::Arr: return DART_ARRAY; case Val::Str: return DART_STRING; case Val::Int: return DART_INTEGER;
      case Val::Dec: return DART_DECIMAL; case Val::Bool: return DART_BOOLEAN; default: return DART_NULL; }
  }

  // Calls the family's own function or the generic one in turn.
  #define RD(name, ...) (tick++ & 1 ? fam_of(p) == DART_HEAP ? dart_heap_##name((dart_heap_t*)p, ##__VA_ARGS__) : fam_of(p) == DART_BUFFER ? dart_buffer_##name((dart_buffer_t*)p, ##__VA_ARGS__) : dart_##name(p, ##__VA_ARGS__) : dart_##name(p, ##__VA_ARGS__))
  // Constructs into uninitialised storage.
  #define GET(dst, name, ...) [&] { int e_; switch (tick++ & 3) { \
      case 0: e_ = 0; if (fam_of(p) == DART_HEAP) *(dart_heap_t*)(dst) = dart_heap_##name((dart_heap_t*)p, ##__VA_ARGS__); else if (fam_of(p) == DART_BUFFER) *(dart_buffer_t*)(dst) = dart_buffer_##name((dart_buffer_t*)p, ##__VA_ARGS__); else *(dart_packet_t*)(dst) = dart_##name(p, ##__VA_ARGS__); break; \
      case 1: e_ = fam_of(p) == DART_HEAP ? dart_heap_##name##_err((dart_heap_t*)(dst), (dart_heap_t*)p, ##__VA_ARGS__) : fam_of(p) == DART_BUFFER ? dart_buffer_##name##_err((dart_buffer_t*)(dst), (dart_buffer_t*)p, ##__VA_ARGS__) : dart_##name##_err((dart_packet_t*)(dst), p, ##__VA_ARGS__); break; \
      case 2: e_ = 0; *(dart_packet_t*)(dst) = dart_##name(p, ##__VA_ARGS__); break; \
      default: e_ = dart_##name##_err((dart_packet_t*)(dst), p, ##__VA_ARGS__); } return e_; }()
  static void destroy(void* p) {
    int e = tick++ & 1 ? dart_destroy(p) : fam_of(p) == DART_HEAP ? dart_heap_destroy((dart_heap_t*)p) : fam_of(p) == DART_BUFFER ? dart_buffer_destroy((dart_buffer_t*)p) : dart_destroy(p);
    CHECK(!e, "a live handle can be destroyed");
  }

  Val read(void const* cp) {
    void* p = (void*)cp;
    auto t = RD(get_type);
    int kinds = 0; dart_type_t k = DART_INVALID;
    if (RD(is_obj)) kinds++, k = DART_OBJECT;
    if (RD(is_arr)) kinds++, k = DART_ARRAY;
    if (RD(is_str)) kinds++, k = DART_STRING;
    if (RD(is_int)) kinds++, k = DART_INTEGER;
    if (RD(is_dcm)) kinds++, k = DART_DECIMAL;
    if (RD(is_bool)) kinds++, k = DART_BOOLEAN;
    if (RD(is_null)) kinds++, k = DART_NULL;
    CHECK(kinds == 1 && k == t, "the type predicates agree with get_type");
    dart_packet_t sub;
    switch (t) {
      case DART_OBJECT: {
        Val v = Val::obj(); size_t n = RD(size);
        dart_iterator_t it; CHECK(!dart_iterator_init_key_from_err(&it, p), "a key iterator for an object");
        std::string prev; bool first = true;
        while (!dart_iterator_done(&it)) {
          dart_packet_t key; if (tick++ & 1) key = dart_iterator_get(&it); else CHECK(!dart_iterator_get_err(&key, &it), "reading a key");
          size_t len = 77; auto* str = dart_str_get_len(&key, &len); CHECK(str, "keys are strings");
          std::string ks (str, len);
          CHECK(first || KeyLess {}(prev, ks), "keys come in order"); prev = ks; first = false;
          Text kt (ks, true);
          bool z = nonul(ks) && (tick & 4);
          CHECK(z ? RD(obj_has_key, kt.p) : RD(obj_has_key_len, kt.p, len), "has_key of a present key");
          int e = z ? GET(&sub, obj_get, kt.p) : GET(&sub, obj_get_len, kt.p, len);
          CHECK(!e, "reading a present key: " + msg());
          CHECK(v.o.emplace(ks, read(&sub)).second, "a key appears once");
          destroy(&sub); destroy(&key);
          CHECK(!dart_iterator_next(&it), "advancing");
          CHECK(v.o.size() <= n, "no more keys than size");
        }
        CHECK(!dart_iterator_destroy(&it), "destroying an iterator");
        CHECK(v.o.size() == n, "as many keys as size");
        return v; }
      case DART_ARRAY: {
        Val v = Val::arr(); size_t n = RD(size);
        for (size_t i = 0; i < n; i++) { int e = GET(&sub, arr_get, i); CHECK(!e, "reading an element: " + msg()); v.a.push_back(read(&sub)); destroy(&sub); }
        return v; }
      case DART_STRING: {
        size_t len = 77; auto* str = RD(str_get_len, &len); CHECK(str, "string contents"); CHECK(str[len] == 0, "strings are terminated");
        auto* z = RD(str_get); CHECK(z && strlen(z) <= len && !memcmp(z, str, strlen(z)), "str_get");
        CHECK(RD(size) == len, "string size"); return Val::str(std::string(str, len)); }
      case DART_INTEGER: { int64_t v = 77; CHECK(!RD(int_get_err, &v), "int_get_err"); CHECK(RD(int_get) == v, "int_get agrees with int_get_err"); return Val::integer(v); }
      case DART_DECIMAL: { double v = 77; CHECK(!RD(dcm_get_err, &v), "dcm_get_err"); double w = RD(dcm_get); CHECK(!memcmp(&v, &w, 8), "dcm_get agrees with dcm_get_err"); return Val::dec(v); }
      case DART_BOOLEAN: { int v = 77; CHECK(!RD(bool_get_err, &v), "bool_get_err"); CHECK(v == 0 || v == 1, "booleans read as 0 or 1"); CHECK(RD(bool_get) == v, "bool_get agrees with bool_get_err"); return Val::boolean(v); }
      case DART_NULL: return Val::null();
      default: CHECK(false, "a live handle has a type"); return {};
    }
  }

  void World::drop(H& h) { destroy(h.p); free(h.p); h.p = nullptr; }

  void World::verify(H& h, std::string const& after) {
    CHECK(fam_of(h.p) == h.fam && ((dart_type_id_t*)h.p)->rc_id == h.rc, "handles keep their family and counter type after " + after);
    auto got = read(h.p);
    CHECK(got == h.m, std::string("a ") + famname(h.fam) + " handle after " + after + ": " + diff(got, h.m));
    CHECK(!dart_is_finalized(h.p) == !h.fin, std::string("is_finalized of a ") + famname(h.fam) + " handle holding " + tname(h.m.t) + " after " + after);
  }

  void World::sentinel(bool parse) {
    if (parse) { // a known message of another kind
      dart_heap_t n = dart_heap_init(); int64_t x; dart_heap_int_get_err(&n, &x); dart_heap_destroy(&n);
    } else { dart_heap_t n; dart_heap_from_json_err(&n, "[}"); dart_heap_destroy(&n); }
    mark = msg(); CHECK(!mark.empty(), "a failed call leaves a message");
  }

  void World::judge(dart_err_t got, int want, std::string const& call) {
    NOTE(call + " -> " + std::to_string((int)got));
    if (want == 0) { oks++; CHECK(got == 0, call + " fails with " + std::to_string((int)got) + " (" + msg() + ")"); return; }
    errors++;
    CHECK(got != 0, call + " succeeds, error " + std::to_string(want) + " expected");
    CHECK(got >= DART_TYPE_ERROR && got <= DART_UNKNOWN_ERROR, call + " returns no documented code: " + std::to_string((int)got));
    CHECK(want == ANY ? got != DART_UNKNOWN_ERROR : (int)got == want, call + " returns " + std::to_string((int)got) + " (" + msg() + "), expected " + std::to_string(want));
    CHECK(!msg().empty(), call + " leaves a message");
    if (!mark.empty()) { CHECK(msg() != mark, call + " leaves no message of its own: " + mark); mark.clear(); }
  }

  // ---- construction -----------------------------------------------------------------------------

  // The four forms of a constructor; the destination is uninitialised storage.
  #define CTOR(name, ...) do { unsigned f_ = h.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2); code = DART_NO_ERROR; if (h.fam == DART_HEAP) switch (f_) { \
      case 0: *h.h() = dart_heap_##name(__VA_ARGS__); break; case 1: code = dart_heap_##name##_err(h.h(), ##__VA_ARGS__); break; \
      case 2: *h.h() = dart_heap_##name##_rc(h.rc, ##__VA_ARGS__); break; default: code = dart_heap_##name##_rc_err(h.h(), h.rc, ##__VA_ARGS__); } \
      else switch (f_) { \
      case 0: *h.q() = dart_##name(__VA_ARGS__); break; case 1: code = dart_##name##_err(h.q(), ##__VA_ARGS__); break; \
      case 2: *h.q() = dart_##name##_rc(h.rc, ##__VA_ARGS__); break; default: code = dart_##name##_rc_err(h.q(), h.rc, ##__VA_ARGS__); } } while (0)
  #define CTORLEN(base, tail, ...) do { unsigned f_ = h.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2); code = DART_NO_ERROR; if (h.fam == DART_HEAP) switch (f_) { \
      case 0: *h.h() = dart_heap_##base##_len(__VA_ARGS__); break; case 1: code = dart_heap_##base##_len_err(h.h(), __VA_ARGS__); break; \
      case 2: *h.h() = dart_heap_##base##tail(h.rc, __VA_ARGS__); break; default: code = dart_heap_##base##tail##_err(h.h(), h.rc, __VA_ARGS__); } \
      else switch (f_) { \
      case 0: *h.q() = dart_##base##_len(__VA_ARGS__); break; case 1: code = dart_##base##_len_err(h.q(), __VA_ARGS__); break; \
      case 2: *h.q() = dart_##base##tail(h.rc, __VA_ARGS__); break; default: code = dart_##base##tail##_err(h.q(), h.rc, __VA_ARGS__); } } while (0)

  // Builds v in h, whose family and counter type are chosen.
  void World::build(Val const& v, H& h) {
    dart_err_t code = DART_NO_ERROR;
    h.m = v; h.fin = h.fam == DART_BUFFER;
    if (h.fam == DART_BUFFER && v.t == Val::Null && s.flip()) {
      switch (h.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2)) {
        case 0: *h.b() = dart_buffer_init(); break;
        case 1: code = dart_buffer_init_err(h.b()); break;
        case 2: *h.b() = dart_buffer_init_rc(h.rc); break;
        default: code = dart_buffer_init_rc_err(h.b(), h.rc);
      }
      judge(code, 0, "constructing a null buffer");
      return;
    }
    if (h.fam == DART_BUFFER) {
      Val root = v.t == Val::Obj ? v : Val::obj({{"x", v}});
      H d = fresh(DART_BUFFER, h.rc);
      if (!s.draw(4)) { auto bytes = codec::encode(root); make_bytes(d, bytes, "constructing"); }
      else {
        H m = fresh(s.flip() ? DART_HEAP : DART_PACKET, h.rc); build(root, m);
        switch (s.draw(m.fam == DART_HEAP ? 6 : 2)) {
          case 0: *d.b() = dart_to_buffer(m.p); break;
          case 1: code = dart_to_buffer_err(d.b(), m.p); break;
          case 2: *d.b() = dart_heap_lower(m.h()); break;
          case 3: code = dart_heap_lower_err(d.b(), m.h()); break;
          case 4: *d.b() = dart_heap_finalize(m.h()); break;
          default: code = dart_heap_finalize_err(d.b(), m.h()); break;
        }
        judge(code, 0, std::string("lowering a ") + famname(m.fam));
        drop(m);
      }
      if (v.t == Val::Obj) { memcpy(h.p, d.p, famsize(DART_BUFFER)); free(d.p); return; }
      if (s.flip()) *h.b() = dart_buffer_obj_get(d.b(), "x"); else judge(dart_buffer_obj_get_err(h.b(), d.b(), "x"), 0, "buffer_obj_get");
      drop(d);
      return;
    }
    switch (v.t) {
      case Val::Null: if (s.flip()) CTOR(null_init); else CTOR(init); break;
      case Val::Bool: { int x = v.b ? s.flip() ? 1 : s.flip() ? INT_MIN : 256 * (int)(1 + s.draw(1000)) : 0; CTOR(bool_init, x); break; }
      case Val::Int: CTOR(int_init, v.i); break;
      case Val::Dec: CTOR(dcm_init, v.d); break;
      case Val::Str:
        if (nonul(v.s) && s.flip()) { Text t (v.s, true); CTOR(str_init, t.p); }
        else { Text t (v.s, false); CTORLEN(str_init, _rc_len, t.p, t.n); }
        break;
      case Val::Arr: CTOR(arr_init); judge(code, 0, "arr_init");
        if (!s.draw(5)) judge(h.fam == DART_HEAP && s.flip() ? dart_heap_arr_reserve(h.h(), v.a.size()) : dart_arr_reserve(h.p, v.a.size()), 0, "arr_reserve");
        for (size_t i = 0; i < v.a.size(); i++) put(h, true, true, "", i, v.a[i], 0);
        return;
      case Val::Obj: CTOR(obj_init); judge(code, 0, "obj_init");
        for (auto& e : v.o) put(h, false, true, e.first, 0, e.second, 0);
        return;
    }
    judge(code, 0, std::string("constructing a ") + famname(h.fam) + " " + tname(v.t));
  }

  void World::make_bytes(H& d, std::string const& bytes, std::string const& what) {
    Text t (bytes, false); dart_err_t code = DART_NO_ERROR;
    unsigned f = d.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2);
    if (d.fam == DART_BUFFER) switch (f) {
      case 0: *d.b() = dart_buffer_from_bytes(t.p, t.n); break;
      case 1: code = dart_buffer_from_bytes_err(d.b(), t.p, t.n); break;
      case 2: *d.b() = dart_buffer_from_bytes_rc(t.p, d.rc, t.n); break;
      default: code = dart_buffer_from_bytes_rc_err(d.b(), d.rc, t.p, t.n);
    } else switch (f) {
      case 0: *d.q() = dart_from_bytes(t.p, t.n); break;
      case 1: code = dart_from_bytes_err(d.q(), t.p, t.n); break;
      case 2: *d.q() = dart_from_bytes_rc(t.p, d.rc, t.n); break;
      default: code = dart_from_bytes_rc_err(d.q(), d.rc, t.p, t.n);
    }
    d.fin = true;
    judge(code, 0, "from_bytes, " + what);
  }

  // Inserts or sets one value, by the typed functions or through a handle. want: expected code.
  void World::put(H& h, bool arr, bool insert, std::string const& key, size_t idx, Val const& v, int want) {
    bool spec = h.fam == DART_HEAP && s.flip(), z = nonul(key) && s.flip();
    Text k (key, z), t (v.t == Val::Str ? v.s : "", true), tn (v.t == Val::Str ? v.s : "", false);
    bool zs = nonul(v.s); int e = -1; bool handle = v.is_agg() || !s.draw(3);
    std::string call = std::string(insert ? "insert " : "set ") + (arr ? "at " + std::to_string(idx) : "key " + eng::quote(key, 20)) + " of a " + tname(v.t) + " into a " + (h.fin ? "finalized " : "") + famname(h.fam) + " " + tname(h.m.t);
    #define PUT(kind, typ, ...) (arr ? (insert ? (spec ? dart_heap_arr_insert_##typ(h.h(), idx, ##__VA_ARGS__) : dart_arr_insert_##typ(h.p, idx, ##__VA_ARGS__)) : (spec ? dart_heap_arr_set_##typ(h.h(), idx, ##__VA_ARGS__) : dart_arr_set_##typ(h.p, idx, ##__VA_ARGS__))) \
      : insert ? (z ? (spec ? dart_heap_obj_insert_##typ(h.h(), k.p, ##__VA_ARGS__) : dart_obj_insert_##typ(h.p, k.p, ##__VA_ARGS__)) : (spec ? dart_heap_obj_insert_##typ##_len(h.h(), k.p, k.n, ##__VA_ARGS__) : dart_obj_insert_##typ##_len(h.p, k.p, k.n, ##__VA_ARGS__))) \
      : (z ? (spec ? dart_heap_obj_set_##typ(h.h(), k.p, ##__VA_ARGS__) : dart_obj_set_##typ(h.p, k.p, ##__VA_ARGS__)) : (spec ? dart_heap_obj_set_##typ##_len(h.h(), k.p, k.n, ##__VA_ARGS__) : dart_obj_set_##typ##_len(h.p, k.p, k.n, ##__VA_ARGS__))))
    #define PUTH(styp, sval, gtyp, gval) (arr ? (insert ? (spec ? dart_heap_arr_insert_##styp(h.h(), idx, sval) : dart_arr_insert_##gtyp(h.p, idx, gval)) : (spec ? dart_heap_arr_set_##styp(h.h(), idx, sval) : dart_arr_set_##gtyp(h.p, idx, gval))) \
      : insert ? (z ? (spec ? dart_heap_obj_insert_##styp(h.h(), k.p, sval) : dart_obj_insert_##gtyp(h.p, k.p, gval)) : (spec ? dart_heap_obj_insert_##styp##_len(h.h(), k.p, k.n, sval) : dart_obj_insert_##gtyp##_len(h.p, k.p, k.n, gval))) \
      : (z ? (spec ? dart_heap_obj_set_##styp(h.h(), k.p, sval) : dart_obj_set_##gtyp(h.p, k.p, gval)) : (spec ? dart_heap_obj_set_##styp##_len(h.h(), k.p, k.n, sval) : dart_obj_set_##gtyp##_len(h.p, k.p, k.n, gval))))
    if (!handle) {
      if (want) sentinel(false);
      switch (v.t) {
        case Val::Null: e = PUT(h, null); break;
        case Val::Bool: e = PUT(h, bool, v.b ? (int)(1 + s.draw(2) * 255) : 0); break;
        case Val::Int: e = PUT(h, int, v.i); break;
        case Val::Dec: e = PUT(h, dcm, v.d); break;
        default: // the two string forms differ in whether lengths are given at all
          if (arr) {
            if (zs && s.flip()) e = insert ? (spec ? dart_heap_arr_insert_str(h.h(), idx, t.p) : dart_arr_insert_str(h.p, idx, t.p)) : (spec ? dart_heap_arr_set_str(h.h(), idx, t.p) : dart_arr_set_str(h.p, idx, t.p));
            else e = insert ? (spec ? dart_heap_arr_insert_str_len(h.h(), idx, tn.p, tn.n) : dart_arr_insert_str_len(h.p, idx, tn.p, tn.n)) : (spec ? dart_heap_arr_set_str_len(h.h(), idx, tn.p, tn.n) : dart_arr_set_str_len(h.p, idx, tn.p, tn.n));
          } else if (z && zs) e = insert ? (spec ? dart_heap_obj_insert_str(h.h(), k.p, t.p) : dart_obj_insert_str(h.p, k.p, t.p)) : (spec ? dart_heap_obj_set_str(h.h(), k.p, t.p) : dart_obj_set_str(h.p, k.p, t.p));
          else e = insert ? (spec ? dart_heap_obj_insert_str_len(h.h(), k.p, k.n, tn.p, tn.n) : dart_obj_insert_str_len(h.p, k.p, k.n, tn.p, tn.n)) : (spec ? dart_heap_obj_set_str_len(h.h(), k.p, k.n, tn.p, tn.n) : dart_obj_set_str_len(h.p, k.p, k.n, tn.p, tn.n));
      }
      judge((dart_err_t)e, want, "typed " + call);
      return;
    }
    // By way of another handle.
    H c = fresh(spec ? DART_HEAP : s.draw(4) == 3 ? DART_BUFFER : s.flip() ? DART_HEAP : DART_PACKET, h.rc);
    build(v, c);
    if (c.fam == DART_PACKET && v.t == Val::Obj && !s.draw(4)) { H f = fresh(DART_PACKET, c.rc); judge(dart_finalize_err(f.q(), c.p), 0, "finalize"); f.m = c.m; f.fin = true; drop(c); c = f; }
    bool take = s.flip();
    call = std::string(take ? "taking " : "") + call + " by a " + (c.fin ? "finalized " : "") + famname(c.fam) + " handle";
    if (want) sentinel(false);
    if (take) e = PUTH(take_heap, c.h(), take_dart, c.p); else e = PUTH(heap, c.h(), dart, c.p);
    judge((dart_err_t)e, want, call);
    if (!e && take) { // documented: the source becomes null
      CHECK(dart_is_null(c.p), call + ": the source is null afterwards"); c.m = Val::null(); c.fin = dart_is_finalized(c.p);
    }
    verify(c, call);
    drop(c);
  }

  void World::construct() {
    H h = fresh((int)s.weigh({3, 3, 2}) == 0 ? DART_HEAP : s.flip() ? DART_PACKET : DART_BUFFER, s.draw(3) == 2 ? DART_RC_UNSAFE : DART_RC_SAFE);
    Val v = s.draw(4) == 3 ? gen_val(s, o) : s.draw(3) == 2 ? gen_arr(s, o) : gen_obj(s, o);
    NOTE("construct " + std::string(famname(h.fam)) + " rc " + std::to_string(h.rc) + " " + show(v, 200));
    build(v, h); verify(h, "construction"); add(h);
  }

  // Format strings. Arguments travel in the registers and slots their types have in the System V
  // convention: integers and pointers in sequence, up to eight doubles beside them.
  struct Fmt { std::string f; std::vector<u64> i; std::vector<double> d; std::vector<std::unique_ptr<Text>> keep; };
  static Val fmt_val(Src& s, Fmt& f, int depth, Opt const& o);
  static std::string fmt_key(Src& s, Fmt& f) {
    std::string k = gen_str(s, Opt {}); if (k.size() > 40) k.resize(40); for (auto& c : k) if (!c) c = 'z';
    f.keep.emplace_back(new Text(k, true)); f.i.push_back((u64)f.keep.back()->p); return k;
  }
  static void fmt_fill(Src& s, Fmt& f, Val& v, int depth, Opt const& o) {
    for (int n = s.draw(4); n > 0 && f.i.size() < 34 && f.d.size() < 8; n--) {
      if (v.t == Val::Obj) { auto k = fmt_key(s, f); v.o[k] = fmt_val(s, f, depth, o); } else v.a.push_back(fmt_val(s, f, depth, o));
    }
  }
  static Val fmt_val(Src& s, Fmt& f, int depth, Opt const& o) {
    switch (s.draw(depth > 0 ? 12 : 10)) {
      case 0: f.f += s.flip() ? "n" : " "; return Val::null();
      case 1: { int x = s.flip() ? 1 : 0; if (s.draw(4) == 3) x = (int)s.draw(0); f.f += "b"; f.i.push_back((u64)(unsigned)x); return Val::boolean(x); }
      case 2: { int x = (int)gen_int(s); f.f += "i"; f.i.push_back((u64)(unsigned)x); return Val::integer(x); }
      case 3: { unsigned x = (unsigned)gen_int(s); f.f += "ui"; f.i.push_back(x); return Val::integer((i64)x); }
      case 4: { long x = gen_int(s); f.f += "l"; f.i.push_back((u64)x); return Val::integer(x); }
      case 5: { u64 x = (u64)gen_int(s) & INT64_MAX; f.f += "ul"; f.i.push_back(x); return Val::integer((i64)x); }
      case 6: case 7: { double x = gen_dec(s, o); f.f += "d"; f.d.push_back(x); return Val::dec(x); }
      case 8: { std::string k = gen_str(s, o); if (!nonul(k)) k = "plain"; f.f += "s"; f.keep.emplace_back(new Text(k, true)); f.i.push_back((u64)f.keep.back()->p); return Val::str(k); }
      case 9: { std::string k = gen_str(s, o); f.f += "S"; f.keep.emplace_back(new Text(k, false)); f.i.push_back((u64)f.keep.back()->p); f.i.push_back(k.size()); return Val::str(k); }
      case 10: { f.f += "o"; Val v = Val::obj(); fmt_fill(s, f, v, depth - 1, o); f.f += ","; return v; }
      default: { f.f += "a"; Val v = Val::arr(); fmt_fill(s, f, v, depth - 1, o); f.f += ","; return v; }
    }
  }

  void World::format() {
    H h = fresh(s.flip() ? DART_HEAP : DART_PACKET, s.draw(3) == 2 ? DART_RC_UNSAFE : DART_RC_SAFE);
    Fmt f; Val v = s.flip() ? Val::obj() : Val::arr(); fmt_fill(s, f, v, 3, o);
    bool broken = bad && s.draw(3) == 2;
    if (broken) { // only characters that name no type: consuming the wrong argument is the caller's own fault
      if (v.t == Val::Obj) fmt_key(s, f);
      static char const* const junk[] = {"x", "u", "ux", "O", "%", "D", "\x80", "u,", "A", "\n"};
      f.f += junk[s.draw(10)];
    } else while (f.f.size() && f.f.back() == ',' && s.flip()) f.f.pop_back();     // trailing closers may be left out
    f.i.resize(48); f.d.resize(8);
    Text fmt (f.f, true); auto& i = f.i; auto& d = f.d;
    #define ARGS fmt.p, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12], i[13], i[14], i[15], i[16], i[17], i[18], i[19], \
      i[20], i[21], i[22], i[23], i[24], i[25], i[26], i[27], i[28], i[29], i[30], i[31], i[32], i[33], i[34], i[35], i[36], i[37], i[38], i[39], i[40], i[41], i[42], i[43], i[44], i[45], i[46], i[47]
    if (broken) sentinel(false);
    dart_err_t code; unsigned form = 0;
    #define VCTOR(name) do { unsigned f_ = form = h.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2); code = DART_NO_ERROR; if (h.fam == DART_HEAP) switch (f_) { \
      case 0: *h.h() = dart_heap_##name##_va(ARGS); break; case 1: code = dart_heap_##name##_va_err(h.h(), ARGS); break; \
      case 2: *h.h() = dart_heap_##name##_va_rc(h.rc, ARGS); break; default: code = dart_heap_##name##_va_rc_err(h.h(), h.rc, ARGS); } \
      else switch (f_) { \
      case 0: *h.q() = dart_##name##_va(ARGS); break; case 1: code = dart_##name##_va_err(h.q(), ARGS); break; \
      case 2: *h.q() = dart_##name##_va_rc(h.rc, ARGS); break; default: code = dart_##name##_va_rc_err(h.q(), h.rc, ARGS); } } while (0)
    std::string call = "format " + eng::quote(f.f, 60);
    if (v.t == Val::Obj) VCTOR(obj_init); else VCTOR(arr_init);
    if (broken) {
      if (form & 1) judge(code, DART_LOGIC_ERROR, call); else { CHECK(msg() != mark && !msg().empty(), call + " leaves a message"); errors++; mark.clear(); h.rc = ((dart_type_id_t*)h.p)->rc_id; }
      v = Val::null();
    } else judge(code, 0, call);
    h.m = v; h.fin = false; verify(h, call); add(h);
    s.label(broken ? "broken format" : "format");
  }

  // ---- mutation ---------------------------------------------------------------------------------

  void World::mutate() {
    auto* hp = bad && s.flip() ? &any() : some([](H const& h) { return !h.fin && h.m.is_agg(); });
    if (!hp) return construct();
    H& h = *hp; bool isobj = h.m.t == Val::Obj, isarr = h.m.t == Val::Arr;
    bool arr = isarr; if (bad && !s.draw(4)) arr = !arr;
    // What stands in the way of any mutation at all.
    int block = h.fam == DART_BUFFER ? DART_CLIENT_ERROR : h.fin ? DART_STATE_ERROR : (arr ? isarr : isobj) ? 0 : DART_TYPE_ERROR;
    bool spec = h.fam == DART_HEAP && s.flip();
    auto n = h.m.size(); Opt small = o; small.depth = 2;
    std::string before = show(h.m, 200);
    std::string what; int e = 0, want = block;
    if (!arr) {
      auto key = probe_key(s, h.m, o); if (key.size() > 65535) key.resize(65535);
      bool z = nonul(key) && s.flip(); Text k (key, z); auto* old = h.m.get(key);
      switch (s.weigh({4, 3, 3, 1})) {
        case 0: { Val v = gen_val(s, small); put(h, false, true, key, 0, v, want); if (!want) h.m.o[key] = v; what = "insert"; break; }
        case 1: { Val v = gen_val(s, small); if (!want && !old) { if (!bad) { if (!n) return; auto ks = keys_of(h.m); key = ks[s.draw(ks.size())]; } else want = DART_LOGIC_ERROR; }
          put(h, false, false, key, 0, v, want); if (!want) h.m.o[key] = v; what = "set"; break; }
        case 2:
          if (want) sentinel(false);
          e = z ? (spec ? dart_heap_obj_erase(h.h(), k.p) : dart_obj_erase(h.p, k.p)) : (spec ? dart_heap_obj_erase_len(h.h(), k.p, k.n) : dart_obj_erase_len(h.p, k.p, k.n));
          what = "erase key " + eng::quote(key, 20); judge((dart_err_t)e, want, what); if (!want) h.m.o.erase(key); break;
        default:
          if (isarr) return; // clearing is the same call for arrays
          if (want) sentinel(false);
          e = spec ? dart_heap_obj_clear(h.h()) : dart_obj_clear(h.p); what = "obj_clear"; judge((dart_err_t)e, want, what); if (!want) h.m.o.clear();
      }
    } else {
      size_t i = s.draw(n + 1);
      switch (s.weigh({4, 3, 3, 1, 2, 1})) {
        case 0: { Val v = gen_val(s, small); if (bad && !want && s.draw(3) == 2) { i = n + 1 + (s.flip() ? s.draw(3) : s.draw(0) >> 8); want = DART_LOGIC_ERROR; }
          put(h, true, true, "", i, v, want); if (!want) h.m.a.insert(h.m.a.begin() + i, v); what = "insert"; break; }
        case 1: { Val v = gen_val(s, small); if (!want) { if (i >= n) { if (!bad) return; } if (bad && s.draw(3) == 2) i = n + (s.flip() ? 0 : s.draw(0) >> 8); if (i >= n) want = DART_LOGIC_ERROR; }
          put(h, true, false, "", i, v, want); if (!want) h.m.a[i] = v; what = "set"; break; }
        case 2:
          if (want) sentinel(false);
          if (bad && !want && s.draw(3) == 2) i = n + (s.draw(0) >> 8);
          e = spec ? dart_heap_arr_erase(h.h(), i) : dart_arr_erase(h.p, i); what = "erase at " + std::to_string(i);
          if (!want && i >= n) { if (!e) {} else { errors++; CHECK(!msg().empty(), "message"); } NOTE(what + " out of range"); } // nothing to erase: either way the array stays
          else { judge((dart_err_t)e, want, what); if (!want) h.m.a.erase(h.m.a.begin() + i); }
          break;
        case 3:
          if (isobj) return;
          if (want) sentinel(false);
          e = spec ? dart_heap_arr_clear(h.h()) : dart_arr_clear(h.p); what = "arr_clear"; judge((dart_err_t)e, want, what); if (!want) h.m.a.clear(); break;
        case 4: { size_t m = s.draw(n + 6); if (want) sentinel(false);
          if (bad && !want && s.draw(4) == 3) { m = SIZE_MAX - s.draw(100); want = DART_LOGIC_ERROR; sentinel(false); }
          e = spec ? dart_heap_arr_resize(h.h(), m) : dart_arr_resize(h.p, m); what = "resize to " + std::to_string(m); judge((dart_err_t)e, want, what); if (!want) h.m.a.resize(m); break; }
        default: { size_t m = s.draw(n + 20); if (want) sentinel(false);
          if (bad && !want && s.draw(4) == 3) { m = SIZE_MAX - s.draw(100); want = DART_LOGIC_ERROR; sentinel(false); }
          e = spec ? dart_heap_arr_reserve(h.h(), m) : dart_arr_reserve(h.p, m); what = "reserve " + std::to_string(m); judge((dart_err_t)e, want, what); break; }
      }
    }
    mark.clear();
    s.label(want ? "failed mutation" : "mutation");
    verify(h, what + " on " + before);
    if (s.draw(4) == 0) verify_all(what);
  }

  // ---- reading ----------------------------------------------------------------------------------

  void World::reading() {
    H& h = any(); void* p = h.p; dart_packet_t sub; auto& m = h.m;
    tick = s.draw(64);
    auto check = [&](dart_packet_t* q, Val const& want, std::string const& what) {
      auto got = read(q); CHECK(got == want, what + " of a " + famname(h.fam) + " " + tname(m.t) + ": " + diff(got, want)); destroy(q);
    };
    switch (s.draw(bad ? 8 : 3)) {
      case 0: { // a key, present or not
        auto key = probe_key(s, m, o); if (m.t != Val::Obj) return;
        bool z = nonul(key) && s.flip(); Text k (key, z); auto* v = m.get(key);
        int has = z ? RD(obj_has_key, k.p) : RD(obj_has_key_len, k.p, k.n);
        CHECK(!has == !v, "has_key of " + eng::quote(key));
        int e = z ? GET(&sub, obj_get, k.p) : GET(&sub, obj_get_len, k.p, k.n);
        judge((dart_err_t)e, 0, "obj_get"); check(&sub, v ? *v : Val::null(), "obj_get " + eng::quote(key)); break; }
      case 1: { if (m.t != Val::Arr) return; size_t i = s.draw(m.a.size() + 2); if (bad && s.draw(4) == 3) i = s.draw(0);
        int e = GET(&sub, arr_get, i); judge((dart_err_t)e, 0, "arr_get"); check(&sub, i < m.a.size() ? m.a[i] : Val::null(), "arr_get " + std::to_string(i)); break; }
      case 2: { // keep a part as a handle of its own
        if (!m.is_agg() || !m.size() || pool.size() > 6) return;
        H g = fresh(h.fam == DART_PACKET || s.flip() ? DART_PACKET : h.fam, h.rc); g.fin = h.fin; int e = 0;
        size_t at = s.draw(m.size()); std::string key; if (m.t == Val::Obj) key = keys_of(m)[at]; Text k (key, false);
        g.m = m.t == Val::Obj ? *m.get(key) : m.a[at];
        if (g.fam == DART_PACKET) e = m.t == Val::Obj ? dart_obj_get_len_err(g.q(), p, k.p, k.n) : dart_arr_get_err(g.q(), p, at);
        else if (g.fam == DART_HEAP) e = m.t == Val::Obj ? dart_heap_obj_get_len_err(g.h(), h.h(), k.p, k.n) : dart_heap_arr_get_err(g.h(), h.h(), at);
        else e = m.t == Val::Obj ? dart_buffer_obj_get_len_err(g.b(), h.b(), k.p, k.n) : dart_buffer_arr_get_err(g.b(), h.b(), at);
        judge((dart_err_t)e, 0, "keeping a part"); g.fin = dart_is_finalized(g.p); verify(g, "being taken out"); verify(h, "having a part taken out"); add(g); return; }
      case 3: { if (m.t == Val::Obj) return; sentinel(false); // keys of something without keys
        CHECK(!dart_obj_has_key(p, "k"), "has_key of something without keys"); mark.clear();
        sentinel(false);
        if (s.flip()) { dart_packet_t d; judge(dart_obj_get_err(&d, p, "k"), DART_TYPE_ERROR, std::string("obj_get on a ") + tname(m.t)); }
        else { dart_packet_t d = dart_obj_get(p, "k"); CHECK(msg() != mark, "obj_get by value leaves a message"); mark.clear(); check(&d, Val::null(), "failed obj_get"); errors++; }
        break; }
      case 4: { if (m.t == Val::Arr) return; sentinel(false);
        if (s.flip()) { dart_packet_t d; judge(dart_arr_get_err(&d, p, s.draw(3)), DART_TYPE_ERROR, std::string("arr_get on a ") + tname(m.t)); }
        else { dart_packet_t d = dart_arr_get(p, s.draw(3)); CHECK(msg() != mark, "arr_get by value leaves a message"); mark.clear(); check(&d, Val::null(), "failed arr_get"); errors++; }
        break; }
      case 5: { if (m.is_agg() || m.t == Val::Str) return; sentinel(false); CHECK(RD(size) == (size_t)DART_FAILURE, "size of something without a size"); CHECK(msg() != mark, "size leaves a message"); mark.clear(); errors++; break; }
      case 6: { if (m.t == Val::Str) return; sentinel(false); size_t l; CHECK((s.flip() ? RD(str_get) : RD(str_get_len, &l)) == nullptr, "str_get of something else"); CHECK(msg() != mark, "str_get leaves a message"); mark.clear(); errors++; break; }
      default: { // scalar readers on every other type
        auto what = [&](char const* f) { return std::string(f) + " of a " + famname(h.fam) + " " + tname(m.t); };
        sentinel(false); int64_t i = 77; if (m.t != Val::Int) { judge(RD(int_get_err, &i), DART_TYPE_ERROR, what("int_get_err")); CHECK(i == 77, what("int_get_err") + " leaves the output alone"); CHECK(RD(int_get) == 0, what("int_get")); }
        sentinel(false); double d = 77; if (m.t != Val::Dec) { judge(RD(dcm_get_err, &d), DART_TYPE_ERROR, what("dcm_get_err")); CHECK(d == 77, what("dcm_get_err") + " leaves the output alone"); CHECK(std::isnan(RD(dcm_get)), what("dcm_get")); }
        sentinel(false); int b = 77; if (m.t != Val::Bool) { judge(RD(bool_get_err, &b), DART_TYPE_ERROR, what("bool_get_err")); CHECK(b == 77, what("bool_get_err") + " leaves the output alone"); CHECK(RD(bool_get) == 0, what("bool_get")); }
        mark.clear(); }
    }
    verify(h, "reading");
  }

  // ---- iteration --------------------------------------------------------------------------------

  void World::iterate() {
    H& h = any(); auto& m = h.m; bool keys = s.flip();
    std::vector<Val> want; if (m.t == Val::Obj) for (auto& e : m.o) want.push_back(keys ? Val::str(e.first) : e.second); else want = m.a;
    bool can = m.t == Val::Obj || (m.t == Val::Arr && !keys);
    if (!can && !bad) return;
    std::string what = std::string(keys ? "key " : "") + "iteration over a " + famname(h.fam) + " " + tname(m.t);
    unsigned form = s.draw(3); std::vector<Val> got;
    if (!can) sentinel(false);
    if (form == 0) { // the loop macros
      auto* store = (dart_packet_t*)malloc(sizeof(dart_packet_t)); memset(store, 0xa5, sizeof *store);
      #define BODY { CHECK(got.size() < want.size(), what + " goes on past the end"); got.push_back(read(store)); if (m.t == Val::Obj || !keys) CHECK(!dart_is_finalized(store) == !h.fin, what + " yields values in the state of the aggregate"); }
      if (keys) { dart_for_each_key(h.p, store) BODY } else { dart_for_each(h.p, store) BODY }
      free(store);
      if (!can) { CHECK(msg() != mark, what + " leaves a message"); mark.clear(); errors++; s.label("for_each over a non-aggregate"); }
      else if (want.empty()) s.label("for_each over an empty aggregate");
    } else {
      auto* it = (dart_iterator_t*)malloc(sizeof(dart_iterator_t));
      auto code = keys ? dart_iterator_init_key_from_err(it, h.p) : dart_iterator_init_from_err(it, h.p);
      judge(code, can ? 0 : DART_TYPE_ERROR, what);
      if (!code) {
        while (!dart_iterator_done(it)) {
          CHECK(got.size() < want.size(), what + " goes on past the end");
          if (s.draw(6) == 5) { // go on with a copy, or move
            auto* n = (dart_iterator_t*)malloc(sizeof(dart_iterator_t));
            if (s.flip()) { judge(dart_iterator_copy_err(n, it), 0, "iterator_copy"); if (s.flip()) { dart_iterator_next(n); CHECK(!dart_iterator_destroy(n), "destroying a copy"); judge(dart_iterator_copy_err(n, it), 0, "iterator_copy"); } }
            else judge(dart_iterator_move_err(n, it), 0, "iterator_move");
            CHECK(!dart_iterator_destroy(it), "iterator_destroy"); free(it); it = n;
          }
          for (int k = s.draw(2); k >= 0; k--) {
            dart_packet_t v; if (s.flip()) v = dart_iterator_get(it); else judge(dart_iterator_get_err(&v, it), 0, "iterator_get");
            CHECK(v.rtti.p_id == DART_PACKET && v.rtti.rc_id == h.rc, "iterators yield generic values");
            auto r = read(&v); if (!k) got.push_back(r); destroy(&v);
          }
          judge(dart_iterator_next(it), 0, "iterator_next");
        }
        if (s.flip()) judge(dart_iterator_next(it), 0, "iterator_next at the end");
        CHECK(dart_iterator_done(it), what + ": stays done");
        if (bad) { dart_packet_t v; sentinel(false);
          if (s.flip()) judge(dart_iterator_get_err(&v, it), DART_RUNTIME_ERROR, "iterator_get at the end");
          else { v = dart_iterator_get(it); CHECK(msg() != mark, "iterator_get at the end leaves a message"); mark.clear(); CHECK(read(&v).t == Val::Null, "iterator_get at the end"); destroy(&v); errors++; } }
        if (s.flip()) CHECK(!dart_iterator_destroy(it), "iterator_destroy"); else CHECK(dart_iterator_done_destroy(it, nullptr), "iterator_done_destroy");
      }
      free(it);
    }
    CHECK(got.size() == (can ? want.size() : 0), what + " visits " + std::to_string(got.size()) + " of " + std::to_string(want.size()));
    if (can) for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], what + " at " + std::to_string(i) + ": " + diff(got[i], want[i]));
    mark.clear(); s.label(can ? "iteration" : "failed iteration"); verify(h, what);
  }

  // ---- copies, moves ----------------------------------------------------------------------------

  void World::lifecycle() {
    H& h = any();
    switch (s.draw(4)) {
      case 0: { // copy
        if (pool.size() > 7) return;
        H g = fresh(h.fam, h.rc); g.m = h.m; g.fin = h.fin; bool counted = h.m.is_agg(); auto rc = dart_refcount(h.p); int e = 0;
        switch (s.draw(4)) {
          case 0: { dart_packet_t q = dart_copy(h.p); memcpy(g.p, &q, famsize(g.fam)); break; }
          case 1: e = dart_copy_err(g.p, h.p); break;
          case 2: if (h.fam == DART_HEAP) { *g.h() = dart_heap_copy(h.h()); break; } if (h.fam == DART_BUFFER) { *g.b() = dart_buffer_copy(h.b()); break; }
          default: e = h.fam == DART_HEAP ? dart_heap_copy_err(g.h(), h.h()) : h.fam == DART_BUFFER ? dart_buffer_copy_err(g.b(), h.b()) : dart_copy_err(g.p, h.p);
        }
        judge((dart_err_t)e, 0, "copy");
        if (counted) CHECK(dart_refcount(h.p) == rc + 1 && dart_refcount(g.p) == rc + 1, "a copy raises the reference count by one");
        verify(g, "copy"); verify(h, "being copied"); if (s.flip()) add(g); else { drop(g); if (counted) CHECK(dart_refcount(h.p) == rc, "destroying the copy lowers it again"); }
        break; }
      case 1: { // move
        if (pool.size() > 7) return;
        H g = fresh(h.fam, h.rc); g.m = h.m; g.fin = h.fin; int e = 0; auto rc = dart_refcount(h.p);
        switch (s.draw(4)) {
          case 0: { dart_packet_t q = dart_move(h.p); memcpy(g.p, &q, famsize(g.fam)); break; }
          case 1: e = dart_move_err(g.p, h.p); break;
          case 2: if (h.fam == DART_HEAP) { *g.h() = dart_heap_move(h.h()); break; } if (h.fam == DART_BUFFER) { *g.b() = dart_buffer_move(h.b()); break; }
          default: e = h.fam == DART_HEAP ? dart_heap_move_err(g.h(), h.h()) : h.fam == DART_BUFFER ? dart_buffer_move_err(g.b(), h.b()) : dart_move_err(g.p, h.p);
        }
        judge((dart_err_t)e, 0, "move");
        if (h.m.is_agg()) CHECK(dart_refcount(g.p) == rc, "a move leaves the reference count alone");
        CHECK(dart_is_null(h.p), "a moved-from handle is null"); h.m = Val::null(); h.fin = dart_is_finalized(h.p);
        verify(g, "move"); verify(h, "being moved from"); add(g); s.label("moved from"); break; }
      case 2: { // destroy
        if (pool.size() < 2) return;
        size_t i = s.draw(pool.size()); drop(pool[i]); pool.erase(pool.begin() + i); NOTE("destroy"); break; }
      default: { // unknown counter types
        if (!bad) return;
        auto rc = (dart_rc_type_t)(s.flip() ? 0 : 3 + s.draw(1000)); sentinel(false); dart_heap_t x; dart_packet_t y; dart_buffer_t z;
        switch (s.draw(7)) {
          case 0: judge(dart_heap_init_rc_err(&x, rc), DART_CLIENT_ERROR, "heap_init_rc with an unknown counter"); break;
          case 1: judge(dart_init_rc_err(&y, rc), DART_CLIENT_ERROR, "init_rc with an unknown counter"); break;
          case 2: judge(dart_buffer_init_rc_err(&z, rc), DART_CLIENT_ERROR, "buffer_init_rc with an unknown counter"); break;
          case 3: judge(dart_heap_obj_init_rc_err(&x, rc), DART_CLIENT_ERROR, "heap_obj_init_rc with an unknown counter"); break;
          case 4: judge(dart_str_init_rc_err(&y, rc, "x"), DART_CLIENT_ERROR, "str_init_rc with an unknown counter"); break;
          case 5: judge(dart_buffer_from_json_rc_err(&z, rc, "{}"), DART_CLIENT_ERROR, "buffer_from_json_rc with an unknown counter"); break;
          default: judge(dart_from_json_rc_err(&y, rc, "{}"), DART_CLIENT_ERROR, "from_json_rc with an unknown counter");
        } }
    }
    if (!s.draw(3)) verify_all("lifecycle");
  }

  // ---- transitions ------------------------------------------------------------------------------

  void World::transition() {
    H& h = any(); if (pool.size() > 7) return;
    unsigned kind = s.draw(4); // lower, lift, to_heap, to_buffer
    bool lowers = kind == 0 || kind == 3;
    int want = lowers && !h.fin && h.m.t != Val::Obj ? DART_TYPE_ERROR : 0;
    if (want && !bad) return;
    bool spec = (kind == 0 && h.fam == DART_HEAP) || (kind == 1 && h.fam == DART_BUFFER) ? s.flip() : false;
    bool fin_name = s.flip(), byval = s.flip();
    H g = fresh(kind == 2 ? DART_HEAP : kind == 3 ? DART_BUFFER : spec ? kind == 0 ? DART_BUFFER : DART_HEAP : DART_PACKET, h.rc);
    g.m = h.m; g.fin = lowers; int e = 0;
    std::string what = std::string(kind == 0 ? "lower" : kind == 1 ? "lift" : kind == 2 ? "to_heap" : "to_buffer") + " of a " + (h.fin ? "finalized " : "") + famname(h.fam) + " " + tname(h.m.t);
    if (want) sentinel(false);
    switch (kind) {
      case 0:
        if (spec) { if (byval) *g.b() = fin_name ? dart_heap_finalize(h.h()) : dart_heap_lower(h.h()); else e = fin_name ? dart_heap_finalize_err(g.b(), h.h()) : dart_heap_lower_err(g.b(), h.h()); }
        else if (byval) *g.q() = fin_name ? dart_finalize(h.p) : dart_lower(h.p); else e = fin_name ? dart_finalize_err(g.q(), h.p) : dart_lower_err(g.q(), h.p);
        break;
      case 1:
        if (spec) { if (byval) *g.h() = fin_name ? dart_buffer_definalize(h.b()) : dart_buffer_lift(h.b()); else e = fin_name ? dart_buffer_definalize_err(g.h(), h.b()) : dart_buffer_lift_err(g.h(), h.b()); }
        else if (byval) *g.q() = fin_name ? dart_definalize(h.p) : dart_lift(h.p); else e = fin_name ? dart_definalize_err(g.q(), h.p) : dart_lift_err(g.q(), h.p);
        break;
      case 2: if (byval) *g.h() = dart_to_heap(h.p); else e = dart_to_heap_err(g.h(), h.p); break;
      default: if (byval) *g.b() = dart_to_buffer(h.p); else e = dart_to_buffer_err(g.b(), h.p);
    }
    if (want && byval) { CHECK(msg() != mark, what + " leaves a message"); mark.clear(); errors++; g.m = Val::null(); g.rc = ((dart_type_id_t*)g.p)->rc_id; g.fin = dart_is_finalized(g.p); verify(g, "failed " + what); drop(g); }
    else { judge((dart_err_t)e, want, what); if (want) free(g.p); else { verify(g, what); add(g); } }
    s.label(want ? "failed transition" : "transition");
    verify_all(what);
  }

  // ---- bytes ------------------------------------------------------------------------------------

  void World::bytes() {
    size_t at = s.draw(pool.size()); H& h = pool[at]; size_t len = 77; bool give = s.flip();
    bool spec = h.fam == DART_BUFFER && s.flip();
    int want = h.fam == DART_HEAP ? DART_CLIENT_ERROR : !h.fin ? DART_STATE_ERROR : h.m.t != Val::Obj ? ANY : 0;
    std::string what = std::string("bytes of a ") + (h.fin ? "finalized " : "") + famname(h.fam) + " " + tname(h.m.t);
    if (want) {
      if (!bad) return;
      if (want == ANY) return;
      sentinel(false);
      if (s.flip()) CHECK(!(spec ? dart_buffer_get_bytes(h.b(), give ? &len : nullptr) : dart_get_bytes(h.p, give ? &len : nullptr)), what + " is NULL");
      else CHECK(!(spec ? dart_buffer_dup_bytes(h.b(), give ? &len : nullptr) : dart_dup_bytes(h.p, give ? &len : nullptr)), what + " (duplicated) is NULL");
      CHECK(msg() != mark, what + " leaves a message"); mark.clear(); errors++; s.label("no bytes"); verify(h, what); return;
    }
    auto expect = codec::encode(h.m);
    void const* b = spec ? dart_buffer_get_bytes(h.b(), give ? &len : nullptr) : dart_get_bytes(h.p, give ? &len : nullptr);
    CHECK(b, what + ": get_bytes"); if (give) CHECK(len == expect.size(), what + ": length");
    CHECK(!memcmp(b, expect.data(), expect.size()), what + ": contents");
    CHECK(dart_buffer_is_valid(b, expect.size()), what + ": is_valid");
    len = 77;
    void* d = spec ? dart_buffer_dup_bytes(h.b(), give ? &len : nullptr) : dart_dup_bytes(h.p, give ? &len : nullptr);
    CHECK(d && d != b, what + ": dup_bytes"); if (give) CHECK(len == expect.size(), what + ": duplicated length");
    CHECK(!memcmp(d, expect.data(), expect.size()), what + ": duplicated contents");
    s.label("bytes");
    if (pool.size() > 7 || s.flip()) { dart_aligned_free(d); return; }
    H g = fresh(s.flip() ? DART_BUFFER : DART_PACKET, s.draw(3) == 2 ? DART_RC_UNSAFE : DART_RC_SAFE); g.m = h.m; g.fin = true; dart_err_t code = DART_NO_ERROR;
    if (s.flip()) { dart_aligned_free(d); make_bytes(g, expect, what); }
    else {
      unsigned f = g.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2);
      if (g.fam == DART_BUFFER) switch (f) {
        case 0: *g.b() = dart_buffer_take_bytes(d); break; case 1: code = dart_buffer_take_bytes_err(g.b(), d); break;
        case 2: *g.b() = dart_buffer_take_bytes_rc(d, g.rc); break; default: code = dart_buffer_take_bytes_rc_err(g.b(), g.rc, d);
      } else switch (f) {
        case 0: *g.q() = dart_take_bytes(d); break; case 1: code = dart_take_bytes_err(g.q(), d); break;
        case 2: *g.q() = dart_take_bytes_rc(d, g.rc); break; default: code = dart_take_bytes_rc_err(g.q(), g.rc, d);
      }
      judge(code, 0, "take_bytes");
    }
    verify(g, "adopting bytes"); add(g);
  }

  // ---- JSON -------------------------------------------------------------------------------------

  static bool finite(Val const& v) { if (v.t == Val::Dec) return std::isfinite(v.d); for (auto& e : v.a) if (!finite(e)) return false; for (auto& e : v.o) if (!finite(e.second)) return false; return true; }

  void World::json() {
    if (!s.draw(2)) { // out
      H& h = any(); if (o.bytes) return; if (!h.m.is_agg() || !finite(h.m)) return;
      size_t len = 77; bool give = s.flip(); void* p = h.p; tick = s.draw(8);
      char* t = RD(to_json, give ? &len : nullptr); CHECK(t, "to_json: " + msg());
      std::string text = t; if (give) CHECK(len == text.size(), "to_json: length"); free(t);
      Val v; std::string err; CHECK(json_parse(text, v, err), "to_json yields JSON: " + err + " in " + eng::quote(text, 200));
      CHECK(near(v, h.m, 4), "to_json: " + diff(v, h.m)); s.label("to_json"); return;
    }
    if (pool.size() > 7) return;
    H h = fresh(DART_HEAP + s.draw(3), s.draw(3) == 2 ? DART_RC_UNSAFE : DART_RC_SAFE); Opt jo = o; jo.bytes = false;
    Val v = h.fam == DART_BUFFER || s.flip() ? gen_obj(s, jo) : gen_arr(s, jo);
    auto text = json_write(v, &s, {s.flip(), s.flip(), s.flip(), false, false, false});
    int want = 0;
    if (bad && s.flip()) {
      want = DART_PARSE_ERROR;
      switch (s.draw(4)) {
        case 0: text.pop_back(); break;                                 // never closed
        case 1: text = ""; break;
        case 2: text += "]"; break;
        default: { static char const* const junk[] = {"{", "[", "{\"a\"", "{\"a\":", "{\"a\":1,}", "[1,]", "{a:1}", "[01]", "[1e]", "[\"\\u12\"]", "[\"\x01\"]", "{\"a\" 1}", "[tru]", "nul", "\"abc", "-", "[1 2]", "{1:2}"}; text = junk[s.draw(18)]; }
      }
    }
    bool z = nonul(text) && s.flip(); Text t (text, true); dart_err_t code = DART_NO_ERROR; bool byval = false;
    #define JCTOR(pre, ptr, dst) do { unsigned f_ = h.rc == DART_RC_SAFE ? s.draw(4) : 2 + s.draw(2); byval = !(f_ & 1); if (z) switch (f_) { \
      case 0: dst = pre##from_json(t.p); break; case 1: code = pre##from_json_err(ptr, t.p); break; case 2: dst = pre##from_json_rc(h.rc, t.p); break; default: code = pre##from_json_rc_err(ptr, h.rc, t.p); } \
      else switch (f_) { case 0: dst = pre##from_json_len(t.p, t.n); break; case 1: code = pre##from_json_len_err(ptr, t.p, t.n); break; case 2: dst = pre##from_json_len_rc(h.rc, t.p, t.n); break; default: code = pre##from_json_len_rc_err(ptr, h.rc, t.p, t.n); } } while (0)
    if (want) sentinel(true);
    if (h.fam == DART_HEAP) JCTOR(dart_heap_, h.h(), *h.h()); else if (h.fam == DART_BUFFER) JCTOR(dart_buffer_, h.b(), *h.b()); else JCTOR(dart_, h.q(), *h.q());
    std::string call = std::string("from_json of ") + eng::quote(text, 80) + " as " + famname(h.fam);
    if (want) {
      if (byval) { CHECK(msg() != mark && !msg().empty(), call + " leaves a message"); mark.clear(); errors++; h.rc = ((dart_type_id_t*)h.p)->rc_id; }
      else { judge(code, ANY, call); CHECK(code == DART_PARSE_ERROR || code == DART_TYPE_ERROR, call + " returns " + std::to_string((int)code)); }
      h.m = Val::null(); h.fin = dart_is_finalized(h.p); verify(h, "failed " + call); s.label("malformed JSON"); drop(h); return;
    }
    judge(code, 0, call);
    h.m = read(h.p); CHECK(near(h.m, v, 4), call + ": " + diff(h.m, v)); h.fin = h.fam == DART_BUFFER; verify(h, call); add(h); s.label("from_json");
  }

  void World::equality() {
    H& x = any(); H& y = any();
    if (!finite(x.m) || !finite(y.m) || x.rc != y.rc) return;
    bool same = x.m == y.m;
    CHECK(!dart_equal(x.p, y.p) == !same, std::string("dart_equal of a ") + famname(x.fam) + " and a " + famname(y.fam) + ": " + show(x.m, 100) + " / " + show(y.m, 100));
    if (x.fam == y.fam && x.rc == y.rc) {
      if (x.fam == DART_HEAP) CHECK(!dart_heap_equal(x.h(), y.h()) == !same, "dart_heap_equal"); 
      if (x.fam == DART_BUFFER) CHECK(!dart_buffer_equal(x.b(), y.b()) == !same, "dart_buffer_equal");
    }
    s.label(same ? "equal" : "unequal");
  }

  // Reads everything there is to read, without expecting keys in order and the like.
  static void walk(void const* p, int depth = 0) {
    dart_iterator_t it; size_t len; static volatile unsigned sink; char const* str;
    switch (dart_get_type(p)) {
      case DART_OBJECT: case DART_ARRAY:
        if (dart_is_obj(p)) {
          CHECK(!dart_iterator_init_key_from_err(&it, p), "a key iterator for an object");
          while (!dart_iterator_done(&it)) { dart_packet_t k; CHECK(!dart_iterator_get_err(&k, &it), "reading a key"); walk(&k); dart_destroy(&k); CHECK(!dart_iterator_next(&it), "advancing"); }
          dart_iterator_destroy(&it);
        }
        CHECK(!dart_iterator_init_from_err(&it, p), "an iterator for an aggregate");
        while (!dart_iterator_done(&it)) { dart_packet_t k; CHECK(!dart_iterator_get_err(&k, &it), "reading a value"); walk(&k, depth + 1); dart_destroy(&k); CHECK(!dart_iterator_next(&it), "advancing"); }
        dart_iterator_destroy(&it); break;
      case DART_STRING: str = dart_str_get_len(p, &len); CHECK(str, "string contents"); for (size_t i = 0; i <= len; i++) sink += str[i]; break;
      case DART_INTEGER: { int64_t i; CHECK(!dart_int_get_err(p, &i), "int_get"); break; }
      case DART_DECIMAL: { double d; CHECK(!dart_dcm_get_err(p, &d), "dcm_get"); break; }
      case DART_BOOLEAN: { int b; CHECK(!dart_bool_get_err(p, &b), "bool_get"); break; }
      default: break;
    }
  }

  // ---- misuse with no handle state of its own -----------------------------------------------------

  void World::bad_inputs() {
    switch (s.draw(6)) {
      case 0: { sentinel(false); dart_buffer_t d; judge(dart_buffer_from_bytes_err(&d, "", 0), ANY, "buffer_from_bytes of nothing"); CHECK(read(&d).t == Val::Null, "a failed from_bytes leaves null"); dart_buffer_destroy(&d); break; }
      case 1: { sentinel(false); dart_packet_t d; judge(dart_from_bytes_rc_err(&d, s.flip() ? DART_RC_SAFE : DART_RC_UNSAFE, "", 0), ANY, "from_bytes of nothing"); CHECK(read(&d).t == Val::Null, "a failed from_bytes leaves null"); dart_destroy(&d); break; }
      case 2: { sentinel(false); dart_buffer_t d; judge(dart_buffer_take_bytes_err(&d, nullptr), ANY, "buffer_take_bytes of NULL"); CHECK(read(&d).t == Val::Null, "a failed take_bytes leaves null"); dart_buffer_destroy(&d); break; }
      case 3: { sentinel(false); dart_packet_t d; judge(dart_take_bytes_err(&d, nullptr), ANY, "take_bytes of NULL"); CHECK(read(&d).t == Val::Null, "a failed take_bytes leaves null"); dart_destroy(&d); break; }
      case 4: { // corrupted bytes: the answer is yes or no, and only yes lets them in
        Opt g = o; Val v = gen_obj(s, g); std::vector<codec::Field> fields; codec::How how; how.fields = &fields;
        auto b = codec::encode(v, how); auto d = codec::corrupt(s, b, fields); void* q = nullptr; if (posix_memalign(&q, 8, b.size() + 8)) abort(); memcpy(q, b.data(), b.size());
        char* exact = nullptr; if (posix_memalign((void**)&exact, 8, b.size() ? b.size() : 1)) abort(); memcpy(exact, b.data(), b.size()); free(q);
        int ok = dart_buffer_is_valid(exact, b.size()); CHECK(ok == 0 || ok == 1, "is_valid answers 0 or 1");
        if (ok) { H h = fresh(DART_BUFFER, DART_RC_SAFE); judge(dart_buffer_from_bytes_err(h.b(), exact, b.size()), 0, "from_bytes of valid bytes"); walk(h.p); drop(h); s.label("corrupted but valid"); } else s.label("corrupted bytes");
        free(exact); errors++; break; }
      default: { // counters do not mix
        H* x = &any(); H* y = &any(); if (x->rc == y->rc) return; sentinel(false); int e; if (x->fin && x->fam == DART_PACKET) return;
        if (x->m.t == Val::Obj) e = s.flip() ? dart_obj_insert_dart(x->p, "k", y->p) : dart_obj_insert_take_dart(x->p, "k", y->p);
        else if (x->m.t == Val::Arr) e = s.flip() ? dart_arr_insert_dart(x->p, 0, y->p) : dart_arr_insert_take_dart(x->p, 0, y->p);
        else return;
        if (x->fam == DART_HEAP && y->fam == DART_HEAP && x->m.t == Val::Obj && s.flip()) e = dart_heap_obj_insert_heap(x->h(), "k", y->h());
        judge((dart_err_t)e, ANY, std::string("inserting a ") + famname(y->fam) + " into a " + famname(x->fam) + " with another counter"); verify_all("mixing counters"); s.label("mixed counters"); }
    }
    mark.clear();
  }

  void World::step() {
    if (pool.empty()) return construct();
    tick = s.draw(256);
    switch (s.weigh({2, 6, 3, 2, 3, 3, 2, 2, 2, 2, bad ? 4u : 0u})) {
      case 0: if (pool.size() < 6) construct(); break;
      case 1: mutate(); break;
      case 2: reading(); break;
      case 3: iterate(); break;
      case 4: lifecycle(); break;
      case 5: transition(); break;
      case 6: bytes(); break;
      case 7: json(); break;
      case 8: equality(); break;
      case 9: if (pool.size() < 6) format(); break;
      default: bad_inputs();
    }
  }

  void World::finish() {
    verify_all("the history");
    while (!pool.empty()) { size_t i = s.draw(pool.size()); drop(pool[i]); pool.erase(pool.begin() + i); for (auto& h : pool) CHECK(dart_get_type(h.p) == ctype(h.m.t), "others survive a destruction"); }
  }
}
