// D24, C interface: every call with every one of its allocations failing in turn returns an error code and changes nothing.
#include "d24.h"
#include "capi.h"
#include <thread>

namespace {
  using namespace mdl;
  using capi::Text;

  struct C {
    Src& s; Opt o; d24::Stats st; int ops = 0;
    struct Hd { void* p; int fam; dart_rc_type_t rc; Val m; bool fin; };
    std::vector<Hd> pool;
    C(Src& s, Opt o) : s(s), o(o) { this->o.nul = false; this->o.bytes = false; pool.reserve(16); }
    ~C() {}

    void verify(std::string const& what) {
      for (auto& h : pool) {
        Val v = capi::read(h.p); CHECK(v == h.m, what + ": a handle changed: " + diff(v, h.m));
        CHECK(!dart_is_finalized(h.p) == !h.fin, what + ": a handle changed state");
      }
    }
    // call() returns the code; made: a handle the call constructs (0: none); when it fails, nullafter says that the handle is
    // constructed and null, otherwise it's left alone.
    template <class F> void run(std::string const& what, void* made, bool nullafter, F&& call) {
      NOTE(what); st.ops++;
      for (u64 n = 1; ; n += n < 40 ? 1 : 1 + n / 8) {
        eng::fault_arm(n, st.all); int e = call(); eng::fault_disarm();
        std::string w = what + " with allocation " + std::to_string(n) + " failing";
        if (!eng::fault_hit()) { CHECK(!e, what + " failed without a fault: " + capi::msg()); return; }
        st.faults++;
        if (!e) { s.label("got along without the memory"); return; }
        CHECK(e != DART_CLIENT_ERROR, w + " is not the caller's fault");
        CHECK(dart_get_error(), w + " leaves a message");
        if (made && nullafter) { CHECK(capi::read(made).t == Val::Null, w + " gives a null handle"); CHECK(!dart_destroy(made), "destroying it"); }
        verify(w);
      }
    }
    Val small() { Opt q = o; q.depth = 1; q.width = 3; if (!s.draw(3)) return Val::str(std::string(20 + s.draw(40), 'x')); return s.draw(3) ? gen_scalar(s, q) : gen_val(s, q); }
    Hd fresh(int fam) { return {malloc(capi::famsize(fam)), fam, s.flip() ? DART_RC_SAFE : DART_RC_UNSAFE, Val::null(), fam == DART_BUFFER}; }
    void keep(Hd h) { if (pool.size() < 6) pool.push_back(h); else { auto& d = pool[s.draw(pool.size())]; dart_destroy(d.p); free(d.p); d = h; } h.fin = dart_is_finalized(pool.back().p); }
    dart_heap_t* hp(void* p) { return (dart_heap_t*)p; }
    dart_packet_t* qp(void* p) { return (dart_packet_t*)p; }
    dart_buffer_t* bp(void* p) { return (dart_buffer_t*)p; }

    // A handle holding v, one failing call at a time.
    Hd make(Val const& v, int fam) {
      Hd h = fresh(fam); bool hf = fam == DART_HEAP;
      void* p = h.p; auto rc = h.rc;
      switch (v.t) {
        case Val::Obj: run("obj_init", p, true, [&] { return hf ? dart_heap_obj_init_rc_err(hp(p), rc) : dart_obj_init_rc_err(qp(p), rc); }); break;
        case Val::Arr: run("arr_init", p, true, [&] { return hf ? dart_heap_arr_init_rc_err(hp(p), rc) : dart_arr_init_rc_err(qp(p), rc); }); break;
        case Val::Str: run("str_init", p, true, [&] { return hf ? dart_heap_str_init_rc_len_err(hp(p), rc, v.s.data(), v.s.size()) : dart_str_init_rc_len_err(qp(p), rc, v.s.data(), v.s.size()); }); break;
        case Val::Int: run("int_init", p, true, [&] { return hf ? dart_heap_int_init_rc_err(hp(p), rc, v.i) : dart_int_init_rc_err(qp(p), rc, v.i); }); break;
        case Val::Dec: run("dcm_init", p, true, [&] { return hf ? dart_heap_dcm_init_rc_err(hp(p), rc, v.d) : dart_dcm_init_rc_err(qp(p), rc, v.d); }); break;
        case Val::Bool: run("bool_init", p, true, [&] { return hf ? dart_heap_bool_init_rc_err(hp(p), rc, v.b) : dart_bool_init_rc_err(qp(p), rc, v.b); }); break;
        default: run("init", p, true, [&] { return hf ? dart_heap_init_rc_err(hp(p), rc) : dart_init_rc_err(qp(p), rc); });
      }
      h.m = v.is_agg() ? v.t == Val::Obj ? Val::obj() : Val::arr() : v;
      if (!v.is_agg()) return h;
      size_t i = 0;
      if (v.t == Val::Obj) for (auto& e : v.o) fill(h, e.first, 0, e.second); else for (auto& e : v.a) fill(h, "", i++, e);
      return h;
    }
    void fill(Hd& h, std::string const& k, size_t i, Val const& v) { pool.push_back(h); put(pool.size() - 1, k, i, v, true); h = pool.back(); pool.pop_back(); }
    // Inserts or replaces one value of pool[at].
    void put(size_t at, std::string const& k, size_t i, Val const& v, bool ins) {
      void* p = pool[at].p; bool arr = pool[at].m.t == Val::Arr, hf = pool[at].fam == DART_HEAP && s.flip();
      std::string what = std::string(ins ? "insert " : "set ") + tname(v.t);
      auto k_ = k.data(); auto n_ = k.size();
      #define PUT(T, ...) run(what, nullptr, false, [&]() -> int { \
        if (arr) return ins ? hf ? dart_heap_arr_insert_##T(hp(p), i, ##__VA_ARGS__) : dart_arr_insert_##T(p, i, ##__VA_ARGS__) : hf ? dart_heap_arr_set_##T(hp(p), i, ##__VA_ARGS__) : dart_arr_set_##T(p, i, ##__VA_ARGS__); \
        return ins ? hf ? dart_heap_obj_insert_##T##_len(hp(p), k_, n_, ##__VA_ARGS__) : dart_obj_insert_##T##_len(p, k_, n_, ##__VA_ARGS__) : hf ? dart_heap_obj_set_##T##_len(hp(p), k_, n_, ##__VA_ARGS__) : dart_obj_set_##T##_len(p, k_, n_, ##__VA_ARGS__); })
      switch (v.t) {
        case Val::Null: PUT(null); break;
        case Val::Bool: PUT(bool, v.b); break;
        case Val::Int: PUT(int, v.i); break;
        case Val::Dec: PUT(dcm, v.d); break;
        case Val::Str: { auto t = v.s.data(); auto tn = v.s.size(); run(what, nullptr, false, [&]() -> int {
          if (arr) return ins ? hf ? dart_heap_arr_insert_str_len(hp(p), i, t, tn) : dart_arr_insert_str_len(p, i, t, tn) : hf ? dart_heap_arr_set_str_len(hp(p), i, t, tn) : dart_arr_set_str_len(p, i, t, tn);
          return ins ? hf ? dart_heap_obj_insert_str_len(hp(p), k_, n_, t, tn) : dart_obj_insert_str_len(p, k_, n_, t, tn) : hf ? dart_heap_obj_set_str_len(hp(p), k_, n_, t, tn) : dart_obj_set_str_len(p, k_, n_, t, tn); }); break; }
        default: {
          Hd c = make(v, pool[at].fam); dart_destroy(c.p); // the counter type has to agree
          c.rc = pool[at].rc; free(c.p); c = make_rc(v, pool[at].fam, c.rc);
          void* q = c.p; pool.push_back(c);
          run(what, nullptr, false, [&]() -> int {
            if (arr) return ins ? hf ? dart_heap_arr_insert_heap(hp(p), i, hp(q)) : dart_arr_insert_dart(p, i, q) : hf ? dart_heap_arr_set_heap(hp(p), i, hp(q)) : dart_arr_set_dart(p, i, q);
            return ins ? hf ? dart_heap_obj_insert_heap_len(hp(p), k_, n_, hp(q)) : dart_obj_insert_dart_len(p, k_, n_, q) : hf ? dart_heap_obj_set_heap_len(hp(p), k_, n_, hp(q)) : dart_obj_set_dart_len(p, k_, n_, q); });
          pool.pop_back(); dart_destroy(q); free(q); }
      }
      auto& m = pool[at].m;
      if (!arr) m.o[k] = v; else if (ins) m.a.insert(m.a.begin() + i, v); else m.a[i] = v;
    }
    Hd make_rc(Val const& v, int fam, dart_rc_type_t rc) { // without faults
      Hd h {malloc(capi::famsize(fam)), fam, rc, v, false};
      std::string t; // build through the generic functions
      dart_packet_t q;
      switch (v.t) {
        case Val::Obj: CHECK(!dart_obj_init_rc_err(&q, rc), "obj_init"); for (auto& e : v.o) { auto c = make_rc(e.second, DART_PACKET, rc); CHECK(!dart_obj_insert_dart_len(&q, e.first.data(), e.first.size(), c.p), "insert"); dart_destroy(c.p); free(c.p); } break;
        case Val::Arr: CHECK(!dart_arr_init_rc_err(&q, rc), "arr_init"); for (size_t i = 0; i < v.a.size(); i++) { auto c = make_rc(v.a[i], DART_PACKET, rc); CHECK(!dart_arr_insert_dart(&q, i, c.p), "insert"); dart_destroy(c.p); free(c.p); } break;
        case Val::Str: CHECK(!dart_str_init_rc_len_err(&q, rc, v.s.data(), v.s.size()), "str_init"); break;
        case Val::Int: CHECK(!dart_int_init_rc_err(&q, rc, v.i), "int_init"); break;
        case Val::Dec: CHECK(!dart_dcm_init_rc_err(&q, rc, v.d), "dcm_init"); break;
        case Val::Bool: CHECK(!dart_bool_init_rc_err(&q, rc, v.b), "bool_init"); break;
        default: CHECK(!dart_init_rc_err(&q, rc), "init");
      }
      if (fam == DART_HEAP) { CHECK(!dart_to_heap_err(hp(h.p), &q), "to_heap"); dart_destroy(&q); }
      else memcpy(h.p, &q, sizeof q);
      return h;
    }

    void mutate() {
      std::vector<size_t> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i].fam != DART_BUFFER && !pool[i].fin && pool[i].m.is_agg()) c.push_back(i);
      if (c.empty()) { add(); return; }
      size_t at = s.pick(c); auto& h = pool[at]; void* p = h.p; bool hf = h.fam == DART_HEAP && s.flip(); auto& m = h.m; size_t n = m.size();
      if (m.t == Val::Obj) {
        auto ks = keys_of(m); std::string e = ks.empty() ? "" : s.pick(ks), k = gen_key(s, o, ks);
        if (k.find('\0') != std::string::npos) return;
        switch (s.draw(6)) {
          case 0: case 1: case 2: put(at, k, 0, small(), true); break;
          case 3: if (n) put(at, e, 0, small(), false); break;
          case 4: if (!n) break; run("obj_erase", nullptr, false, [&]() -> int { return hf ? dart_heap_obj_erase_len(hp(p), e.data(), e.size()) : dart_obj_erase_len(p, e.data(), e.size()); }); m.o.erase(e); break;
          default: run("obj_clear", nullptr, false, [&]() -> int { return hf ? dart_heap_obj_clear(hp(p)) : dart_obj_clear(p); }); m.o.clear();
        }
      } else switch (s.draw(8)) {
        case 0: case 1: case 2: put(at, "", s.draw(n + 1), small(), true); break;
        case 3: if (n) put(at, "", s.draw(n), small(), false); break;
        case 4: { if (!n) break; size_t i = s.draw(n); run("arr_erase", nullptr, false, [&]() -> int { return hf ? dart_heap_arr_erase(hp(p), i) : dart_arr_erase(p, i); }); m.a.erase(m.a.begin() + i); break; }
        case 5: run("arr_clear", nullptr, false, [&]() -> int { return hf ? dart_heap_arr_clear(hp(p)) : dart_arr_clear(p); }); m.a.clear(); break;
        case 6: { size_t i = s.draw(12); run("arr_resize", nullptr, false, [&]() -> int { return hf ? dart_heap_arr_resize(hp(p), i) : dart_arr_resize(p, i); }); m.a.resize(i); break; }
        default: { size_t i = s.draw(50); run("arr_reserve", nullptr, false, [&]() -> int { return hf ? dart_heap_arr_reserve(hp(p), i) : dart_arr_reserve(p, i); }); }
      }
      s.label("C: change");
    }
    void add() {
      Val v = s.draw(4) ? s.flip() ? gen_obj(s, o) : gen_arr(s, o) : gen_val(s, o);
      keep(make(v, s.flip() ? DART_HEAP : DART_PACKET)); s.label("C: build");
    }
    void derive() {
      if (pool.empty()) { add(); return; }
      auto& h = pool[s.draw(pool.size())]; void* p = h.p; bool obj = h.m.t == Val::Obj; s.label("C: derive");
      int kind = s.draw(8);
      if (kind < 2) { // copy
        Hd g = fresh(h.fam); g.m = h.m; g.fin = h.fin; g.rc = h.rc; run("copy", nullptr, false, [&]() -> int { return dart_copy_err(g.p, p); }); keep(g);
      } else if (kind == 2 && (obj || h.fin)) { Hd g = fresh(DART_BUFFER); g.m = h.m; g.fin = true; g.rc = h.rc; run("to_buffer", nullptr, false, [&]() -> int { return dart_to_buffer_err(bp(g.p), p); }); keep(g);
      } else if (kind == 3) { Hd g = fresh(DART_HEAP); g.m = h.m; g.fin = false; g.rc = h.rc; run("to_heap", nullptr, false, [&]() -> int { return dart_to_heap_err(hp(g.p), p); }); keep(g);
      } else if (kind == 4 && obj && h.fam != DART_BUFFER) { Hd g = fresh(DART_PACKET); g.m = h.m; g.fin = true; g.rc = h.rc; run("finalize", nullptr, false, [&]() -> int { return dart_finalize_err(qp(g.p), p); }); keep(g);
      } else if (kind == 5) { Hd g = fresh(DART_PACKET); g.m = h.m; g.fin = false; g.rc = h.rc; run("lift", nullptr, false, [&]() -> int { return dart_lift_err(qp(g.p), p); }); keep(g);
      } else if (obj && h.m.size()) { auto k = s.pick(keys_of(h.m)); Hd g = fresh(DART_PACKET); g.m = h.m.o[k]; g.fin = h.fin; g.rc = h.rc; run("obj_get", nullptr, false, [&]() -> int { return dart_obj_get_len_err(qp(g.p), p, k.data(), k.size()); }); keep(g);
      } else if (h.m.t == Val::Arr && h.m.size()) { size_t i = s.draw(h.m.size()); Hd g = fresh(DART_PACKET); g.m = h.m.a[i]; g.fin = h.fin; g.rc = h.rc; run("arr_get", nullptr, false, [&]() -> int { return dart_arr_get_err(qp(g.p), p, i); }); keep(g); }
      for (auto& x : pool) x.fin = dart_is_finalized(x.p);
    }
    void parse() {
      Val v = gen_obj(s, o); auto t = json_write(v, &s); Val w; std::string err; if (!json_parse(t, w, err) || t.find('\0') != std::string::npos) return;
      NOTE(t); Hd h = fresh(s.pick(std::vector<int> {DART_HEAP, DART_BUFFER, DART_PACKET})); Text x (t, false);
      run("from_json", h.p, true, [&]() -> int { return h.fam == DART_HEAP ? dart_heap_from_json_len_rc_err(hp(h.p), h.rc, x.p, x.n) : h.fam == DART_BUFFER ? dart_buffer_from_json_len_rc_err(bp(h.p), h.rc, x.p, x.n) : dart_from_json_len_rc_err(qp(h.p), h.rc, x.p, x.n); });
      h.m = capi::read(h.p); h.fin = dart_is_finalized(h.p); CHECK(near(h.m, w, 8), "from_json: " + diff(h.m, w)); keep(h); s.label("C: from_json");
    }
    void format() {
      Hd h = fresh(s.flip() ? DART_HEAP : DART_PACKET); bool hf = h.fam == DART_HEAP; auto rc = h.rc; void* p = h.p;
      if (s.flip()) {
        run("obj_init_va", p, true, [&]() -> int { return hf ? dart_heap_obj_init_va_rc_err(hp(p), rc, "sidSas,", "a string", "a string of more than fifteen bytes", "i", 5, "d", 2.5, "S", "counted text", (size_t)12, "an array inside", "and some more text in there")
          : dart_obj_init_va_rc_err(qp(p), rc, "sidSas,", "a string", "a string of more than fifteen bytes", "i", 5, "d", 2.5, "S", "counted text", (size_t)12, "an array inside", "and some more text in there"); });
        h.m = capi::read(p); CHECK(h.m.t == Val::Obj && h.m.size() == 5, "the formatted object: " + show(h.m));
      } else {
        run("arr_init_va", p, true, [&]() -> int { return hf ? dart_heap_arr_init_va_rc_err(hp(p), rc, "sas,oi,d", "a string of more than fifteen bytes", "and another one inside an array", "key of an object inside", 3, 1.5)
          : dart_arr_init_va_rc_err(qp(p), rc, "sas,oi,d", "a string of more than fifteen bytes", "and another one inside an array", "key of an object inside", 3, 1.5); });
        h.m = capi::read(p); CHECK(h.m.t == Val::Arr && h.m.size() == 4, "the formatted array: " + show(h.m));
      }
      keep(h); s.label("C: format");
    }
    void reading() {
      if (pool.empty()) return;
      auto& h = pool[s.draw(pool.size())]; void* p = h.p; s.label("C: reading");
      switch (s.draw(5)) {
        case 0: if (h.m.is_agg()) {
          dart_iterator_t it; bool keys = h.m.t == Val::Obj && s.flip();
          run("iterator_init", nullptr, false, [&]() -> int { return keys ? dart_iterator_init_key_from_err(&it, p) : dart_iterator_init_from_err(&it, p); });
          size_t n = 0;
          while (!dart_iterator_done(&it)) {
            dart_packet_t v; run("iterator_get", nullptr, false, [&]() -> int { return dart_iterator_get_err(&v, &it); }); n++; dart_destroy(&v);
            if (!s.draw(4)) { dart_iterator_t c; run("iterator_copy", nullptr, false, [&]() -> int { return dart_iterator_copy_err(&c, &it); }); dart_iterator_destroy(&c); }
            run("iterator_next", nullptr, false, [&]() -> int { return dart_iterator_next(&it); });
          }
          CHECK(n == h.m.size(), "an iterator finds everything"); dart_iterator_destroy(&it); break; }
        // fallthrough
        case 1: case 2: { if (!dl::json_safe(h.m)) break;
          size_t len = 0; char* t = dart_to_json(p, &len); CHECK(t, "to_json"); std::string want (t, len); free(t);
          NOTE("to_json");
          auto tj = [&] { return h.fam == DART_HEAP && s.flip() ? dart_heap_to_json(hp(p), &len) : h.fam == DART_BUFFER && s.flip() ? dart_buffer_to_json(bp(p), &len) : dart_to_json(p, &len); };
          if (len > 20 && len < 200) { eng::fault_malloc(len + 1); char* u = tj(); if (!eng::fault_malloc_pending()) { st.faults++; CHECK(!u, "to_json without memory for the text gives NULL"); } else free(u); eng::fault_malloc(0); }
          for (u64 n = 1; ; n++) { len = 0; eng::fault_arm(n, st.all); char* u = tj(); eng::fault_disarm(); if (u) { CHECK(std::string(u, len) == want, "to_json"); free(u); } if (!eng::fault_hit()) { CHECK(u, "to_json failed without a fault"); break; } st.faults++; CHECK(!u || n, "to_json"); if (n > 2000) break; }
          break; }
        case 3: { if (!h.fin || h.m.t != Val::Obj) break; size_t len = 0; std::string want ((char const*)dart_get_bytes(p, &len), len); len = 0; want.assign((char const*)dart_get_bytes(p, &len), len); len = 0; auto* b0 = (char const*)dart_get_bytes(p, &len); want.assign(b0, len);
          for (u64 n = 1; ; n++) { eng::fault_arm(n, st.all); void* b = dart_dup_bytes(p, &len); eng::fault_disarm(); if (b) { CHECK(len == want.size() && !memcmp(b, want.data(), len), "dup_bytes"); dart_aligned_free(b); } if (!eng::fault_hit()) { CHECK(b, "dup_bytes failed without a fault"); break; } st.faults++; }
          if (pool.size() < 6) {
            void* b = dart_dup_bytes(p, &len); Hd g = fresh(s.flip() ? DART_BUFFER : DART_PACKET); g.fin = true; g.m = h.m;
            run("from_bytes", g.p, true, [&]() -> int { return g.fam == DART_BUFFER ? dart_buffer_from_bytes_rc_err(bp(g.p), g.rc, b, len) : dart_from_bytes_rc_err(qp(g.p), g.rc, b, len); });
            dart_aligned_free(b); keep(g);
          }
          break; }
        default: { auto& w = pool[s.draw(pool.size())]; bool want = w.m == h.m; // an error reads as unequal
          for (u64 n = 1; n < 400; n++) { eng::fault_arm(n, st.all); int e = dart_equal(p, w.p); eng::fault_disarm(); if (!eng::fault_hit()) { if (w.rc == h.rc) CHECK(!e == !want, "equal"); break; } st.faults++; CHECK(want || !e, "different values equal"); } }
      }
    }
    void take() { // the interface's moves must not lose what they move
      std::vector<size_t> c; for (size_t i = 0; i < pool.size(); i++) if (pool[i].fam != DART_BUFFER && !pool[i].fin && pool[i].m.t == Val::Obj) c.push_back(i);
      if (c.empty()) return; size_t at = s.pick(c);
      Hd v = make_rc(small(), pool[at].fam, pool[at].rc); pool.push_back(v); void* q = v.p; void* p = pool[at].p;
      bool hf = v.fam == DART_HEAP; std::string k = "key " + std::to_string(s.draw(5));
      // the interface promises to keep what it could not insert
      NOTE("take"); st.ops++;
      for (u64 n = 1; ; n++) {
        eng::fault_arm(n, st.all); int e = hf ? dart_heap_obj_insert_take_heap_len(hp(p), k.data(), k.size(), hp(q)) : dart_obj_insert_take_dart_len(p, k.data(), k.size(), q); eng::fault_disarm();
        if (!e) { if (eng::fault_hit()) st.faults++; break; }
        CHECK(eng::fault_hit(), "take failed without a fault"); st.faults++; verify("take with allocation " + std::to_string(n) + " failing");
      }
      pool[at].m.o[k] = v.m; CHECK(capi::read(q).t == Val::Null, "what was taken is null"); pool.pop_back(); dart_destroy(q); free(q); s.label("C: take");
    }
    void finish() { for (auto& h : pool) { CHECK(!dart_destroy(h.p), "destroy"); free(h.p); } pool.clear(); }
  };
}

static void history_c(Src& s, Opt const& o) {
  C w {s, o}; w.st.all = s.flip();
  int n = 2 + s.draw(7); w.add(); w.verify("building");
  for (int i = 0; i < n; i++) {
    switch (s.weigh({2, 6, 4, 2, 1, 4, 1})) { case 0: w.add(); break; case 1: w.mutate(); break; case 2: w.derive(); break; case 3: w.parse(); break; case 4: w.format(); break; case 5: w.reading(); break; default: w.take(); }
    w.verify("the step");
  }
  w.finish();
  if (w.st.faults >= 3) s.nontrivial();
}

void d24::run_c(Src& s, Opt const& o) {
  static bool warm = [] { // the message buffer of a thread grows once
    dart_heap_t n; std::string t = "{\"" + std::string(400, 'x'); (void)dart_heap_from_json_err(&n, t.c_str()); return true; }(); (void)warm;
  if (s.draw(3)) history_c(s, o);
  else std::thread([&] { history_c(s, o); }).join(); // one that has not reported anything yet
}
