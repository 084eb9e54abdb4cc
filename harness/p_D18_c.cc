#include "d18.h"
#include "capi.h"
namespace {
  using namespace mdl; using namespace d18;
  struct CH { dart_packet_t p; Val m; };
  void same(CH& c, char const* what) { Val g = capi::read(&c.p); CHECK(g == c.m, std::string("in a thread, C interface, ") + what + ": " + diff(g, c.m)); }
  dart_packet_t make(Val const& v) {
    dart_packet_t q;
    switch (v.t) {
      case Val::Obj: CHECK(!dart_obj_init_err(&q), "obj_init"); for (auto& e : v.o) { auto c = make(e.second); CHECK(!dart_obj_insert_take_dart_len(&q, e.first.data(), e.first.size(), &c), "insert"); dart_destroy(&c); } break;
      case Val::Arr: CHECK(!dart_arr_init_err(&q), "arr_init"); for (size_t i = 0; i < v.a.size(); i++) { auto c = make(v.a[i]); CHECK(!dart_arr_insert_take_dart(&q, i, &c), "insert"); dart_destroy(&c); } break;
      case Val::Str: CHECK(!dart_str_init_len_err(&q, v.s.data(), v.s.size()), "str_init"); break;
      case Val::Int: CHECK(!dart_int_init_err(&q, v.i), "int_init"); break;
      case Val::Dec: CHECK(!dart_dcm_init_err(&q, v.d), "dcm_init"); break;
      case Val::Bool: CHECK(!dart_bool_init_err(&q, v.b), "bool_init"); break;
      default: CHECK(!dart_init_err(&q), "init");
    }
    return q;
  }
  struct CT {
    std::vector<CH> ds; Opt o;
    void drop(size_t i) { CHECK(!dart_destroy(&ds[i].p), "destroy"); ds.erase(ds.begin() + i); }
    void add(Src& s, CH c) { if (ds.size() >= 6) drop(s.draw(ds.size())); ds.push_back(std::move(c)); }
    void step(Step const& st) {
      Src s; s.side = true; s.gen = true; s.rng = st.seed; spin(st.spin);
      if (ds.empty()) return;
      size_t i = s.draw(ds.size()); auto& d = ds[i]; CH r;
      switch (st.op) {
        case 0: same(d, "reading"); break;
        case 1: CHECK(!dart_copy_err(&r.p, &d.p), "copy"); r.m = d.m; add(s, r); break;
        case 2: { if (!d.m.is_agg() || !d.m.size()) break; size_t k = s.draw(d.m.size());
          if (d.m.t == Val::Obj) { auto it = d.m.o.begin(); std::advance(it, k); CHECK(!dart_obj_get_len_err(&r.p, &d.p, it->first.data(), it->first.size()), "obj_get"); r.m = it->second; } else { CHECK(!dart_arr_get_err(&r.p, &d.p, k), "arr_get"); r.m = d.m.a[k]; }
          same(r, "a part"); add(s, r); break; }
        case 3: { if (!d.m.is_agg()) break; dart_iterator_t it; CHECK(!dart_iterator_init_from_err(&it, &d.p), "iterator"); size_t n = 0; while (!dart_iterator_done(&it)) { dart_packet_t v; CHECK(!dart_iterator_get_err(&v, &it), "get"); dart_destroy(&v); dart_iterator_next(&it); n++; } dart_iterator_destroy(&it); CHECK(n == d.m.size(), "in a thread, C interface, iterating"); break; }
        case 4: case 5: case 10: { if (!d.m.is_agg() || dart_is_finalized(&d.p)) break;
          if (d.m.nodes() > 200 || !s.draw(6)) { if (d.m.t == Val::Obj) { CHECK(!dart_obj_clear(&d.p), "clear"); d.m.o.clear(); } else { CHECK(!dart_arr_clear(&d.p), "clear"); d.m.a.clear(); } break; }
          auto& e = ds[s.draw(ds.size())]; Val em = e.m; 
          if (d.m.t == Val::Obj) { auto k = gen_key(s, o, keys_of(d.m)); if (k.size() > 60000) break; if (s.flip()) { CHECK(!dart_obj_insert_dart_len(&d.p, k.data(), k.size(), &e.p), "insert"); d.m.o[k] = em; } else if (d.m.size()) { auto j = s.pick(keys_of(d.m)); CHECK(!dart_obj_erase_len(&d.p, j.data(), j.size()), "erase"); d.m.o.erase(j); } }
          else if (s.flip()) { size_t k = s.draw(d.m.size() + 1); CHECK(!dart_arr_insert_dart(&d.p, k, &e.p), "insert"); d.m.a.insert(d.m.a.begin() + k, em); } else if (d.m.size()) { size_t k = s.draw(d.m.size()); CHECK(!dart_arr_erase(&d.p, k), "erase"); d.m.a.erase(d.m.a.begin() + k); }
          same(d, "changing"); break; }
        case 6: case 11: { if (dart_is_finalized(&d.p)) CHECK(!dart_lift_err(&r.p, &d.p), "lift"); else if (d.m.t == Val::Obj) CHECK(!dart_finalize_err(&r.p, &d.p), "finalize"); else break; r.m = d.m; same(r, "finalizing or lifting"); add(s, r); break; }
        case 7: case 16: drop(i); break;
        case 8: case 14: { auto& e = ds[s.draw(ds.size())]; int eq = dart_equal(&d.p, &e.p); if (&d == &e) CHECK(eq, "in a thread, C interface, equality"); break; }
        case 9: { if (!dart_is_finalized(&d.p) || d.m.t != Val::Obj) break; size_t n = 0; void* b = dart_dup_bytes(&d.p, &n); CHECK(b, "dup_bytes"); CHECK(!dart_from_bytes_err(&r.p, b, n), "from_bytes"); dart_aligned_free(b); r.m = d.m; same(r, "duplicated bytes"); add(s, r); break; }
        case 12: { r.m = gen_val(s, o); r.p = make(r.m); add(s, r); break; }
        case 13: { Val w; std::string err; Opt q = o; q.bytes = q.nul = false; auto t = json_write(gen_obj(s, q), nullptr); if (!json_parse(t, w, err)) break; CHECK(!dart_from_json_len_err(&r.p, t.data(), t.size()), "from_json"); r.m = capi::read(&r.p); CHECK(near(r.m, w, 8), "in a thread, C interface, parsing"); add(s, r); break; }
        case 15: { size_t n; char* t = dart_to_json(&d.p, &n); if (dl::json_safe(d.m) && d.m.is_agg()) CHECK(t, "to_json"); free(t); break; }
        default: { dart_packet_t x; auto* bad = "[1, 2"; int e = dart_from_json_err(&x, bad); CHECK(e == DART_PARSE_ERROR, "an error"); std::string m = dart_get_error(); CHECK(!m.empty(), "a message"); dart_destroy(&x); }
      }
    }
  };
}
void d18::run_c(Src& s, Opt const& o_) {
  Opt o = o_; o.nul = false; int n = 2 + s.draw(3), conflicts = 0;
  std::vector<CH> docs; std::vector<CT> ts (n); std::vector<Prog> ps (n);
  for (int i = 0, nd = 1 + s.draw(2); i < nd; i++) {
    CH c; c.m = s.flip() ? gen_obj(s, o) : gen_arr(s, o); c.p = make(c.m); NOTE("document " + show(c.m, 200));
    if (c.m.t == Val::Obj && s.flip()) { CH f; f.m = c.m; CHECK(!dart_finalize_err(&f.p, &c.p), "finalize"); dart_destroy(&c.p); c = f; }
    docs.push_back(c);
  }
  for (int i = 0; i < n; i++) {
    ts[i].o = o; for (auto& d : docs) { CH c; CHECK(!dart_copy_err(&c.p, &d.p), "copy"); c.m = d.m; ts[i].ds.push_back(c); }
    std::string line = "thread " + std::to_string(i) + ":";
    for (int j = 0, k = 1 + s.draw(14); j < k; j++) { Step st {(unsigned)s.weigh({3, 2, 4, 2, 4, 4, 2, 4, 2, 1, 1, 1, 1, 1, 2, 1, 2, 2}), s.draw(1000), (unsigned)s.draw(8) * 150}; ps[i].push_back(st); line += std::string(" ") + opname(st.op) + ","; if (st.op >= 4 && st.op <= 7) conflicts++; }
    NOTE(line);
  }
  bool keep = s.draw(4) == 3; if (!keep) { for (auto& d : docs) dart_destroy(&d.p); docs.clear(); }
  std::vector<std::function<void ()>> fs;
  for (int i = 0; i < n; i++) fs.push_back([&t = ts[i], &p = ps[i]] { for (auto& st : p) t.step(st); for (auto& d : t.ds) same(d, "at the end"); while (!t.ds.empty()) t.drop(0); });
  together(std::move(fs));
  for (auto& d : docs) { same(d, "the creator's handle"); dart_destroy(&d.p); }
  if (conflicts >= 2) s.nontrivial();
}
