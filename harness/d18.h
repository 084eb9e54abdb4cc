// D18: threads with handles of their own to shared documents.
#pragma once
#include "ops.h"
#include "codec.h"
#include <atomic>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>

namespace d18 {
  using namespace dl;
  struct Step { unsigned op; u64 seed; unsigned spin; };
  using Prog = std::vector<Step>;
  enum { NOPS = 18 };
  inline char const* opname(unsigned o) {
    static char const* const n[] = {"read", "copy", "take a part", "iterate", "change", "change", "finalize or lift", "destroy", "compare", "bytes", "typed", "convert", "build", "parse", "assign", "to JSON", "hand over", "take over"};
    return n[o];
  }
  // The threads start together.
  inline void together(std::vector<std::function<void ()>> fs) {
    std::atomic<int> wait {(int)fs.size()};
    std::vector<std::thread> ts;
    for (auto& f : fs) ts.emplace_back([&wait, &f] { wait.fetch_sub(1, std::memory_order_relaxed); while (wait.load(std::memory_order_relaxed) > 0) {} f(); f = nullptr; });
    for (auto& t : ts) t.join();
  }
  inline void spin(unsigned n) { for (unsigned i = 0; i < n; i++) asm volatile("" ::: "memory"); }

  template <template <class> class RC>
  struct Thread {
    using P = dart::basic_packet<RC>; using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using V = typename P::view;
    using PO = typename P::object; using PA = typename P::array; using Bytes = RC<gsl::byte const>;
    struct Doc { P p; Val m; };
    struct Post { std::mutex mx; std::deque<Doc> q; };
    std::vector<Doc> ds; Post& post; Opt o;
    Thread(Post& post, Opt o) : post(post), o(o) {}

    static void same(P const& p, Val const& m, char const* what) { Val g = extract(p); CHECK(g == m, std::string("in a thread, ") + what + ": " + diff(g, m)); }
    Doc& any(Src& s) { return ds[s.draw(ds.size())]; }
    void add(Src& s, Doc d) { if (ds.size() < 6) ds.push_back(std::move(d)); else ds[s.draw(ds.size())] = std::move(d); }
    static H mkh(Val const& v) {
      switch (v.t) {
        case Val::Obj: { auto o = H::make_object(); for (auto& p : v.o) o.add_field(sv(p.first), mkh(p.second)); return o; }
        case Val::Arr: { auto a = H::make_array(); for (auto& x : v.a) a.push_back(mkh(x)); return a; }
        case Val::Str: return H::make_string(sv(v.s));
        case Val::Int: return H::make_integer(v.i);
        case Val::Dec: return H::make_decimal(v.d);
        case Val::Bool: return H::make_boolean(v.b);
        default: return H::make_null();
      }
    }
    static P mkp(Val const& v, bool fin) { if (fin && v.t == Val::Obj) return B {mkh(v)}; return mkh(v); }

    void step(Step const& st) {
      Src s; s.side = true; s.gen = true; s.rng = st.seed;
      spin(st.spin);
      if (ds.empty() && st.op != 12 && st.op != 17) return;
      switch (st.op) {
        case 0: { auto& d = any(s); same(d.p, d.m, "reading"); break; }
        case 1: { Doc d = any(s); add(s, std::move(d)); break; }
        case 2: { auto& d = any(s); if (!d.m.size() || !d.m.is_agg()) break; size_t i = s.draw(d.m.size()); Doc r;
          if (d.m.t == Val::Obj) { auto it = d.m.o.begin(); std::advance(it, i); r.m = it->second; switch (s.draw(3)) { case 0: r.p = d.p[sv(it->first)]; break; case 1: r.p = d.p.at(sv(it->first)); break; default: { V v = d.p; r.p = v.get(sv(it->first)).as_owner(); } } }
          else { r.m = d.m.a[i]; if (s.flip()) r.p = d.p[i]; else { auto vs = d.p.values(); r.p = vs[i]; } }
          same(r.p, r.m, "a part"); add(s, std::move(r)); break; }
        case 3: { auto& d = any(s); if (!d.m.is_agg()) break; size_t n = 0; if (s.flip()) { for (auto x : d.p) { (void)x.get_type(); n++; } } else { auto e = d.p.rend(); for (auto it = d.p.rbegin(); it != e; ++it) { auto x = *it; (void)x.is_str(); n++; } }
          CHECK(n == d.m.size(), "in a thread, iterating"); if (d.m.t == Val::Obj) { auto ks = d.p.keys(); CHECK(ks.size() == n, "in a thread, keys"); } break; }
        case 4: case 5: { auto& d = any(s); if (d.p.is_finalized() || !d.m.is_agg()) break;
          auto value = [&] () -> std::pair<P, Val> { if (s.draw(3)) { auto& e = any(s); P p = e.p.is_finalized() ? P {H {e.p}} : e.p; return {std::move(p), e.m}; } Val v = gen_scalar(s, o); return {mkp(v, false), v}; };
          if (d.m.nodes() > 200) { d.p.clear(); d.m.a.clear(); d.m.o.clear(); break; }
          mutate_doc(s, d.p, d.m, o, value); same(d.p, d.m, "changing"); break; }
        case 6: { auto& d = any(s); if (d.p.is_finalized()) d.p.lift(); else if (d.m.t == Val::Obj) d.p.finalize(); same(d.p, d.m, "finalizing or lifting"); break; }
        case 7: ds.erase(ds.begin() + s.draw(ds.size())); break;
        case 8: { auto& a = any(s); auto& b = any(s); bool eq = a.p == b.p; if (&a == &b) CHECK(eq, "in a thread, a document equals itself"); if (a.m == b.m && a.p.is_finalized() == b.p.is_finalized()) CHECK(eq, "in a thread, equal documents compare equal"); break; }
        case 9: { auto& d = any(s); if (!d.p.is_finalized() || d.m.t != Val::Obj) break;
          switch (s.draw(3)) { case 0: { Bytes b {nullptr}; d.p.share_bytes(b); B whole {b}; (void)extract(whole); break; } case 1: { auto b = d.p.get_bytes(); CHECK(dart::is_valid(b), "in a thread, bytes are valid"); break; } default: { size_t n = 0; auto b = d.p.dup_bytes(n); B c {std::move(b)}; P q {c}; same(q, d.m, "duplicated bytes"); } } break; }
        case 10: { auto& d = any(s); if (d.m.t == Val::Obj) { PO h {d.p}; h = h; PO g {std::move(h)}; d.p = P {g}; } else if (d.m.t == Val::Arr) { PA h {d.p}; d.p = P {PA {std::move(h)}}; } break; }
        case 11: { auto& d = any(s); if (d.m.t != Val::Obj) break; if (s.flip()) { H h {d.p}; P q {h}; same(q, d.m, "as mutable"); } else { B b {d.p}; P q {b}; same(q, d.m, "as immutable"); } break; }
        case 12: { Val v = gen_val(s, o); add(s, Doc {mkp(v, s.flip()), v}); break; }
        case 13: { Opt q = o; q.bytes = q.nul = false; Val v = gen_obj(s, q), w; std::string err, t = json_write(v, nullptr); if (!json_parse(t, w, err)) break; P p = P::from_json(t, s.flip()); Val g = extract(p); CHECK(near(g, w, 8), "in a thread, parsing"); add(s, Doc {std::move(p), g}); break; }
        case 14: { auto& a = any(s); auto& b = any(s); if (s.flip()) { a.p = b.p; Val m = b.m; a.m = m; } else if (&a != &b) { std::swap(a.p, b.p); std::swap(a.m, b.m); } break; }
        case 15: { auto& d = any(s); if (!json_safe(d.m) || !d.m.is_agg()) break; auto t = d.p.to_json(); CHECK(t.size() >= 2, "in a thread, JSON"); break; }
        case 16: { size_t i = s.draw(ds.size()); Doc d = std::move(ds[i]); ds.erase(ds.begin() + i); std::lock_guard<std::mutex> g {post.mx}; post.q.push_back(std::move(d)); break; }
        default: { Doc d; { std::lock_guard<std::mutex> g {post.mx}; if (post.q.empty()) break; d = std::move(post.q.front()); post.q.pop_front(); } same(d.p, d.m, "handed over"); add(s, std::move(d)); }
      }
    }
  };

  template <template <class> class RC>
  void history(Src& s, Opt const& o) {
    using T = Thread<RC>; using P = typename T::P; using B = typename T::B;
    int n = 2 + s.draw(3); std::atomic<int> freed {0}; bool watch = false; int conflicts = 0;
    {
      typename T::Post post; std::vector<typename T::Doc> docs; int nd = 1 + s.draw(2);
      for (int i = 0; i < nd; i++) {
        bool fin = s.flip(); Val v = fin || s.draw(3) ? gen_obj(s, o) : gen_arr(s, o); NOTE("document " + show(v, 200) + (fin ? " finalized" : ""));
        if (fin && !watch && s.flip()) {
          auto b = codec::encode(v); void* q = nullptr; if (posix_memalign(&q, 8, b.size())) abort(); memcpy(q, b.data(), b.size()); watch = true;
          docs.push_back({P {B {typename T::Bytes {(gsl::byte const*)q, [&freed] (gsl::byte const* p) { freed++; free((void*)p); }}}}, v}); s.label("bytes given to the library");
        } else docs.push_back({T::mkp(v, fin), v});
        s.label(fin ? "shared immutable document" : "shared mutable document");
      }
      std::vector<T> ts; std::vector<Prog> ps (n);
      for (int i = 0; i < n; i++) {
        ts.emplace_back(post, o); for (auto& d : docs) ts.back().ds.push_back(d);
        int k = 1 + s.draw(14); std::string line = "thread " + std::to_string(i) + ":";
        for (int j = 0; j < k; j++) { Step st {(unsigned)s.weigh({3, 2, 4, 2, 4, 4, 2, 4, 2, 1, 1, 1, 1, 1, 2, 1, 2, 2}), s.draw(1000), (unsigned)s.draw(8) * 150}; ps[i].push_back(st); line += std::string(" ") + opname(st.op) + ","; if (st.op >= 4 && st.op <= 7) conflicts++; s.label(opname(st.op)); }
        NOTE(line);
      }
      bool keep = s.draw(4) == 3; // the first owner keeps its handles or lets go before the threads start
      if (!keep) docs.clear(); else s.label("the creator keeps its handles");
      std::vector<std::function<void ()>> fs;
      for (int i = 0; i < n; i++) fs.push_back([&t = ts[i], &p = ps[i]] { for (auto& st : p) t.step(st); for (auto& d : t.ds) T::same(d.p, d.m, "at the end"); t.ds.clear(); });
      together(std::move(fs));
      for (auto& d : docs) T::same(d.p, d.m, "the creator's handle");
      for (auto& d : post.q) T::same(d.p, d.m, "a handle in between");
      if (keep && !docs.empty()) CHECK(freed == 0, "bytes are not released while owned");
    }
    if (watch) CHECK(freed == 1, "bytes given to the library are released " + std::to_string(freed.load()) + " times");
    if (conflicts >= 2) s.nontrivial();
  }
  void run_skinny(Src& s, Opt const& o);
  void run_c(Src& s, Opt const& o);
}
