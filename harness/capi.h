// A model-based driver of the C interface: a pool of handles of every family and counter type, each
// paired with its model value, and every exported function with its expected outcome.
#pragma once
#include <dart/abi.h>
#include "codec.h"
#include <cmath>
#include <climits>

namespace capi {
  using namespace mdl;
  enum { ANY = 100 };                     // some error, class not determined

  struct H {                              // one live handle, in a heap block of its exact size
    void* p = nullptr;
    int fam = 0; dart_rc_type_t rc = DART_RC_SAFE;
    Val m; bool fin = false;
    dart_heap_t* h() { return (dart_heap_t*)p; }
    dart_buffer_t* b() { return (dart_buffer_t*)p; }
    dart_packet_t* q() { return (dart_packet_t*)p; }
  };
  inline size_t famsize(int fam) { return fam == DART_HEAP ? sizeof(dart_heap_t) : fam == DART_BUFFER ? sizeof(dart_buffer_t) : sizeof(dart_packet_t); }
  inline char const* famname(int fam) { return fam == DART_HEAP ? "heap" : fam == DART_BUFFER ? "buffer" : "packet"; }

  // Strings of exact length on the heap, so that reading past them is caught.
  struct Text {
    char* p; size_t n;
    Text(std::string const& s, bool term) : p((char*)malloc(s.size() + term)), n(s.size()) { memcpy(p, s.data(), n); if (term) p[n] = 0; }
    ~Text() { free(p); }
    Text(Text const&) = delete;
  };
  inline bool nonul(std::string const& s) { return s.find('\0') == std::string::npos; }

  extern thread_local u64 tick;                        // alternates between equivalent functions when reading
  Val read(void const* p);                // through the C interface only
  dart_type_t ctype(Val::T t);
  inline int fam_of(void const* p) { return ((dart_type_id_t const*)p)->p_id; }
  std::string msg();

  struct World {
    Src& s; int bad; Opt o;
    std::vector<H> pool;
    unsigned errors = 0, oks = 0;
    World(Src& s, int bad) : s(s), bad(bad) { o.depth = 3; o.negzero = false; o.width = 5; o.wide = false; o.big = s.draw(6) == 5; o.bytes = s.flip(); }

    H fresh(int fam, dart_rc_type_t rc) { H h; h.fam = fam; h.rc = rc; h.p = malloc(famsize(fam)); return h; }
    void drop(H& h); // destroys and frees
    void add(H h) { pool.push_back(std::move(h)); }
    H& any() { return pool[s.draw(pool.size())]; }
    H* some(bool (*f)(H const&)) { std::vector<H*> v; for (auto& h : pool) if (f(h)) v.push_back(&h); return v.empty() ? nullptr : v[s.draw(v.size())]; }
    void verify(H& h, std::string const& after);
    void verify_all(std::string const& after) { for (auto& h : pool) verify(h, after); }
    // Judges a return code. want: 0, a specific code or ANY.
    void judge(dart_err_t got, int want, std::string const& call);
    void sentinel(bool parse);            // leaves a known message behind
    std::string mark;

    void build(Val const& v, H& h);       // one handle holding v, by random calls
    void make_bytes(H& d, std::string const& bytes, std::string const& what);
    void put(H& h, bool arr, bool insert, std::string const& key, size_t idx, Val const& v, int want);
    void construct();
    void format();
    void mutate();
    void reading();
    void iterate();
    void lifecycle();
    void transition();
    void bytes();
    void json();
    void equality();
    void bad_inputs();
    void step();
    void finish();
  };
}
