// Reference document model, generators, reference JSON writer/parser. No dart code here.
#pragma once
#include "engine.h"
#include <map>
#include <memory>
#include <cstring>

namespace mdl {

  using eng::Src;
  using eng::i64;
  using eng::u64;

  // Documented key order: shorter first, then unsigned bytes.
  struct KeyLess {
    bool operator ()(std::string const& a, std::string const& b) const {
      if (a.size() != b.size()) return a.size() < b.size();
      return memcmp(a.data(), b.data(), a.size()) < 0;
    }
  };

  struct Val {
    enum T { Null, Bool, Int, Dec, Str, Arr, Obj };
    using Map = std::map<std::string, Val, KeyLess>;
    T t = Null;
    bool b = false;
    i64 i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> a;
    Map o;

    static Val null() { return Val {}; }
    static Val boolean(bool b) { Val v; v.t = Bool; v.b = b; return v; }
    static Val integer(i64 i) { Val v; v.t = Int; v.i = i; return v; }
    static Val dec(double d) { Val v; v.t = Dec; v.d = d; return v; }
    static Val str(std::string s) { Val v; v.t = Str; v.s = std::move(s); return v; }
    static Val arr(std::vector<Val> a = {}) { Val v; v.t = Arr; v.a = std::move(a); return v; }
    static Val obj(Map o = {}) { Val v; v.t = Obj; v.o = std::move(o); return v; }

    bool is_agg() const { return t == Arr || t == Obj; }
    size_t size() const { return t == Arr ? a.size() : t == Obj ? o.size() : t == Str ? s.size() : 0; }
    Val const* get(std::string const& k) const { auto it = o.find(k); return t == Obj && it != o.end() ? &it->second : nullptr; }
    size_t nodes() const;
    int depth() const;
    u64 hash() const;
  };

  // Same structure, same scalar types, same bits.
  bool operator ==(Val const& x, Val const& y);
  inline bool operator !=(Val const& x, Val const& y) { return !(x == y); }
  // As ==, but decimals may differ by a few units in the last place.
  bool near(Val const& x, Val const& y, int ulps);
  std::string show(Val const& v, size_t max = 400);
  // First difference, for messages.
  std::string diff(Val const& got, Val const& want, std::string path = "$");
  char const* tname(Val::T t);

  struct Opt {
    int depth = 4;          // nesting below the root
    int width = 7;          // usual elements per aggregate
    bool nonfinite = false;
    bool bytes = true;      // strings may hold any bytes (else valid UTF-8)
    bool nul = true;        // strings may contain zero bytes
    bool big = true;        // very long strings now and then
    bool wide = true;       // aggregates of dozens or hundreds of elements now and then
    bool negzero = true;
  };

  i64 gen_int(Src& s);
  double gen_dec(Src& s, Opt const& o = {});
  std::string gen_str(Src& s, Opt const& o = {});
  // A key; drawn so as to collide or nearly collide with the ones given.
  std::string gen_key(Src& s, Opt const& o, std::vector<std::string> const& near);
  Val gen_scalar(Src& s, Opt const& o = {});
  Val gen_val(Src& s, Opt const& o = {});
  Val gen_obj(Src& s, Opt const& o = {});
  Val gen_arr(Src& s, Opt const& o = {});
  // A copy with one edit somewhere (may be the same document if the edit is void).
  Val mutate(Src& s, Val const& v, Opt const& o = {});
  std::vector<std::string> keys_of(Val const& v);
  // Keys that are in, or deceptively close to being in, the object.
  std::string probe_key(Src& s, Val const& v, Opt const& o = {});
  void all_strings(Val const& v, std::vector<std::string>& out);
  void label_val(Src& s, Val const& v);

  // Reference JSON.
  struct JsonStyle { bool ws = false, escapes = false, dups = false, numforms = false, comments = false, trailing = false; };
  std::string json_write(Val const& v, Src* s = nullptr, JsonStyle const& st = {});
  struct JsonInfo { int dups = 0; bool extreme = false; bool long_key = false; int depth = 0; };
  bool json_parse(std::string const& text, Val& out, std::string& err, JsonInfo* info = nullptr);
  std::string json_str(std::string const& s);
}
