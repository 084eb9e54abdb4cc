// The library's own support types next to the standard ones. Compiled as C++17 (for the standard
// types) with the library told to use the types it bundles.
#pragma once
#include <dart.h>
#include <string_view>
#include <optional>
#include <variant>
#include <memory>
#include <sstream>
#include <set>
#include "engine.h"
using eng::Src;
#ifdef DART_HAS_CPP17
#error "the bundled types are not in use"
#endif

void d26_sv(Src& s);
void d26_opt(Src& s);
void d26_ptr(Src& s);
void d26_ord(Src& s);
void d26_var(Src& s);
void d26_once();

// A value whose operations may throw, and which notices being used outside its lifetime.
struct Boom {};
struct Trk {
  static std::set<Trk const*>& all() { static std::set<Trk const*> a; return a; }
  static long& fuse() { static long f = 0; return f; } // the nth operation that may throw does
  static bool& moves() { static bool m = false; return m; } // whether moves may throw too
  static void burn() { if (fuse() && --fuse() == 0) throw Boom {}; }
  int v;
  bool moved = false;
  void born() { if (!all().insert(this).second) eng::fail(__FILE__, __LINE__, "lifetime", "an object was constructed over a living one"); }
  void ok() const { if (!all().count(this)) eng::fail(__FILE__, __LINE__, "lifetime", "an object was used outside its lifetime"); }
  Trk() : v(0) { burn(); born(); }
  Trk(int x) : v(x) { burn(); born(); }
  Trk(int x, int y) : v(x * 100 + y) { burn(); born(); }
  Trk(Trk const& o) : v(o.v), moved(o.moved) { o.ok(); burn(); born(); }
  Trk(Trk&& o) : v(o.v), moved(o.moved) { o.ok(); if (moves()) burn(); o.moved = true; o.v = -1; born(); }
  Trk& operator =(Trk const& o) { ok(); o.ok(); burn(); v = o.v; moved = o.moved; return *this; }
  Trk& operator =(Trk&& o) { ok(); o.ok(); if (moves()) burn(); if (this != &o) { v = o.v; moved = o.moved; o.moved = true; o.v = -1; } return *this; }
  Trk& operator =(int x) { ok(); burn(); v = x; moved = false; return *this; }
  ~Trk() { if (!all().erase(this)) eng::fail(__FILE__, __LINE__, "lifetime", "an object was destroyed twice"); }
  friend bool operator ==(Trk const& a, Trk const& b) { return a.v == b.v; }
  friend bool operator !=(Trk const& a, Trk const& b) { return a.v != b.v; }
  friend bool operator <(Trk const& a, Trk const& b) { return a.v < b.v; }
  friend bool operator <=(Trk const& a, Trk const& b) { return a.v <= b.v; }
  friend bool operator >(Trk const& a, Trk const& b) { return a.v > b.v; }
  friend bool operator >=(Trk const& a, Trk const& b) { return a.v >= b.v; }
};
