// Argument routes: the same value or key handed to the API through different C++ types.
#pragma once
#include "dartlib.h"

namespace dl {

  template <class P> struct conv;
  template <> struct conv<dart::heap> { static dart::heap mk(Val const& v, Src* s = nullptr) { return build_heap(v, s); } };
  template <> struct conv<dart::packet> { static dart::packet mk(Val const& v, Src* s = nullptr) { return build_packet(v, s); } };

  // Calls f with v in one of the native or library types it can be passed as.
  template <class P, class F>
  auto give(Src& s, Val const& v, F&& f) -> decltype(f(P {})) {
    switch (v.t) {
      case Val::Int:
        switch (s.draw(3)) {
          case 0: return f(v.i);
          case 1: if (v.i == (int)v.i) return f((int)v.i); break;
          default: break;
        }
        break;
      case Val::Dec: if (s.flip()) return f(v.d); break;
      case Val::Bool: if (s.flip()) return f(v.b); break;
      case Val::Str:
        switch (s.draw(4)) {
          case 0: return f(v.s);
          case 1: return f(sv(v.s));
          case 2: if (v.s.find('\0') == std::string::npos) return f(v.s.c_str()); break;
          default: break;
        }
        break;
      case Val::Null: if (s.flip()) return f(nullptr); break;
      default: break;
    }
    if (!s.draw(4)) return f(build_subbuffer(v));
    if (!s.draw(6)) return f(build_heap(v));
    auto p = conv<P>::mk(v);
    if (s.flip()) { auto const& cp = p; return f(cp); }
    return f(std::move(p));
  }

  template <class P, class F>
  auto give_key(Src& s, std::string const& k, F&& f) -> decltype(f(P {})) {
    switch (s.draw(5)) {
      case 0: return f(k);
      case 1: return f(sv(k));
      case 2: if (k.find('\0') == std::string::npos) return f(k.c_str()); return f(k);
      case 3: return f(P::make_string(sv(k)));
      default: { typename P::string d {sv(k)}; return f(d); }
    }
  }

  // One random mutation of an aggregate through the public API, mirrored in the model.
  // Returns a description; the value arguments come from val().
  template <class P, class F>
  std::string mutate_doc(Src& s, P& p, Val& m, Opt const& o, F&& val) {
    auto at = [&](size_t k) { auto it = p.begin(); for (size_t j = 0; j < k; j++) ++it; return it; };
    if (m.t == Val::Obj) {
      auto ks = keys_of(m);
      switch (s.weigh({4, 3, 2, 2, 2, 1, 1, 1, 1})) {
        case 0: { auto k = gen_key(s, o, ks); auto v = val(); p.insert(sv(k), v.first); m.o[k] = v.second; return "insert " + eng::quote(k); }
        case 1: { auto k = gen_key(s, o, ks); auto v = val(); p.add_field(sv(k), v.first); m.o[k] = v.second; return "add_field " + eng::quote(k); }
        case 2: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); auto v = val(); p.set(sv(k), v.first); m.o[k] = v.second; return "set " + eng::quote(k); }
        case 3: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); p.erase(sv(k)); m.o.erase(k); return "erase " + eng::quote(k); }
        case 4: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); p.remove_field(sv(k)); m.o.erase(k); return "remove_field " + eng::quote(k); }
        case 5: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); p.erase(p.find(sv(k))); m.o.erase(k); return "erase(position) " + eng::quote(k); }
        case 6: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); auto v = val(); p.set(p.find(sv(k)), v.first); m.o[k] = v.second; return "set(position) " + eng::quote(k); }
        case 7: { if (ks.empty()) return "nothing"; auto k = s.pick(ks); auto v = val(); p.insert(p.find(sv(k)), v.first); m.o[k] = v.second; return "insert(position) " + eng::quote(k); }
        default: p.clear(); m.o.clear(); return "clear";
      }
    }
    if (m.t != Val::Arr) return "nothing";
    size_t n = m.a.size();
    switch (s.weigh({4, 2, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1})) {
      case 0: { auto v = val(); p.push_back(v.first); m.a.push_back(v.second); return "push_back"; }
      case 1: { auto v = val(); p.push_front(v.first); m.a.insert(m.a.begin(), v.second); return "push_front"; }
      case 2: { auto i = s.draw(n + 1); auto v = val(); p.insert(i, v.first); m.a.insert(m.a.begin() + i, v.second); return "insert at " + eng::num(i); }
      case 3: { if (!n) return "nothing"; auto i = s.draw(n); auto v = val(); p.set(i, v.first); m.a[i] = v.second; return "set at " + eng::num(i); }
      case 4: { if (!n) return "nothing"; auto i = s.draw(n); p.erase(i); m.a.erase(m.a.begin() + i); return "erase at " + eng::num(i); }
      case 5: { p.pop_back(); if (n) m.a.pop_back(); return "pop_back"; }
      case 6: { p.pop_front(); if (n) m.a.erase(m.a.begin()); return "pop_front"; }
      case 7: { auto k = s.draw(8); auto v = val(); p.resize(k, v.first); m.a.resize(k, v.second); return "resize " + eng::num(k); }
      case 8: { auto k = s.draw(40); p.reserve(k); return "reserve " + eng::num(k); }
      case 9: { auto i = s.draw(n + 1); auto v = val(); p.insert(at(i), v.first); m.a.insert(m.a.begin() + i, v.second); return "insert(position) " + eng::num(i); }
      case 10: { if (!n) return "nothing"; auto i = s.draw(n); auto v = val(); p.set(at(i), v.first); m.a[i] = v.second; return "set(position) " + eng::num(i); }
      case 11: { if (!n) return "nothing"; auto i = s.draw(n); p.erase(at(i)); m.a.erase(m.a.begin() + i); return "erase(position) " + eng::num(i); }
      default: p.clear(); m.a.clear(); return "clear";
    }
  }
}
