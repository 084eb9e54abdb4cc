#include "dartlib.h"
#include <cmath>

namespace dl {
  template Val extract<dart::heap>(dart::heap const&);
  template Val extract<dart::buffer>(dart::buffer const&);
  template Val extract<dart::packet>(dart::packet const&);

  template <class P>
  static P build(Val const& v, Src* s) {
    switch (v.t) {
      case Val::Null: return P::make_null();
      case Val::Bool: return P::make_boolean(v.b);
      case Val::Int: return P::make_integer(v.i);
      case Val::Dec: return P::make_decimal(v.d);
      case Val::Str: {
        if (s && s->draw(4) == 3) {
          size_t cut = v.s.size() / 2;
          return P::make_string(sv(v.s.substr(0, cut)), sv(v.s.substr(cut)));
        }
        return P::make_string(sv(v.s));
      }
      case Val::Arr: {
        int how = s ? s->draw(4) : 0;
        if (how == 1) {
          std::vector<P> el;
          for (auto& x : v.a) el.push_back(build<P>(x, s));
          return P::make_array(gsl::span<P const>(el.data(), el.size()));
        }
        auto p = P::make_array();
        if (how == 2) for (size_t i = v.a.size(); i-- > 0;) p.push_front(build<P>(v.a[i], s));
        else if (how == 3) for (size_t i = 0; i < v.a.size(); i++) p.insert(i, build<P>(v.a[i], s));
        else for (auto& x : v.a) p.push_back(build<P>(x, s));
        return p;
      }
      default: {
        int how = s ? s->draw(4) : 0;
        std::vector<Val::Map::value_type const*> ps;
        for (auto& x : v.o) ps.push_back(&x);
        if (s && ps.size() > 1) for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[s->draw(i)]);
        if (how == 1) {
          std::vector<P> el;
          for (auto x : ps) { el.push_back(P::make_string(sv(x->first))); el.push_back(build<P>(x->second, s)); }
          return P::make_object(gsl::span<P const>(el.data(), el.size()));
        }
        auto p = P::make_object();
        for (auto x : ps) {
          if (how == 2) p.insert(P::make_string(sv(x->first)), build<P>(x->second, s));
          else if (how == 3) { p.add_field(sv(x->first), 1); p.set(sv(x->first), build<P>(x->second, s)); }
          else p.add_field(sv(x->first), build<P>(x->second, s));
        }
        return p;
      }
    }
  }

  dart::heap build_heap(Val const& v, Src* s) { return build<dart::heap>(v, s); }
  dart::packet build_packet(Val const& v, Src* s) { return build<dart::packet>(v, s); }

  bool json_safe(Val const& v) {
    if (v.t == Val::Dec) return std::isfinite(v.d);
    for (auto& x : v.a) if (!json_safe(x)) return false;
    for (auto& x : v.o) if (!json_safe(x.second)) return false;
    return true;
  }
  bool valid_utf8(std::string const& v) {
    for (size_t i = 0; i < v.size();) {
      unsigned char c = v[i];
      if (c < 0x80) { i++; continue; }
      int n = c >= 0xf5 ? 0 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
      if (!n || i + n > v.size()) return false;
      uint32_t cp = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31;
      for (int k = 1; k < n; k++) { unsigned char d = v[i + k]; if ((d & 0xc0) != 0x80) return false; cp = cp << 6 | (d & 63); }
      if (n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) return false;
      if (n == 4 && (cp < 0x10000 || cp > 0x10ffff)) return false;
      i += n;
    }
    return true;
  }
  bool utf8_safe(Val const& v) {
    std::vector<std::string> s; all_strings(v, s);
    for (auto& x : s) if (!valid_utf8(x)) return false;
    return true;
  }

  int buffer_routes() { return 7; }

  dart::buffer build_buffer_route(Val const& v, int route, Src* s) {
    switch (route) {
      case 1: return static_cast<dart::buffer>(build_heap(v, s));
      case 2: { auto p = build_packet(v, s); p.lower(); return static_cast<dart::buffer>(p); }
      case 3: {
        std::vector<dart::heap> el;
        for (auto& x : v.o) { el.push_back(dart::heap::make_string(sv(x.first))); el.push_back(build_heap(x.second, s)); }
        if (s && el.size() > 2) for (size_t i = el.size() / 2; i > 1; i--) { size_t j = s->draw(i); std::swap(el[2 * i - 2], el[2 * j]); std::swap(el[2 * i - 1], el[2 * j + 1]); }
        return dart::buffer::make_object(gsl::span<dart::heap const>(el.data(), el.size()));
      }
      case 4: {
        // from an already immutable document by way of the mutable form
        auto b = build_heap(v, s).lower();
        dart::heap h {b};
        return h.finalize();
      }
      case 5: {
        auto b = build_heap(v, s).lower();
        return dart::buffer(b.get_bytes());
      }
      case 6: {
        // pairs that are themselves immutable
        std::vector<dart::buffer> el;
        Val keys = Val::arr(), vals = Val::arr();
        for (auto& x : v.o) { keys.a.push_back(Val::str(x.first)); vals.a.push_back(x.second); }
        auto root = build_heap(Val::obj({{"k", keys}, {"v", vals}}), s).lower();
        auto ks = root["k"], vs = root["v"];
        for (size_t i = 0; i < keys.a.size(); i++) { el.push_back(ks[i]); el.push_back(vs[i]); }
        return dart::buffer::make_object(gsl::span<dart::buffer const>(el.data(), el.size()));
      }
      default: return build_heap(v, s).lower();
    }
  }
  dart::buffer build_buffer(Val const& v, Src* s) { return build_buffer_route(v, s ? s->draw(buffer_routes()) : 0, s); }
  dart::buffer build_subbuffer(Val const& v, Src* s) {
    if (v.t == Val::Obj && (!s || s->flip())) return build_buffer(v, s);
    if (s && s->draw(3) == 2) return build_buffer(Val::obj({{"x", Val::arr({Val::boolean(true), v})}}), s)["x"][1];
    return build_buffer(Val::obj({{"x", v}}), s)["x"];
  }
  dart::packet build_either(Val const& v, Src& s, bool& fin) {
    fin = s.flip();
    if (!fin) return build_packet(v, &s);
    return dart::packet(build_subbuffer(v, &s));
  }
}
