#include "model.h"
#include <cmath>
#include <cerrno>
#include <limits>
#include <algorithm>
#include <cstdlib>

namespace mdl {
  using eng::quote;
  using eng::mix;

  static u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
  static double from_bits(u64 u) { double d; memcpy(&d, &u, 8); return d; }

  size_t Val::nodes() const {
    size_t n = 1;
    for (auto& x : a) n += x.nodes();
    for (auto& x : o) n += x.second.nodes();
    return n;
  }
  int Val::depth() const {
    int n = 0;
    for (auto& x : a) n = std::max(n, x.depth());
    for (auto& x : o) n = std::max(n, x.second.depth());
    return is_agg() ? n + 1 : 0;
  }
  static u64 hstr(std::string const& s) { u64 h = s.size(); for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return mix(h); }
  u64 Val::hash() const {
    u64 h = mix(t);
    switch (t) {
      case Bool: h = mix(h ^ b); break;
      case Int: h = mix(h ^ (u64)i); break;
      case Dec: h = mix(h ^ bits(d)); break;
      case Str: h = mix(h ^ hstr(s)); break;
      default: break;
    }
    for (auto& x : a) h = mix(h ^ x.hash());
    for (auto& x : o) h = mix(h ^ hstr(x.first) ^ (x.second.hash() * 3));
    return h;
  }

  bool operator ==(Val const& x, Val const& y) {
    if (x.t != y.t) return false;
    switch (x.t) {
      case Val::Null: return true;
      case Val::Bool: return x.b == y.b;
      case Val::Int: return x.i == y.i;
      case Val::Dec: return bits(x.d) == bits(y.d);
      case Val::Str: return x.s == y.s;
      case Val::Arr: return x.a == y.a;
      case Val::Obj: return x.o == y.o;
    }
    return false;
  }

  static bool near_d(double a, double b, int ulps) {
    if (bits(a) == bits(b) || a == b) return true;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
    for (int i = 0; i < ulps; i++) { a = std::nextafter(a, b); if (a == b) return true; }
    return false;
  }

  bool near(Val const& x, Val const& y, int ulps) {
    if (x.t != y.t) return false;
    if (x.t == Val::Dec) return near_d(x.d, y.d, ulps);
    if (x.t == Val::Arr) {
      if (x.a.size() != y.a.size()) return false;
      for (size_t i = 0; i < x.a.size(); i++) if (!near(x.a[i], y.a[i], ulps)) return false;
      return true;
    }
    if (x.t == Val::Obj) {
      if (x.o.size() != y.o.size()) return false;
      for (auto i = x.o.begin(), j = y.o.begin(); i != x.o.end(); ++i, ++j)
        if (i->first != j->first || !near(i->second, j->second, ulps)) return false;
      return true;
    }
    return x == y;
  }

  char const* tname(Val::T t) {
    static char const* n[] = {"null", "boolean", "integer", "decimal", "string", "array", "object"};
    return n[t];
  }

  static void show_to(Val const& v, std::string& out, size_t max) {
    if (out.size() > max) return;
    char b[64];
    switch (v.t) {
      case Val::Null: out += "null"; break;
      case Val::Bool: out += v.b ? "true" : "false"; break;
      case Val::Int: out += std::to_string(v.i); break;
      case Val::Dec: snprintf(b, 64, "%.17gd", v.d); out += b; break;
      case Val::Str: out += quote(v.s); break;
      case Val::Arr: {
        out += '['; bool c = false;
        for (auto& x : v.a) { if (c) out += ", "; c = true; show_to(x, out, max); }
        out += ']'; break;
      }
      case Val::Obj: {
        out += '{'; bool c = false;
        for (auto& x : v.o) { if (c) out += ", "; c = true; out += quote(x.first) + ": "; show_to(x.second, out, max); }
        out += '}'; break;
      }
    }
  }
  std::string show(Val const& v, size_t max) {
    std::string o; show_to(v, o, max);
    if (o.size() > max) { o.resize(max); o += "..."; }
    return o;
  }

  std::string diff(Val const& g, Val const& w, std::string path) {
    if (g == w) return "";
    if (g.t == w.t && g.t == Val::Arr) {
      for (size_t i = 0; i < std::min(g.a.size(), w.a.size()); i++)
        if (g.a[i] != w.a[i]) return diff(g.a[i], w.a[i], path + "[" + std::to_string(i) + "]");
    } else if (g.t == w.t && g.t == Val::Obj) {
      for (auto& p : w.o) {
        auto it = g.o.find(p.first);
        if (it == g.o.end()) return path + " lacks key " + quote(p.first);
        if (it->second != p.second) return diff(it->second, p.second, path + "." + quote(p.first, 20));
      }
      for (auto& p : g.o) if (!w.o.count(p.first)) return path + " has unexpected key " + quote(p.first);
    }
    return path + " is " + tname(g.t) + " " + show(g, 300) + " but should be " + tname(w.t) + " " + show(w, 300);
  }

  // ---- generators

  i64 gen_int(Src& s) {
    static const i64 edge[] = {0, 1, -1, INT8_MAX, INT8_MIN, INT16_MAX, INT16_MIN, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, UINT8_MAX, UINT16_MAX, (i64)UINT32_MAX, 1ll << 53, -(1ll << 53)};
    switch (s.weigh({4, 3, 1, 1})) {
      case 0: return s.range(0, 20);
      case 1: {
        i64 e = edge[s.draw(sizeof edge / sizeof *edge)];
        i64 d = (i64)s.draw(5) - 2;
        return (i64)((u64)e + (u64)d);
      }
      case 2: return s.range(-70000, 70000);
      default: return (i64)s.draw(0);
    }
  }

  double gen_dec(Src& s, Opt const& o) {
    static const double edge[] = {0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e100, 1e-5, 1e-6, 1e-7, 1e308,
      5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 3.4028234663852886e38, 3.4028235677973366e38, 1.1754943508222875e-38,
      1.401298464324817e-45, 7e-46, 9007199254740993.0, 9223372036854775807.0, 9223372036854775808.0, 18446744073709551616.0, 16777216.0, 16777217.0,
      2147483647.0, 2147483648.0, -9223372036854775808.0, 0.3, 3.14159265358979, 123456789.123};
    double d = 0;
    switch (s.weigh({4, 3, 2, 2, 1})) {
      case 0: d = (double)s.range(-1000, 1000) / (double)(1 << s.draw(6)); break;
      case 1: d = edge[s.draw(sizeof edge / sizeof *edge)]; if (s.flip()) d = -d; break;
      case 2: { float f; uint32_t u = (uint32_t)s.draw(1ull << 32); memcpy(&f, &u, 4); d = f; break; }
      case 3: d = from_bits(s.draw(0)); break;
      default: d = (double)(i64)s.draw(0); break;
    }
    if (!std::isfinite(d)) {
      if (!o.nonfinite) d = std::copysign(1.5, d);
      else if (std::isnan(d)) d = std::numeric_limits<double>::quiet_NaN();
    }
    if (d == 0 && std::signbit(d) && !o.negzero) d = 0;
    return d;
  }

  static void put_cp(std::string& out, uint32_t c) {
    if (c < 0x80) out += (char)c;
    else if (c < 0x800) { out += (char)(0xc0 | c >> 6); out += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { out += (char)(0xe0 | c >> 12); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
    else { out += (char)(0xf0 | c >> 18); out += (char)(0x80 | ((c >> 12) & 63)); out += (char)(0x80 | ((c >> 6) & 63)); out += (char)(0x80 | (c & 63)); }
  }

  static void append_char(Src& s, std::string& r, Opt const& o) {
    switch (s.weigh({8, 2, 2, 1})) {
      case 0: r += (char)('a' + s.draw(26)); break;
      case 1: {
        static const char sp[] = " \"\\/.,:{}[]\n\t\r\b\f\x01\x1f\x7f'#-_&*!|>%@`~";
        r += sp[s.draw(sizeof sp - 1)]; break;
      }
      case 2: {
        if (o.bytes) { char c = (char)s.draw(256); if (!c && !o.nul) c = 'z'; r += c; }
        else {
          static const uint32_t cps[] = {0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x80, 0xd7ff, 0xe000, 0x2028};
          put_cp(r, cps[s.draw(sizeof cps / sizeof *cps)]);
        }
        break;
      }
      default: if (o.nul) r += '\0'; else r += '0'; break;
    }
  }

  static std::string fill_len(Src& s, size_t n, Opt const& o) {
    // Long strings: a short random unit repeated, so that the tape stays short.
    std::string unit;
    size_t k = 1 + s.draw(6);
    for (size_t i = 0; i < k; i++) append_char(s, unit, o);
    std::string r;
    while (r.size() + unit.size() <= n) r += unit;
    while (r.size() < n) r += 'x';
    return r;
  }

  std::string gen_str(Src& s, Opt const& o) {
    static const int lens[] = {7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 127, 128, 253, 254, 255, 256, 257, 258, 511, 1000, 4096};
    static const int big[] = {65533, 65534, 65535, 65536, 65537, 70000, 131072, 200000};
    switch (s.weigh({10, 4, o.big ? 1u : 0u})) {
      case 0: {
        std::string r; size_t n = s.draw(12);
        for (size_t i = 0; i < n; i++) append_char(s, r, o);
        return r;
      }
      case 1: return fill_len(s, lens[s.draw(sizeof lens / sizeof *lens)], o);
      default:
        if (s.draw(6)) return fill_len(s, s.draw(300), o);
        return fill_len(s, big[s.draw(sizeof big / sizeof *big)], o);
    }
  }

  std::string gen_key(Src& s, Opt const& o, std::vector<std::string> const& nearby) {
    static const int lens[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 23, 24, 253, 254, 255, 256, 257, 258, 300, 512, 1000};
    static const int big[] = {5000, 65534, 65535};
    switch (nearby.empty() ? s.weigh({6, 2, 2}) : s.weigh({6, 2, 2, 3, 3, 2, 1})) {
      case 0: { std::string r; size_t n = s.draw(4); for (size_t i = 0; i < n; i++) r += (char)('a' + s.draw(4)); return r; }
      case 1: { std::string r; size_t n = s.draw(9); for (size_t i = 0; i < n; i++) append_char(s, r, o); return r; }
      case 2: {
        if (o.big && !s.draw(20)) return fill_len(s, big[s.draw(3)], o);
        return fill_len(s, lens[s.draw(sizeof lens / sizeof *lens)], o);
      }
      case 3: { // same length and leading bytes, other tail
        std::string r = s.pick(nearby); if (!r.empty()) { size_t p = r.size() - 1 - s.draw(std::min<size_t>(r.size(), 3)); if ((unsigned char)r[p] < 0x80) r[p] = (char)('a' + s.draw(26)); } return r;
      }
      case 4: { std::string r = s.pick(nearby); append_char(s, r, o); if (r.size() > 65535) r = std::string(65535 - 3, r[0] > 0 ? r[0] : 0x61) + "abc"; return r; }
      case 5: { std::string r = s.pick(nearby); while (!r.empty() && ((unsigned char)r.back() & 0xc0) == 0x80) r.pop_back(); if (!r.empty()) r.pop_back(); return r; }
      default: return s.pick(nearby);
    }
  }

  Val gen_scalar(Src& s, Opt const& o) {
    switch (s.weigh({2, 3, 6, 4, 6})) {
      case 0: return Val::null();
      case 1: return Val::boolean(s.flip());
      case 2: return Val::integer(gen_int(s));
      case 3: return Val::dec(gen_dec(s, o));
      default: return Val::str(gen_str(s, o));
    }
  }

  static size_t gen_width(Src& s, Opt const& o) {
    if (o.wide && s.draw(40) == 39) return s.draw(300);
    return s.draw(o.width + 1);
  }

  Val gen_obj(Src& s, Opt const& o) {
    Val v = Val::obj();
    Opt in = o; in.depth--;
    size_t n = gen_width(s, o);
    if (n > 20) { in.depth = 0; in.wide = false; in.big = false; }
    std::vector<std::string> ks;
    for (size_t i = 0; i < n; i++) {
      auto k = gen_key(s, in, ks);
      ks.push_back(k);
      v.o[k] = gen_val(s, in);
    }
    return v;
  }

  Val gen_arr(Src& s, Opt const& o) {
    Val v = Val::arr();
    Opt in = o; in.depth--;
    size_t n = gen_width(s, o);
    if (n > 20) { in.depth = 0; in.wide = false; in.big = false; }
    for (size_t i = 0; i < n; i++) v.a.push_back(gen_val(s, in));
    return v;
  }

  Val gen_val(Src& s, Opt const& o) {
    if (o.depth <= 0) return gen_scalar(s, o);
    switch (s.weigh({6, 2, 2})) {
      case 0: return gen_scalar(s, o);
      case 1: return gen_arr(s, o);
      default: return gen_obj(s, o);
    }
  }

  std::vector<std::string> keys_of(Val const& v) { std::vector<std::string> k; for (auto& p : v.o) k.push_back(p.first); return k; }

  std::string probe_key(Src& s, Val const& v, Opt const& o) {
    auto ks = keys_of(v);
    if (ks.empty() || !s.draw(3)) return gen_key(s, o, ks);
    return s.pick(ks);
  }

  void all_strings(Val const& v, std::vector<std::string>& out) {
    if (v.t == Val::Str) out.push_back(v.s);
    for (auto& x : v.a) all_strings(x, out);
    for (auto& p : v.o) { out.push_back(p.first); all_strings(p.second, out); }
  }

  Val mutate(Src& s, Val const& v, Opt const& o) {
    Val r = v;
    if (r.t == Val::Obj) {
      auto ks = keys_of(r);
      switch (ks.empty() ? 0 : s.draw(6)) {
        case 0: r.o[gen_key(s, o, ks)] = gen_scalar(s, o); break;
        case 1: r.o.erase(s.pick(ks)); break;
        case 2: { auto k = s.pick(ks); Val x = r.o[k]; r.o.erase(k); r.o[gen_key(s, o, {k})] = x; break; }
        case 3: { auto k = s.pick(ks); r.o[k] = Val::null(); break; }
        default: { auto k = s.pick(ks); r.o[k] = mutate(s, r.o[k], o); break; }
      }
    } else if (r.t == Val::Arr) {
      switch (r.a.empty() ? 0 : s.draw(5)) {
        case 0: r.a.insert(r.a.begin() + s.draw(r.a.size() + 1), gen_scalar(s, o)); break;
        case 1: r.a.erase(r.a.begin() + s.draw(r.a.size())); break;
        case 2: { auto i = s.draw(r.a.size()), j = s.draw(r.a.size()); std::swap(r.a[i], r.a[j]); break; }
        default: { auto i = s.draw(r.a.size()); r.a[i] = mutate(s, r.a[i], o); break; }
      }
    } else {
      switch (s.draw(4)) {
        case 0: if (r.t == Val::Str) { if (r.s.empty() || s.flip()) append_char(s, r.s, o); else r.s[s.draw(r.s.size())] = (char)('a' + s.draw(26)); } else if (r.t == Val::Int) r.i = (i64)((u64)r.i + 1); else if (r.t == Val::Dec) { double nd = std::nextafter(r.d, 0.0); if (nd == r.d) nd = 1.5; if (nd == 0 && !o.negzero) nd = 0; r.d = nd; } else if (r.t == Val::Bool) r.b = !r.b; else r = Val::boolean(false); break;
        case 1: // same number, other type
          if (r.t == Val::Int) r = Val::dec((double)r.i); else if (r.t == Val::Dec && std::fabs(r.d) < 1e15) r = Val::integer((i64)r.d); else if (r.t == Val::Null) r = Val::str("null"); else if (r.t == Val::Bool) r = Val::integer(r.b); else r = Val::null();
          break;
        case 2: r = s.flip() ? Val::obj() : Val::arr(); break;
        default: r = gen_scalar(s, o);
      }
    }
    return r;
  }

  static void walk_label(Src& s, Val const& v) {
    switch (v.t) {
      case Val::Null: s.label("val:null"); break;
      case Val::Bool: s.label("val:boolean"); break;
      case Val::Int: s.label(v.i == (int16_t)v.i ? "val:int16" : v.i == (int32_t)v.i ? "val:int32" : "val:int64"); break;
      case Val::Dec: s.label((double)(float)v.d == v.d ? "val:float" : "val:double"); break;
      case Val::Str: s.label(v.s.size() > 65535 ? "val:big string" : v.s.size() > 22 ? "val:heap string" : "val:short string"); break;
      case Val::Arr: if (v.a.empty()) s.label("val:empty array"); break;
      case Val::Obj: if (v.o.empty()) s.label("val:empty object"); break;
    }
    for (auto& x : v.a) walk_label(s, x);
    for (auto& p : v.o) {
      if (p.first.size() >= 255) s.label("key:255 or longer");
      if (p.first.find('\0') != std::string::npos) s.label("key:embedded zero");
      for (unsigned char c : p.first) if (c > 127) { s.label("key:non-ASCII"); break; }
      walk_label(s, p.second);
    }
  }
  void label_val(Src& s, Val const& v) {
    walk_label(s, v);
    int d = v.depth();
    s.label(d >= 4 ? "depth:4+" : d >= 2 ? "depth:2-3" : "depth:0-1");
    s.label(v.nodes() > 50 ? "nodes:>50" : v.nodes() > 5 ? "nodes:6-50" : "nodes:<=5");
  }

  // ---- reference JSON

  static void hex4(std::string& o, unsigned c, bool upper) { char b[8]; snprintf(b, 8, upper ? "\\u%04X" : "\\u%04x", c); o += b; }

  static void jstr_to(std::string& o, std::string const& v, Src* s, JsonStyle const& st) {
    o += '"';
    for (size_t i = 0; i < v.size(); i++) {
      unsigned char c = v[i];
      bool esc = s && st.escapes && s->chance(1, 6);
      switch (c) {
        case '"': if (esc) hex4(o, c, s->flip()); else o += "\\\""; continue;
        case '\\': if (esc) hex4(o, c, s->flip()); else o += "\\\\"; continue;
        case '\n': if (esc) hex4(o, c, s->flip()); else o += "\\n"; continue;
        case '\t': o += "\\t"; continue;
        case '\r': o += "\\r"; continue;
        case '\b': o += "\\b"; continue;
        case '\f': o += "\\f"; continue;
        case '/': o += esc ? "\\/" : "/"; continue;
      }
      if (c < 32) { hex4(o, c, s && s->flip()); continue; }
      if (c < 0x80) { if (esc) hex4(o, c, s->flip()); else o += (char)c; continue; }
      if (esc) {
        // decode one code point; fall back to the raw byte if it is not valid UTF-8
        int n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
        if (n && i + n <= v.size()) {
          uint32_t cp = n == 4 ? c & 7 : n == 3 ? c & 15 : c & 31; bool ok = true;
          for (int k = 1; k < n; k++) { unsigned char d = v[i + k]; if ((d & 0xc0) != 0x80) ok = false; cp = cp << 6 | (d & 63); }
          if (n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) ok = false;
          if (n == 4 && (cp < 0x10000 || cp > 0x10ffff)) ok = false;
          if (ok) {
            if (cp >= 0x10000) { hex4(o, 0xd800 + ((cp - 0x10000) >> 10), s->flip()); hex4(o, 0xdc00 + ((cp - 0x10000) & 0x3ff), s->flip()); }
            else hex4(o, cp, s->flip());
            i += n - 1;
            continue;
          }
        }
      }
      o += (char)c;
    }
    o += '"';
  }
  std::string json_str(std::string const& s) { std::string o; jstr_to(o, s, nullptr, {}); return o; }

  static void jw(std::string& o, Val const& v, Src* s, JsonStyle const& st) {
    auto ws = [&] { if (s && st.ws) { static char const* w[] = {"", " ", "\n", "\t", "\r\n", "   "}; o += w[s->weigh({6, 1, 1, 1, 1, 1})]; }
      if (s && st.comments && !s->draw(4)) o += s->flip() ? "/* c, \"x\" ] } **/" : "// line: {[\n"; };
    auto tail = [&] { if (s && st.trailing && s->flip()) { o += ','; ws(); } };
    char b[400];
    switch (v.t) {
      case Val::Null: o += "null"; break;
      case Val::Bool: o += v.b ? "true" : "false"; break;
      case Val::Int: o += std::to_string(v.i); break;
      case Val::Dec: {
        int f = s && st.numforms ? s->draw(4) : 0;
        if (f == 1) snprintf(b, sizeof b, "%.17e", v.d);
        else if (f == 2) snprintf(b, sizeof b, "%.17E", v.d);
        else if (f == 3 && std::fabs(v.d) < 1e15 && (v.d == 0 || std::fabs(v.d) > 1e-3)) snprintf(b, sizeof b, "%.20f", v.d);
        else snprintf(b, sizeof b, "%.17g", v.d);
        std::string t = b;
        if (t.find_first_of(".eE") == std::string::npos) t += s && st.numforms && s->flip() ? "e0" : ".0";
        o += t;
        break;
      }
      case Val::Str: jstr_to(o, v.s, s, st); break;
      case Val::Arr: {
        o += '['; ws(); bool c = false;
        for (auto& x : v.a) { if (c) { o += ','; ws(); } c = true; jw(o, x, s, st); ws(); }
        if (c) tail();
        o += ']'; break;
      }
      case Val::Obj: {
        o += '{'; ws();
        std::vector<std::pair<std::string, Val const*>> ps;
        for (auto& p : v.o) ps.emplace_back(p.first, &p.second);
        if (s && ps.size() > 1 && s->flip()) for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[s->draw(i)]);
        bool c = false;
        static Val const junk = Val::str("duplicate");
        std::vector<std::pair<std::string, Val const*>> out;
        for (auto& p : ps) {
          if (s && st.dups && s->chance(1, 12)) out.insert(out.begin() + s->draw(out.size() + 1), {p.first, s->flip() ? &junk : p.second});
          out.push_back(p);
        }
        for (auto& p : out) {
          if (c) { o += ','; ws(); } c = true;
          jstr_to(o, p.first, s, st); ws(); o += ':'; ws(); jw(o, *p.second, s, st); ws();
        }
        if (c) tail();
        o += '}'; break;
      }
    }
  }
  std::string json_write(Val const& v, Src* s, JsonStyle const& st) { std::string o; jw(o, v, s, st); return o; }

  namespace {
    struct P {
      std::string const& t; size_t p = 0; std::string err; int depth = 0; JsonInfo info;
      P(std::string const& t) : t(t) {}
      bool bad(char const* m) { if (err.empty()) err = std::string(m) + " at " + std::to_string(p); return false; }
      int c() const { return p < t.size() ? (unsigned char)t[p] : -1; }
      void ws() { while (c() == ' ' || c() == '\n' || c() == '\r' || c() == '\t') p++; }
      bool lit(char const* l) { size_t n = strlen(l); if (t.compare(p, n, l)) return bad("literal"); p += n; return true; }
      bool hex(uint32_t& u) {
        u = 0;
        for (int i = 0; i < 4; i++, p++) { int h = c(); if (h >= '0' && h <= '9') h -= '0'; else if (h >= 'a' && h <= 'f') h -= 'a' - 10; else if (h >= 'A' && h <= 'F') h -= 'A' - 10; else return bad("hex digit"); u = u * 16 + h; }
        return true;
      }
      bool str(std::string& o) {
        if (c() != '"') return bad("quote");
        p++;
        for (;;) {
          int ch = c();
          if (ch < 0) return bad("unterminated string");
          if (ch == '"') { p++; return true; }
          if (ch < 32) return bad("control character in string");
          if (ch != '\\') { o += (char)ch; p++; continue; }
          p++;
          switch (c()) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
            case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': {
              p++;
              uint32_t u; if (!hex(u)) return false;
              if (u >= 0xd800 && u < 0xdc00) {
                uint32_t v;
                if (c() != '\\') return bad("lone surrogate");
                p++;
                if (c() != 'u') return bad("lone surrogate");
                p++;
                if (!hex(v)) return false;
                if (v < 0xdc00 || v >= 0xe000) return bad("lone surrogate");
                u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
              }
              put_cp(o, u);
              continue;
            }
            default: return bad("escape");
          }
          p++;
        }
      }
      bool digit() const { return c() >= '0' && c() <= '9'; }
      bool val(Val& v) {
        if (depth > 100000) return bad("depth");
        switch (c()) {
          case 'n': v = Val::null(); return lit("null");
          case 't': v = Val::boolean(true); return lit("true");
          case 'f': v = Val::boolean(false); return lit("false");
          case '"': v = Val::str(""); return str(v.s);
          case '[': {
            v = Val::arr(); p++; ws(); depth++; info.depth = std::max(info.depth, depth);
            if (c() == ']') { p++; depth--; return true; }
            for (;;) {
              v.a.emplace_back(); if (!val(v.a.back())) return false;
              ws();
              if (c() == ',') { p++; ws(); continue; }
              if (c() == ']') { p++; depth--; return true; }
              return bad("array separator");
            }
          }
          case '{': {
            v = Val::obj(); p++; ws(); depth++; info.depth = std::max(info.depth, depth);
            if (c() == '}') { p++; depth--; return true; }
            for (;;) {
              std::string k; if (!str(k)) return false;
              ws(); if (c() != ':') return bad("colon"); p++; ws();
              Val x; if (!val(x)) return false;
              if (v.o.count(k)) info.dups++;
              if (k.size() > 65535) info.long_key = true;
              v.o[k] = std::move(x);
              ws();
              if (c() == ',') { p++; ws(); continue; }
              if (c() == '}') { p++; depth--; return true; }
              return bad("object separator");
            }
          }
          default: break;
        }
        size_t b = p;
        bool dec = false;
        if (c() == '-') p++;
        if (c() == '0') p++;
        else if (digit()) while (digit()) p++;
        else return bad("value");
        if (c() == '.') { dec = true; p++; if (!digit()) return bad("fraction"); while (digit()) p++; }
        if (c() == 'e' || c() == 'E') { dec = true; p++; if (c() == '+' || c() == '-') p++; if (!digit()) return bad("exponent"); while (digit()) p++; }
        std::string n = t.substr(b, p - b);
        // Numbers whose treatment depends on the limits of the conversion algorithm.
        { size_t e = n.find_first_of("eE"); if (e != std::string::npos && std::labs(strtol(n.c_str() + e + 1, nullptr, 10)) > 280) info.extreme = true; if (n.size() > 250) info.extreme = true; }
        if (!dec) {
          errno = 0;
          i64 i = strtoll(n.c_str(), nullptr, 10);
          if (!errno) { v = Val::integer(i); return true; }
        }
        double d = strtod(n.c_str(), nullptr);
        if (!std::isfinite(d)) return bad("number out of range");
        v = Val::dec(d);
        return true;
      }
    };
  }
  bool json_parse(std::string const& text, Val& out, std::string& err, JsonInfo* info) {
    P p {text};
    p.ws();
    bool ok = p.val(out);
    if (info) *info = p.info;
    if (!ok) { err = p.err; return false; }
    p.ws();
    if (p.p != text.size()) { err = "trailing data at " + std::to_string(p.p); return false; }
    return true;
  }
}
