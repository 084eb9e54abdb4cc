#include "codec.h"

namespace codec {

  static size_t align_of(int t) {
    switch (t) {
      case OBJECT: case ARRAY: case I64: case F64: return 8;
      case STRING: case SMALL: case I16: return 2;
      case BIG: case I32: case F32: return 4;
      default: return 1;
    }
  }

  u64 rd(std::string const& b, size_t pos, size_t width) {
    u64 v = 0;
    for (size_t i = 0; i < width; i++) v |= (u64)(unsigned char)b[pos + i] << (8 * i);
    return v;
  }
  void wr(std::string& b, size_t pos, size_t width, u64 v) {
    for (size_t i = 0; i < width; i++) b[pos + i] = (char)(v >> (8 * i));
  }

  static int tag_of(Val const& v, How const& h) {
    bool w = h.wide && h.s && h.s->draw(3) == 2;
    switch (v.t) {
      case Val::Obj: return OBJECT;
      case Val::Arr: return ARRAY;
      case Val::Str: return v.s.size() > 65535 || w ? BIG : STRING;
      case Val::Int: {
        int t = v.i >= -32768 && v.i <= 32767 ? I16 : v.i >= -2147483648ll && v.i <= 2147483647ll ? I32 : I64;
        if (w) t += h.s->draw(I64 - t + 1);
        return t;
      }
      case Val::Dec: return v.d == (double)(float)v.d && !w ? F32 : F64;
      case Val::Bool: return BOOL;
      default: return NUL;
    }
  }

  static void pad(std::string& o, size_t a, How const& h, size_t base) {
    size_t p = o.size();
    while (o.size() % a) o += '\0';
    if (h.fields && o.size() > p) h.fields->push_back({Field::Pad, p, o.size() - p, base, 0, 0});
  }
  static void num(std::string& o, u64 v, size_t w) { size_t p = o.size(); o.resize(p + w); wr(o, p, w, v); }
  static void string(std::string& o, std::string const& s, size_t w, How const& h) {
    size_t base = o.size();
    if (h.fields) {
      h.fields->push_back({Field::StrLen, base, w, base, w + s.size() + 1, 0});
      if (s.size()) h.fields->push_back({Field::Content, base + w, s.size(), base, w + s.size() + 1, 0});
      h.fields->push_back({Field::Term, base + w + s.size(), 1, base, w + s.size() + 1, 0});
    }
    num(o, s.size(), w); o += s; o += '\0';
  }

  static void put(std::string& o, Val const& v, int tag, How const& h) {
    // The caller has aligned o.
    switch (tag) {
      case OBJECT: {
        size_t base = o.size(), n = v.o.size();
        o.resize(base + 8 + 8 * n);
        size_t first = h.fields ? h.fields->size() : 0, i = 0;
        if (h.fields) { h.fields->push_back({Field::Bytes, base, 4, base, 0, n}); h.fields->push_back({Field::Count, base + 4, 4, base, 0, n}); }
        std::vector<size_t> own {first, first + 1};
        wr(o, base + 4, 4, n);
        for (auto& p : v.o) {
          int t = tag_of(p.second, h);
          pad(o, 2, h, base);
          size_t e = base + 8 + 8 * i++;
          wr(o, e, 4, o.size() - base);
          wr(o, e + 4, 1, t);
          wr(o, e + 5, 1, p.first.size() < 255 ? p.first.size() : 255);
          for (size_t k = 0; k < 2 && k < p.first.size(); k++) o[e + 6 + k] = p.first[k];
          if (h.fields) {
            size_t q = h.fields->size();
            for (size_t k = 0; k < 4; k++) own.push_back(q + k);
            h.fields->push_back({Field::Offset, e, 4, base, 0, n}); h.fields->push_back({Field::Type, e + 4, 1, base, 0, n});
            h.fields->push_back({Field::KeyLen, e + 5, 1, base, 0, n}); h.fields->push_back({Field::Prefix, e + 6, 2, base, 0, n});
          }
          string(o, p.first, 2, h);
          pad(o, align_of(t), h, base);
          put(o, p.second, t, h);
        }
        pad(o, 8, h, base);
        wr(o, base, 4, o.size() - base);
        if (h.fields) for (auto q : own) (*h.fields)[q].size = o.size() - base;
        return;
      }
      case ARRAY: {
        size_t base = o.size(), n = v.a.size();
        o.resize(base + 8 + 8 * n);
        std::vector<size_t> own;
        if (h.fields) { own = {h.fields->size(), h.fields->size() + 1}; h.fields->push_back({Field::Bytes, base, 4, base, 0, n}); h.fields->push_back({Field::Count, base + 4, 4, base, 0, n}); }
        wr(o, base + 4, 4, n);
        for (size_t i = 0; i < n; i++) {
          int t = tag_of(v.a[i], h);
          pad(o, align_of(t), h, base);
          size_t e = base + 8 + 8 * i;
          wr(o, e, 4, o.size() - base);
          wr(o, e + 4, 1, t);
          if (h.fields) {
            size_t q = h.fields->size();
            own.push_back(q); own.push_back(q + 1);
            h.fields->push_back({Field::Offset, e, 4, base, 0, n}); h.fields->push_back({Field::Type, e + 4, 1, base, 0, n});
          }
          put(o, v.a[i], t, h);
        }
        wr(o, base, 4, o.size() - base);
        if (h.fields) for (auto q : own) (*h.fields)[q].size = o.size() - base;
        return;
      }
      case STRING: case SMALL: string(o, v.s, 2, h); return;
      case BIG: string(o, v.s, 4, h); return;
      case I16: num(o, (u64)v.i, 2); break;
      case I32: num(o, (u64)v.i, 4); break;
      case I64: num(o, (u64)v.i, 8); break;
      case F32: { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); num(o, u, 4); break; }
      case F64: { u64 u; memcpy(&u, &v.d, 8); num(o, u, 8); break; }
      case BOOL: if (h.fields) h.fields->push_back({Field::Bool, o.size(), 1, o.size(), 1, 0}); num(o, v.b, 1); return;
      default: return;
    }
    if (h.fields) { size_t w = tag == I16 ? 2 : tag == I32 || tag == F32 ? 4 : 8; h.fields->push_back({Field::Content, o.size() - w, w, o.size() - w, w, 0}); }
  }

  std::string encode(Val const& v, How const& h) {
    std::string o;
    put(o, v, OBJECT, h);
    return o;
  }

  // ---- decoding

  struct Dec {
    std::string const& b;
    bool strict;
    std::string err;
    bool bad(size_t at, std::string const& m) { if (err.empty()) err = m + " (at byte " + std::to_string(at) + ")"; return false; }
    bool need(size_t at, size_t n, size_t lim) { return at <= lim && n <= lim - at ? true : bad(at, "runs past the end"); }
    bool zero(size_t from, size_t to) { if (strict) for (size_t i = from; i < to; i++) if (b[i]) return bad(i, "padding is not zero"); return true; }

    bool str(size_t at, size_t w, size_t lim, std::string& out, size_t& end) {
      if (!need(at, w, lim)) return false;
      size_t n = rd(b, at, w);
      if (!need(at + w, n + 1, lim)) return false;
      out = b.substr(at + w, n);
      end = at + w + n + 1;
      if (b[end - 1]) return bad(end - 1, "string is not terminated");
      return true;
    }

    bool value(size_t at, int t, size_t lim, Val& v, size_t& end) {
      if (at % align_of(t)) return bad(at, "value is not aligned");
      end = at;
      switch (t) {
        case OBJECT: {
          v = Val::obj();
          if (!need(at, 8, lim)) return false;
          size_t total = rd(b, at, 4), n = rd(b, at + 4, 4);
          if (!need(at, total, lim)) return false;
          end = at + total;
          if (total < 8 || n > (total - 8) / 8) return bad(at, "entries exceed the object");
          if (strict && total % 8) return bad(at, "object is not padded to its alignment");
          size_t pos = at + 8 + 8 * n;
          std::string prev;
          for (size_t i = 0; i < n; i++) {
            size_t e = at + 8 + 8 * i, off = rd(b, e, 4), ty = rd(b, e + 4, 1), len = rd(b, e + 5, 1);
            size_t want = (pos + 1) & ~(size_t)1;
            if (strict && at + off != want) return bad(e, "key is not where the layout puts it");
            if (off > total) return bad(e, "offset out of range");
            if (!zero(pos, want)) return false;
            std::string key; size_t kend;
            if ((at + off) % 2) return bad(e, "key is not aligned");
            if (!str(at + off, 2, end, key, kend)) return false;
            if (strict) {
              if (len != std::min<size_t>(key.size(), 255)) return bad(e + 5, "entry has the wrong key length");
              for (size_t k = 0; k < 2; k++) if (b[e + 6 + k] != (k < key.size() ? key[k] : '\0')) return bad(e + 6, "entry has the wrong prefix");
              if (ty == SMALL) return bad(e + 4, "entry has an internal type");
              if (i && !KeyLess {}(prev, key)) return bad(e, "keys are not in order");
            }
            prev = key;
            if (ty > NUL) return bad(e + 4, "unknown type");
            size_t a = align_of(ty), vat = (kend + a - 1) / a * a;
            if (strict && vat <= end && !zero(kend, vat)) return false;
            Val c;
            if (!value(vat, ty, end, c, pos)) return false;
            if (!v.o.emplace(key, c).second) return bad(e, "repeated key");
          }
          if (strict) {
            size_t want = (pos + 7) / 8 * 8;
            if (want != end) return bad(at, "object size is wrong");
            if (!zero(pos, end)) return false;
          }
          return true;
        }
        case ARRAY: {
          v = Val::arr();
          if (!need(at, 8, lim)) return false;
          size_t total = rd(b, at, 4), n = rd(b, at + 4, 4);
          if (!need(at, total, lim)) return false;
          end = at + total;
          if (total < 8 || n > (total - 8) / 8) return bad(at, "entries exceed the array");
          size_t pos = at + 8 + 8 * n;
          for (size_t i = 0; i < n; i++) {
            size_t e = at + 8 + 8 * i, off = rd(b, e, 4), ty = rd(b, e + 4, 1);
            if (ty > NUL || (strict && ty == SMALL)) return bad(e + 4, "unknown type");
            if (strict && !zero(e + 5, e + 8)) return false;
            size_t a = align_of(ty), want = (pos + a - 1) / a * a;
            if (strict && at + off != want) return bad(e, "element is not where the layout puts it");
            if (off > total) return bad(e, "offset out of range");
            if (!zero(pos, want)) return false;
            v.a.emplace_back();
            if (!value(at + off, ty, end, v.a.back(), pos)) return false;
          }
          if (strict && pos != end) return bad(at, "array size is wrong");
          return true;
        }
        case STRING: case SMALL: v = Val::str(""); return str(at, 2, lim, v.s, end);
        case BIG: v = Val::str(""); if (!str(at, 4, lim, v.s, end)) return false; return strict && v.s.size() <= 65535 ? bad(at, "string is stored too wide") : true;
        case I16: if (!need(at, 2, lim)) return false; v = Val::integer((int16_t)rd(b, at, 2)); end = at + 2; return true;
        case I32: if (!need(at, 4, lim)) return false; v = Val::integer((int32_t)rd(b, at, 4)); end = at + 4;
          return strict && v.i >= -32768 && v.i <= 32767 ? bad(at, "integer is stored too wide") : true;
        case I64: if (!need(at, 8, lim)) return false; v = Val::integer((i64)rd(b, at, 8)); end = at + 8;
          return strict && v.i >= -2147483648ll && v.i <= 2147483647ll ? bad(at, "integer is stored too wide") : true;
        case F32: { if (!need(at, 4, lim)) return false; uint32_t u = rd(b, at, 4); float f; memcpy(&f, &u, 4); v = Val::dec(f); end = at + 4; return true; }
        case F64: { if (!need(at, 8, lim)) return false; u64 u = rd(b, at, 8); double d; memcpy(&d, &u, 8); v = Val::dec(d); end = at + 8;
          return strict && d == (double)(float)d ? bad(at, "decimal is stored too wide") : true; }
        case BOOL: { if (!need(at, 1, lim)) return false; auto c = rd(b, at, 1); if (c > 1) return bad(at, "boolean is neither 0 nor 1"); v = Val::boolean(c); end = at + 1; return true; }
        case NUL: v = Val::null(); return at <= lim ? true : bad(at, "null lies outside");
        default: return bad(at, "unknown type");
      }
    }
  };

  bool decode(std::string const& bytes, Val& out, std::string& err, bool strict) {
    Dec d {bytes, strict, {}};
    size_t end = 0;
    bool ok = d.value(0, OBJECT, bytes.size(), out, end);
    if (ok && strict && end != bytes.size()) { ok = false; d.err = "declared size differs from the length"; }
    err = d.err;
    return ok;
  }

  // ---- corruption

  std::string corrupt(Src& s, std::string& b, std::vector<Field> const& fs) {
    if (b.empty()) { b.push_back((char)s.draw(256)); return "one byte"; }
    switch (fs.empty() ? s.weigh({2, 2, 1, 1}) + 5 : s.weigh({6, 3, 2, 1, 1, 2, 1, 1, 1})) {
      case 0: { // structural number, interesting value
        Field const& f = s.pick(fs);
        if (f.pos + f.width > b.size()) return "nothing";
        u64 old = rd(b, f.pos, f.width > 8 ? 8 : f.width), v;
        size_t w = f.width > 8 ? 8 : f.width;
        switch (s.draw(14)) {
          case 0: v = old + 1; break; case 1: v = old - 1; break; case 2: v = 0; break; case 3: v = ~0ull; break;
          case 4: v = b.size(); break; case 5: v = b.size() - f.base; break; case 6: v = f.size; break;
          case 7: v = old + 8; break; case 8: v = old - 8; break; case 9: v = old ^ (1ull << s.draw(8 * w)); break;
          case 10: v = s.draw(b.size() + 16); break; case 11: v = 8 + 8 * f.entries; break; case 12: v = 0x7fffffff; break;
          default: v = s.draw(0); break;
        }
        wr(b, f.pos, w, v);
        return "field " + std::to_string(f.k) + " at " + std::to_string(f.pos) + ": " + std::to_string(old) + " -> " + std::to_string((i64)v);
      }
      case 1: { // one entry takes another's offset
        Field const &f = s.pick(fs), &g = s.pick(fs);
        size_t w = std::min<size_t>(4, std::min(f.width, g.width));
        if (f.pos + w > b.size() || g.pos + w > b.size()) return "nothing";
        u64 v = rd(b, g.pos, w);
        if (f.k == Field::Offset && g.k == Field::Offset) v = v + g.base - f.base + 2 * s.draw(3);
        wr(b, f.pos, w, v);
        return "field at " + std::to_string(f.pos) + " takes the one at " + std::to_string(g.pos);
      }
      case 2: { // change of type
        std::vector<Field const*> ts; for (auto& f : fs) if (f.k == Field::Type) ts.push_back(&f);
        if (ts.empty()) return "nothing";
        auto f = s.pick(ts);
        if (f->pos >= b.size()) return "nothing";
        u64 v = s.draw(14); if (v == 13) v = s.draw(256);
        b[f->pos] = (char)v;
        return "type at " + std::to_string(f->pos) + " -> " + std::to_string(v);
      }
      case 3: { // an aggregate claims more or less together with its entries
        std::vector<Field const*> ts; for (auto& f : fs) if (f.k == Field::Count) ts.push_back(&f);
        if (ts.empty()) return "nothing";
        auto f = s.pick(ts);
        if (f->pos + 4 > b.size()) return "nothing";
        u64 v = f->entries + s.draw(5) - 2; wr(b, f->pos, 4, v);
        return "count at " + std::to_string(f->pos) + " -> " + std::to_string(v);
      }
      case 4: { // a stretch of the document is copied elsewhere
        size_t n = 8 * (1 + s.draw(4)), x = s.draw(b.size() / 8 + 1) * 8, y = s.draw(b.size() / 8 + 1) * 8;
        if (x + n > b.size() || y + n > b.size()) return "nothing";
        auto t = b.substr(x, n); b.replace(y, n, t);
        return "copy of " + std::to_string(n) + " bytes from " + std::to_string(x) + " to " + std::to_string(y);
      }
      case 5: { size_t p = s.draw(b.size()); auto v = (char)s.draw(256); b[p] = v; return "byte " + std::to_string(p) + " -> " + std::to_string((unsigned char)v); }
      case 6: { size_t p = s.draw(b.size()); b[p] ^= (char)(1 << s.draw(8)); return "bit flip at " + std::to_string(p); }
      case 7: { size_t n = s.draw(b.size() + 1); b.resize(n); return "truncated to " + std::to_string(n); }
      default: { size_t n = 1 + s.draw(32); char c = s.flip() ? 0 : (char)s.draw(256); b.append(n, c); return "extended by " + std::to_string(n); }
    }
  }

  std::string out_of_range(Src& s, std::string const& b, std::vector<Field> const& fs, std::string& what) {
    std::vector<Field const*> ts;
    for (auto& f : fs) if (f.k == Field::Bytes || f.k == Field::Count || f.k == Field::Offset || f.k == Field::Type || f.k == Field::StrLen) ts.push_back(&f);
    auto f = s.pick(ts);
    std::string c = b;
    u64 v = 0;
    switch (f->k) {
      case Field::Bytes: what = "size"; v = b.size() - f->base + 1 + (s.flip() ? s.draw(64) : s.draw(0xffffffffull - b.size())); break;
      case Field::Count: what = "count"; v = (b.size() - f->base - 8) / 8 + 1 + (s.flip() ? s.draw(16) : s.draw(0xffffffffull - b.size())); break;
      case Field::Offset: what = "offset"; v = b.size() - f->base + 1 + (s.flip() ? s.draw(64) : s.draw(0xffffffffull - b.size() - 64)); break;
      case Field::Type: what = "type"; v = NUL + 1 + s.draw(255 - NUL); break;
      case Field::StrLen: what = "string length"; { u64 room = b.size() - f->base - f->width - 1, max = f->width == 2 ? 0xffff : 0xffffffffull; if (room >= max) return ""; v = room + 1 + (s.flip() ? 0 : s.draw(max - room)); } break;
      default: return "";
    }
    wr(c, f->pos, f->width, v);
    what += " at byte " + std::to_string(f->pos) + " changed to " + std::to_string(v);
    return c;
  }
}
