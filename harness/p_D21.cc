// D21: YAML text is read as the document it denotes, or rejected.
#include "dartlib.h"
#include <yaml.h>
#include <algorithm>
#include <set>
using namespace dl;

namespace {

  // ---- writing ----

  std::vector<uint32_t> decode(std::string const& s) {
    std::vector<uint32_t> r;
    for (size_t i = 0; i < s.size();) {
      unsigned char c = s[i];
      int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
      uint32_t cp = n == 1 ? c : c & (0xff >> (n + 1));
      for (int k = 1; k < n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 0x3f);
      r.push_back(cp); i += n;
    }
    return r;
  }
  std::string encode(uint32_t cp) {
    std::string r;
    if (cp < 0x80) r += (char)cp;
    else if (cp < 0x800) { r += (char)(0xc0 | cp >> 6); r += (char)(0x80 | (cp & 0x3f)); }
    else if (cp < 0x10000) { r += (char)(0xe0 | cp >> 12); r += (char)(0x80 | (cp >> 6 & 0x3f)); r += (char)(0x80 | (cp & 0x3f)); }
    else { r += (char)(0xf0 | cp >> 18); r += (char)(0x80 | (cp >> 12 & 0x3f)); r += (char)(0x80 | (cp >> 6 & 0x3f)); r += (char)(0x80 | (cp & 0x3f)); }
    return r;
  }
  bool brk(uint32_t c) { return c == '\n' || c == '\r' || c == 0x85 || c == 0x2028 || c == 0x2029; }
  bool printable(uint32_t c) {
    return c == '\t' || brk(c) || (c >= 0x20 && c <= 0x7e) || (c >= 0xa0 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd && c != 0xfeff) || c >= 0x10000;
  }
  bool inline_ok(uint32_t c) { return printable(c) && !brk(c) && c != '\t'; }

  struct W {
    Src& s;
    std::string pad(int n) { return std::string(std::max(n, 0), ' '); }
    // Random line break inside a flow or folded scalar: becomes one space.
    std::string fold(int n) { return "\n" + std::string(s.draw(4) ? 0 : 0, ' ') + pad(n); }

    bool plain_ok(std::string const& x) {
      if (x.empty() || x.size() > 900) return false;
      static std::set<std::string> const words {"null", "true", "false", "yes", "no", "on", "off", "y", "n", "inf", "nan"};
      std::string low; for (char c : x) low += (char)tolower(c);
      if (words.count(low)) return false;
      for (size_t i = 0; i < x.size(); i++) {
        char c = x[i];
        bool word = isalnum((unsigned char)c) || c == '_' || c == '/';
        if (i == 0 ? !(isalpha((unsigned char)c) || c == '_' || c == '/') : !(word || c == '-' || c == '.' || c == '(' || c == ')' || c == '+' || c == '=' || c == '$' || c == '^' || c == ';' || (c == ' ' && i + 1 < x.size() && x[i + 1] != ' '))) return false;
      }
      return true;
    }
    bool spaced(std::vector<uint32_t> const& c, size_t i) { return c[i] == ' ' && i > 0 && i + 1 < c.size() && c[i - 1] != ' ' && c[i + 1] != ' ' && inline_ok(c[i - 1]) && inline_ok(c[i + 1]); }

    std::string dquote(std::string const& x, int n, bool multi) {
      std::string r = "\"";
      auto cs = decode(x);
      char buf[16];
      for (size_t i = 0; i < cs.size(); i++) {
        uint32_t c = cs[i];
        if (multi && spaced(cs, i) && cs[i - 1] != '\\' && s.chance(1, 6)) { r += fold(n); continue; }
        if (multi && i && inline_ok(c) && c != ' ' && s.chance(1, 40)) { r += "\\\n" + pad(n); }
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; continue; }
        if (inline_ok(c) && !s.chance(1, 20)) { r += encode(c); continue; }
        char const* shorts = nullptr;
        switch (c) {
          case 0: shorts = "\\0"; break; case 7: shorts = "\\a"; break; case 8: shorts = "\\b"; break; case 9: shorts = "\\t"; break;
          case 10: shorts = "\\n"; break; case 11: shorts = "\\v"; break; case 12: shorts = "\\f"; break; case 13: shorts = "\\r"; break;
          case 27: shorts = "\\e"; break; case ' ': shorts = "\\ "; break; case 0x85: shorts = "\\N"; break; case 0xa0: shorts = "\\_"; break;
          case 0x2028: shorts = "\\L"; break; case 0x2029: shorts = "\\P"; break;
        }
        if (shorts && s.flip()) { r += shorts; continue; }
        if (c < 0x100 && s.flip()) snprintf(buf, sizeof buf, "\\x%02x", c);
        else if (c < 0x10000 && s.draw(3)) snprintf(buf, sizeof buf, "\\u%04X", c);
        else snprintf(buf, sizeof buf, c < 0x10000 && s.flip() ? "\\u%04x" : "\\U%08x", c);
        r += buf;
      }
      return r + "\"";
    }
    bool squote_ok(std::string const& x) { for (auto c : decode(x)) if (!inline_ok(c)) return false; return true; }
    std::string squote(std::string const& x, int n, bool multi) {
      std::string r = "'";
      auto cs = decode(x);
      for (size_t i = 0; i < cs.size(); i++) {
        if (multi && spaced(cs, i) && s.chance(1, 6)) r += fold(n);
        else if (cs[i] == '\'') r += "''";
        else r += encode(cs[i]);
      }
      return r + "'";
    }
    // Block scalars; n is the column of the enclosing collection. Ends with a line break.
    bool literal_ok(std::string const& x) {
      if (x.empty() || x.find_first_not_of('\n') == std::string::npos) return false;
      for (auto c : decode(x)) if (c != '\n' && c != '\t' && !inline_ok(c)) return false;
      return true;
    }
    std::string literal(std::string const& x, int n) {
      std::string body = x; int t = 0;
      while (!body.empty() && body.back() == '\n') { body.pop_back(); t++; }
      int ind = 1 + s.draw(4);
      std::string head = "|", num = std::to_string(ind), chomp = t == 0 ? "-" : t == 1 && s.flip() ? "" : "+";
      bool need = body[0] == ' ' || body[0] == '\n' || body[0] == '\t' || s.flip();
      if (need && s.flip()) head += num + chomp; else head += chomp + (need ? num : "");
      if (s.chance(1, 8)) head += " # note";
      std::string r = head + "\n";
      int col = std::max(n, 0) + ind;
      size_t i = 0;
      while (true) {
        size_t j = body.find('\n', i);
        auto line = body.substr(i, j == std::string::npos ? j : j - i);
        r += line.empty() ? "\n" : pad(col) + line + "\n";
        if (j == std::string::npos) break;
        i = j + 1;
      }
      for (int k = 1; k < t; k++) r += "\n";
      return r;
    }
    bool folded_ok(std::string const& x) {
      auto cs = decode(x);
      if (cs.empty() || cs[0] == ' ' || cs.back() == ' ') return false;
      for (auto c : cs) if (!inline_ok(c)) return false;
      return true;
    }
    std::string folded(std::string const& x, int n) {
      auto cs = decode(x);
      int col = std::max(n, 0) + 1 + s.draw(4);
      std::string r = ">-\n" + pad(col);
      for (size_t i = 0; i < cs.size(); i++) r += spaced(cs, i) && s.chance(1, 3) ? "\n" + pad(col) : encode(cs[i]);
      return r + "\n";
    }
    std::string number(Val const& v) {
      char buf[64];
      if (v.t == Val::Int) {
        if (v.i >= 0 && s.chance(1, 6)) { snprintf(buf, sizeof buf, s.flip() ? "0x%llx" : "0x%llX", (long long)v.i); return buf; }
        if (v.i > 0 && s.chance(1, 8)) return "+" + std::to_string(v.i);
        return std::to_string(v.i);
      }
      snprintf(buf, sizeof buf, s.flip() ? "%.17g" : "%.16e", v.d);
      std::string r = buf;
      if (strtod(buf, nullptr) != v.d) { snprintf(buf, sizeof buf, "%.17g", v.d); r = buf; }
      if (r.find_first_of(".e") == std::string::npos) r += s.flip() ? ".0" : s.flip() ? "." : "e0";
      if (s.flip()) for (auto& c : r) if (c == 'e') c = 'E';
      return r;
    }
    // A scalar within a line (it may fold over further lines unless it is a key).
    std::string scalar(Val const& v, int n, bool key, bool flow) {
      std::string anchor = s.chance(1, 40) ? "&a" + std::to_string(s.draw(1u << 30)) + std::to_string(anchors++) + " " : "";
      switch (v.t) {
        case Val::Null: return anchor + "null";
        case Val::Bool: return anchor + (v.b ? "true" : "false");
        case Val::Int: case Val::Dec: return anchor + number(v);
        default: break;
      }
      bool multi = !key && v.s.size() < 3000;
      if (plain_ok(v.s) && s.draw(3)) {
        s.label("yaml: plain string");
        if (!multi) return anchor + v.s;
        std::string r; for (char c : v.s) if (c == ' ' && s.chance(1, 6)) r += fold(n); else r += c;
        return anchor + r;
      }
      if (squote_ok(v.s) && s.flip()) { s.label("yaml: single quoted"); return anchor + squote(v.s, n, multi); }
      s.label("yaml: double quoted");
      return anchor + dquote(v.s, n, multi);
    }
    int anchors = 0;
    bool explicit_needed(std::string const& text) { return text.size() > 250 || text.find('\n') != std::string::npos; }

    std::string gap(bool lines, int n) {
      if (!lines) return s.chance(1, 10) ? "  " : "";
      switch (s.draw(14)) { case 1: return " "; case 2: return "\n" + pad(n); case 3: return " # c,]}\n" + pad(n); default: return ""; }
    }
    std::string flow(Val const& v, int n) {
      if (!v.is_agg()) return scalar(v, n, false, true);
      bool lines = s.chance(1, 3);
      std::string r = v.t == Val::Obj ? "{" : "[";
      r += gap(lines, n);
      bool first = true;
      auto sep = [&] { if (!first) r += gap(lines, n) + "," + (s.chance(1, 6) ? "\n" + pad(n) : " "); first = false; };
      if (v.t == Val::Arr) for (auto& x : v.a) { sep(); r += flow(x, n); }
      else for (auto& k : shuffled(v)) {
        sep();
        if (s.chance(1, 12)) { auto t = scalar(Val::str(k), n, true, true); if (!explicit_needed(t)) { s.label("yaml: duplicate key"); r += t + ": overridden, "; } }
        auto t = scalar(Val::str(k), n, true, true);
        if (explicit_needed(t) || s.chance(1, 12)) r += "? " + t + " : "; else r += t + ": ";
        r += flow(v.o.at(k), n);
      }
      bool any = !first;
      if (any && s.chance(1, 10)) r += " ,";
      r += gap(lines, n);
      return r + (v.t == Val::Obj ? "}" : "]");
    }
    std::vector<std::string> shuffled(Val const& v) {
      auto ks = keys_of(v);
      for (size_t i = ks.size(); i > 1; i--) { auto j = s.draw(i); std::swap(ks[i - 1], ks[j]); }
      return ks;
    }
    bool block_scalar = false;    // blank lines after one belong to it
    std::string comment(int n) { if (block_scalar) return ""; switch (s.draw(16)) { case 1: return pad(n) + "# note: [x\n"; case 2: return "\n"; case 3: return "   \n"; default: return ""; } }
    std::string eol() { return s.chance(1, 10) ? (s.flip() ? " # tail\n" : "  \n") : "\n"; }

    // What follows "key:" or "-" for a value; n is the column of the enclosing collection.
    std::string value(Val const& v, int n, bool seq) {
      block_scalar = false;
      bool block = v.is_agg() && v.size() && !s.chance(1, 4);
      if (!block) {
        if (v.t == Val::Str && literal_ok(v.s) && s.chance(1, 3)) { s.label("yaml: literal"); block_scalar = true; return " " + literal(v.s, n); }
        if (v.t == Val::Str && folded_ok(v.s) && s.chance(1, 4)) { s.label("yaml: folded"); block_scalar = true; return " " + folded(v.s, n); }
        std::string anchor;
        std::string where = s.chance(1, 10) ? "\n" + pad(n + 1) : s.chance(1, 8) ? "   " : " ";
        return where + flow(v, n + 1 + s.draw(3)) + eol();
      }
      int step = 1 + s.draw(4);
      if (v.t == Val::Arr && !seq && s.chance(1, 3)) step = 0;     // a sequence at the column of its mapping
      if (seq && s.flip()) {                                        // compact nested collection
        s.label("yaml: compact nesting");
        auto t = collection(v, n + 1 + step, false);
        return std::string(step, ' ') + t.substr(n + 1 + step);
      }
      return eol() + collection(v, n + step, true);
    }
    std::string collection(Val const& v, int n, bool comments) {
      std::string r;
      bool first = true;
      if (v.t == Val::Arr) for (auto& x : v.a) { if (comments || !first) r += comment(n); first = false; r += pad(n) + "-" + value(x, n, true); }
      else for (auto& k : shuffled(v)) {
        if (comments || !first) r += comment(n);
        first = false;
        if (s.chance(1, 15)) { s.label("yaml: duplicate key"); auto t = scalar(Val::str(k), n, true, false); if (!explicit_needed(t)) r += pad(n) + t + ": {overridden: [1]}\n"; }
        auto t = scalar(Val::str(k), n, true, false);
        if (explicit_needed(t) || s.chance(1, 12)) { s.label("yaml: explicit key"); r += pad(n) + "? " + t + "\n" + pad(n) + ":" + value(v.o.at(k), n, false); }
        else r += pad(n) + t + ":" + value(v.o.at(k), n, false);
      }
      return r;
    }
    std::string document(Val const& v) {
      std::string r;
      bool start = s.chance(1, 4);
      if (s.chance(1, 12)) { r += "# a comment\n"; }
      if (s.chance(1, 12)) { r += "%YAML 1.1\n"; start = true; }
      if (start) r += s.flip() ? "---\n" : "--- # go\n";
      if (v.size() && s.draw(4)) { s.label("yaml: block style"); r += collection(v, s.chance(1, 8) ? 2 : 0, true); }
      else { s.label("yaml: flow style"); r += flow(v, 1) + (s.chance(1, 4) ? "" : "\n"); }
      switch (s.draw(10)) {
        case 1: if (!r.empty() && r.back() != '\n') r += "\n"; r += "...\n"; break;
        case 2: if (!r.empty() && r.back() != '\n') r += "\n"; r += "---\nsecond: [document]\n"; s.label("yaml: several documents"); break;
        default: break;
      }
      return r;
    }
  };

  std::string utf16(std::string const& x, bool be) {
    std::string r = be ? "\xfe\xff" : "\xff\xfe";
    auto put = [&](uint32_t u) { char hi = (char)(u >> 8), lo = (char)u; r += be ? hi : lo; r += be ? lo : hi; };
    for (auto c : decode(x)) if (c < 0x10000) put(c); else { c -= 0x10000; put(0xd800 + (c >> 10)); put(0xdc00 + (c & 0x3ff)); }
    return r;
  }

  // ---- reading, independently of the library (libyaml's document interface) ----

  struct Ref { enum { Bad, Doc, Unsure } kind = Unsure; };
  // A scalar whose type the property does not settle.
  bool settled(std::string const& x, Val& out) {
    if (x == "null") { out = Val::null(); return true; }
    if (x == "true" || x == "false") { out = Val::boolean(x == "true"); return true; }
    size_t i = x[0] == '-' || x[0] == '+';
    if (x.size() > 2 && x[0] == '0' && x[1] == 'x' && x.size() <= 17 && x.find_first_not_of("0123456789abcdefABCDEF", 2) == std::string::npos) { out = Val::integer((i64)strtoull(x.c_str(), nullptr, 16)); return out.i >= 0; }
    size_t d = x.find_first_not_of("0123456789", i);
    if (i < x.size() && d != i && (x[i] != '0' || i + 1 == x.size() || d == i + 1)) {
      if (d == std::string::npos) {
        errno = 0; long long n = strtoll(x.c_str(), nullptr, 10);
        if (errno) return false;
        out = Val::integer(n); return true;
      }
      // digits [. digits] [e [sign] digits]
      size_t p = d;
      if (x[p] == '.') { p++; while (p < x.size() && isdigit((unsigned char)x[p])) p++; }
      if (p < x.size() && (x[p] == 'e' || x[p] == 'E')) { p++; if (p < x.size() && (x[p] == '+' || x[p] == '-')) p++; size_t q = p; while (p < x.size() && isdigit((unsigned char)x[p])) p++; if (q == p) p = x.size() + 1; }
      if (p == x.size()) {
        double v = strtod(x.c_str(), nullptr);
        if (v - v != 0 || v == 0) return false;
        out = Val::dec(v); return true;
      }
    }
    static std::string const odd = "~yYnNtTfFoO.=<";
    bool numberish = isdigit((unsigned char)x[0]) || x[0] == '-' || x[0] == '+' || x[0] == '.';
    if (x.empty() || numberish) return false;
    std::string low; for (char c : x) low += (char)tolower((unsigned char)c);
    if (low == "~" || low == "null" || low == "true" || low == "false" || low == "yes" || low == "no" || low == "on" || low == "off" || low == "y" || low == "n" || low == "=" || low == "<<") return false;
    out = Val::str(x); return true;
  }

  struct Reader {
    yaml_document_t doc;
    std::set<yaml_node_item_t> seen;
    bool bad = false, alias = false, tagged = false;
    // Marks what is not settled by a null whose place is remembered.
    std::set<std::string> open;
    Val read(yaml_node_item_t id, std::string const& path) {
      if (!seen.insert(id).second) { alias = true; return {}; }
      auto* n = yaml_document_get_node(&doc, id);
      std::string tag = n->tag ? (char*)n->tag : "";
      switch (n->type) {
        case YAML_SCALAR_NODE: {
          std::string x((char*)n->data.scalar.value, n->data.scalar.length);
          bool plain = n->data.scalar.style == YAML_PLAIN_SCALAR_STYLE;
          if (!plain) return Val::str(x);
          Val v;
          if (x.find('\0') != std::string::npos || tag != YAML_STR_TAG || !settled(x, v)) open.insert(path);
          return v;
        }
        case YAML_SEQUENCE_NODE: {
          Val v = Val::arr();
          for (auto* i = n->data.sequence.items.start; i < n->data.sequence.items.top; i++) v.a.push_back(read(*i, path + "/" + std::to_string(v.a.size())));
          return v;
        }
        case YAML_MAPPING_NODE: {
          Val v = Val::obj();
          for (auto* p = n->data.mapping.pairs.start; p < n->data.mapping.pairs.top; p++) {
            auto* k = yaml_document_get_node(&doc, p->key);
            if (!seen.insert(p->key).second) alias = true;
            if (k->type != YAML_SCALAR_NODE) { bad = true; return v; }
            std::string key((char*)k->data.scalar.value, k->data.scalar.length);
            if (key.size() > 65535) bad = true;
            auto sub = path + "/" + eng::quote(key, 1 << 20);
            for (auto it = open.begin(); it != open.end();) if (it->compare(0, sub.size(), sub) == 0 && (it->size() == sub.size() || (*it)[sub.size()] == '/')) it = open.erase(it); else ++it;
            v.o[key] = read(p->value, sub);
          }
          return v;
        }
        default: bad = true; return {};
      }
    }
  };
  void mask(Val& v, std::set<std::string> const& open, std::string const& path) {
    if (open.count(path)) { CHECK(!v.is_agg(), "a scalar is read as a scalar"); v = Val::null(); return; }
    if (v.t == Val::Arr) for (size_t i = 0; i < v.a.size(); i++) mask(v.a[i], open, path + "/" + std::to_string(i));
    if (v.t == Val::Obj) for (auto& p : v.o) mask(p.second, open, path + "/" + eng::quote(p.first, 1 << 20));
  }

  // 0 rejected, 1 accepted (doc and unsettled places given), 2 not settled
  int reference(std::string const& text, Val& out, std::set<std::string>& open) {
    yaml_parser_t p;
    yaml_parser_initialize(&p);
    yaml_parser_set_input_string(&p, (unsigned char const*)text.data(), text.size());
    Reader r;
    int rc;
    if (!yaml_parser_load(&p, &r.doc)) {
      rc = p.error == YAML_COMPOSER_ERROR ? 2 : 0;    // anchors are the composer's concern
      // An undefined alias is rejected all the same, but a duplicate anchor need not be.
    } else {
      auto* root = yaml_document_get_root_node(&r.doc);
      if (!root) { out = Val::obj(); rc = 1; }
      else if (root->type == YAML_SCALAR_NODE) rc = 0;
      else { out = r.read(1, "$"); open = r.open; rc = r.bad || r.alias ? 0 : 1; }
      yaml_document_delete(&r.doc);
    }
    yaml_parser_delete(&p);
    return rc;
  }

  struct Exact {   // a copy without spare bytes around it
    char* p; size_t n;
    explicit Exact(std::string const& x) : p((char*)malloc(x.size())), n(x.size()) { memcpy(p, x.data(), n); }
    ~Exact() { free(p); }
    dart::shim::string_view view() const { return {p, n}; }
  };

  bool long_key(Val const& v) {
    for (auto& x : v.a) if (long_key(x)) return true;
    for (auto& p : v.o) if (p.first.size() > 65535 || long_key(p.second)) return true;
    return false;
  }

  // Reads the text in every form; they must agree.
  bool parse(Src& s, std::string const& text, Val& out) {
    Exact e(text);
    dart::heap h; bool ok = true; std::string what;
    try { h = dart::heap::from_yaml(e.view()); } catch (std::runtime_error const& x) { ok = false; what = x.what(); } catch (std::invalid_argument const& x) { ok = false; what = x.what(); }
    // Anything else ends the case as a failure.
    NOTE(ok ? "accepted" : "rejected: " + what);
    auto same = [&](auto&& f, char const* form) {
      bool good = true;
      try { auto v = f(); if (ok) SAME(v, extract(h), std::string(form) + ": differs from the heap"); } catch (std::runtime_error const&) { good = false; } catch (std::invalid_argument const&) { good = false; }
      CHECK(good == ok, std::string(form) + (ok ? ": rejects what the heap accepts" : ": accepts what the heap rejects"));
    };
    if (ok) { CHECK(h.is_object() || h.is_array(), "the root is an aggregate"); out = extract(h); }
    same([&] { return dart::packet::from_yaml(e.view(), false); }, "packet");
    if (!ok || out.t == Val::Obj) {
      same([&] { auto p = dart::packet::from_yaml(e.view()); CHECK(p.is_finalized(), "packets are finalized by default"); return p; }, "finalized packet");
      same([&] { return dart::buffer::from_yaml(e.view()); }, "buffer");
    } else {
      THROWS(dart::type_error, dart::buffer::from_yaml(e.view()), "buffer of a sequence");
      THROWS(dart::type_error, dart::packet::from_yaml(e.view(), true), "finalized packet of a sequence");
    }
    return ok;
  }

  void judged(Src& s, std::string const& text) {
    Val want, got;
    std::set<std::string> open;
    int rc = reference(text, want, open);
    bool ok = parse(s, text, got);
    if (rc == 2) { s.label("reference undecided"); return; }
    CHECK(ok == (rc == 1), rc ? "well formed text rejected" : "malformed or unsupported text accepted");
    if (!ok) { s.label("rejected"); return; }
    s.label("accepted");
    if (!open.empty()) { s.label("scalars of unsettled type"); mask(got, open, "$"); }
    CHECK(got == want, "read as a different document: " + diff(got, want));
  }

  std::string mutate_text(Src& s, std::string t) {
    static char const* const bits[] = {"{", "}", "[", "]", ":", ": ", "- ", "? ", "&a ", "*a", "!!str ", "!t ", "|", ">", "'", "\"", "\\", "#", " #", ",", "%YAML 1.1\n", "---\n", "...\n", "\n", " ", "\t",
      "null", "true", "1e5", "0x", "-", "@", "`", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xc2\x85", "\xe2\x80\xa8", "<<: ", "~", "\r", "\r\n", "1.", "08", "+1", "-.5", "9223372036854775808", "1e400", ".inf"};
    for (int n = 1 + s.draw(4); n; n--) {
      size_t at = s.draw(t.size() + 1);
      switch (s.draw(8)) {
        case 0: case 1: case 2: t.insert(at, bits[s.draw(sizeof bits / sizeof *bits)]); break;
        case 3: if (at < t.size()) t.erase(at, 1 + s.draw(4)); break;
        case 4: if (at < t.size()) t[at] = (char)s.draw(256); break;
        case 5: t.resize(at); break;
        case 6: { size_t len = s.draw(40); auto part = t.substr(at, len); t.insert(s.draw(t.size() + 1), part); break; }
        default: if (at < t.size()) t[at] = "\n:-{}[]&*!|>'\"%@`, #?\t"[s.draw(22)]; break;
      }
    }
    return t;
  }

  std::string soup(Src& s) {
    static char const* const words[] = {"a", "b:", ": ", "- ", "\n", "  ", "\n  ", "\n    ", "[", "]", "{", "}", ",", "1", "-2", "0.5", "null", "true", "'x'", "\"y\"", "?", "? ", "|\n", ">\n", "&a ", "*a ", "# c\n", "--- ", "...\n", "!x ", "key: ", "%TAG ! x:\n", "\"\\u00", "'"};
    std::string t; for (int n = s.draw(30); n; n--) t += words[s.draw(sizeof words / sizeof *words)];
    return t;
  }

  void run(Src& s) {
    Opt o; o.bytes = false; o.depth = 3 + s.draw(3); o.width = 5;
    switch (s.weigh({6, 3, 1, 1})) {
      case 0: {
        Val v = s.chance(1, 4) ? gen_arr(s, o) : gen_obj(s, o);
        W w {s};
        auto text = w.document(v);
        NOTE("document " + show(v)); NOTE("text " + eng::quote(text, 4000));
        label_val(s, v);
        std::string given = text;
        if (text.size() < 100000) switch (s.draw(12)) {
          case 1: given = "\xef\xbb\xbf" + text; s.label("yaml: byte order mark"); break;
          case 2: given = utf16(text, false); s.label("yaml: UTF-16"); break;
          case 3: given = utf16(text, true); s.label("yaml: UTF-16"); break;
          default: break;
        }
        Val got;
        CHECK(parse(s, given, got), "well formed text rejected: " + eng::quote(text, 500));
        CHECK(got == v, "read as a different document: " + diff(got, v) + " from " + eng::quote(text, 500));
        if (v.nodes() > 3) s.nontrivial();
        break;
      }
      case 1: {
        o.big = false; o.wide = false;
        W w {s};
        auto text = mutate_text(s, w.document(gen_obj(s, o)));
        NOTE("text " + eng::quote(text, 4000));
        s.label("mutated text"); s.nontrivial();
        judged(s, text);
        break;
      }
      case 2: { auto text = soup(s); NOTE("text " + eng::quote(text, 4000)); s.label("token soup"); s.nontrivial(); judged(s, text); break; }
      default: {
        std::string text;
        switch (s.draw(4)) {
          case 0: text = std::string(s.draw(3000), "[{"[s.flip()]); break;
          case 1: for (int n = s.draw(1500); n; n--) text += "- "; text += "x"; break;
          case 2: for (int n = s.draw(60); n; n--) text += (char)s.draw(256); break;
          default: { int n = s.draw(900); for (int i = 0; i < n; i++) text += "["; for (int i = 0; i < n; i++) text += "]"; break; }
        }
        NOTE("text " + eng::quote(text, 300));
        s.label("bytes or deep nesting"); s.nontrivial();
        judged(s, text);
      }
    }
  }

}

eng::Prop eng::prop {
  "D21",
  "documents (four byte integers to long strings, all Unicode including control characters through escapes) written in a random mix of block, compact and flow style, plain, single and double quoted, "
  "literal and folded scalars, implicit and explicit keys, comments, anchors, directives, several documents, UTF-8 with and without mark and UTF-16; then the same texts with up to four edits, token soup, bytes and deep nesting, "
  "judged against libyaml's own document interface. Every text is read as heap, buffer and packet in both forms, from a buffer of exactly its size, and every block must be released. "
  "Non-trivial: a document of more than three values, or any edited or made up text.",
  run, 12000, 300000,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; } } reg_; }
