// D22: a separated path names what looking up its components in turn names.
#include "ops.h"
using namespace dl;

namespace {
  char const seps[] = {'.', '/', '\0', 'a', '0', (char)0x80, ' ', (char)0xff, '\n', ':'};

  std::vector<std::string> split(std::string const& path, char sep) {
    // Each separator ends a component; what follows the last one is a component if it is not empty.
    std::vector<std::string> out;
    std::string cur;
    for (char c : path) if (c == sep) { out.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) out.push_back(cur);
    return out;
  }

  Val const none;
  Val const& walk(Val const& doc, std::vector<std::string> const& parts) {
    Val const* c = &doc;
    for (auto& p : parts) { c = c->get(p); if (!c) return none; }
    return *c;
  }

  // Nested objects with keys that contain, resemble or are made of separators.
  std::string path_key(Src& s, char sep) {
    switch (s.weigh({5, 2, 2, 1, 1, 1})) {
      case 0: return std::string(1 + s.draw(3), "bcd"[s.draw(3)]);
      case 1: return "";
      case 2: { std::string k; for (int n = 1 + s.draw(4); n; n--) { char c = "bcde"[s.draw(4)]; if (c != sep) k += c; } return k; }
      case 3: { std::string k = "b"; k += sep; if (s.flip()) k += "c"; return k; }
      case 4: return std::string(1 + s.draw(2), sep);
      default: return gen_key(s, {}, {});
    }
  }
  Val tree(Src& s, char sep, int depth) {
    if (!depth) return s.chance(1, 3) ? gen_val(s, Opt {1, 3}) : gen_scalar(s);
    switch (s.weigh({8, 1, 1})) {
      case 0: { Val v = Val::obj(); int n = 1 + s.draw(4); while (n--) { auto k = path_key(s, sep); v.o[k] = tree(s, sep, depth - 1); } return v; }
      case 1: { Val v = Val::arr(); int n = s.draw(4); while (n--) v.a.push_back(tree(s, sep, depth - 1)); return v; }
      default: return gen_scalar(s);
    }
  }

  std::string make_path(Src& s, Val const& doc, char sep) {
    std::string path;
    Val const* c = &doc;
    if (s.chance(1, 12)) path += sep;
    int steps = s.draw(7);
    for (int i = 0; i < steps; i++) {
      std::string k;
      auto ks = c && c->t == Val::Obj ? keys_of(*c) : std::vector<std::string> {};
      if (!ks.empty() && !s.chance(1, 10)) k = s.pick(ks);
      else if (c && c->t == Val::Arr && s.flip()) k = std::to_string(s.draw(4));
      else k = c && s.flip() ? probe_key(s, *c) : path_key(s, sep);
      c = c ? c->get(k) : nullptr;
      path += k;
      if (s.chance(1, 14)) path += sep;             // a doubled separator, or a trailing one
      if (i + 1 < steps) path += sep;
    }
    if (s.chance(1, 6)) path += sep;
    if (s.chance(1, 40)) path += std::string(65534 + s.draw(4), 'q');
    if (!path.empty() && s.chance(1, 15)) path.pop_back();
    return path;
  }

  template <class D>
  void look(Src& s, D const& d, Val const& doc, std::string const& path, char sep, std::string const& form) {
    auto parts = split(path, sep);
    auto& want = walk(doc, parts);
    auto msg = form + ": path " + eng::quote(path) + " separated by " + eng::quote(std::string(1, sep));
    // The view handed over need not be terminated nor be all of its buffer.
    std::string text = "x" + path + std::string(1, sep) + "b" + sep + "c";
    auto view = dart::shim::string_view {text.data() + 1, path.size()};
    NOTHROW(SAME(sep == '.' && s.flip() ? d.get_nested(view) : d.get_nested(view, sep), want, msg), msg);
    // Step by step through the public interface.
    NOTHROW({
      auto cur = d.get_nested("", sep);
      bool lost = false;
      for (auto& p : parts) {
        if (!cur.is_object() || !cur.has_key(sv(p))) { lost = true; break; }
        cur = decltype(cur)(cur[sv(p)]);
      }
      auto got = d.get_nested(view, sep);
      if (lost) CHECK(got.is_null(), msg + ": stepwise lookup gets lost");
      else CHECK(got == cur, msg + ": stepwise lookup");
    }, msg);
    // A prefix looked up first, the rest from there.
    size_t cut = parts.empty() ? 0 : s.draw(parts.size());
    std::string head, tail;
    for (size_t i = 0; i < parts.size(); i++) { auto& t = i < cut ? head : tail; t += parts[i]; t += sep; }
    NOTHROW({ auto mid = d.get_nested(sv(head), sep); if (mid.is_object()) SAME(mid.get_nested(sv(tail), sep), want, msg + ": in two lookups"); }, msg);
  }

  void run(Src& s) {
    char sep = s.chance(1, 20) ? (char)s.draw(256) : seps[s.draw(sizeof seps)];
    Val doc = tree(s, sep, 1 + s.draw(4));
    if (s.chance(7, 8) && doc.t != Val::Obj) doc = Val::obj({{"b", doc}, {"", Val::integer(1)}});
    NOTE(show(doc));
    auto h = build_heap(doc, &s);
    bool fin = false;
    auto p = build_either(doc, s, fin);
    auto b = build_subbuffer(doc, &s);
    for (int n = 2 + s.draw(4); n; n--) {
      auto path = make_path(s, doc, sep);
      NOTE("path " + eng::quote(path) + " by " + eng::quote(std::string(1, sep)));
      auto parts = split(path, sep);
      auto& want = walk(doc, parts);
      s.label(want.t == Val::Null ? "path: nothing there" : "path: found");
      for (auto& q : parts) if (q.empty()) { s.label("path: empty component"); break; }
      if (!path.empty() && path.back() == sep) s.label("path: trailing separator");
      if (parts.size() >= 2 && want.t != Val::Null) { s.label("path: found, several components"); s.nontrivial(); }
      if (doc.t == Val::Obj && parts.size() >= 2 && want.t == Val::Null) s.nontrivial();

      look(s, h, doc, path, sep, "heap");
      look(s, b, doc, path, sep, "buffer");
      look(s, p, doc, path, sep, fin ? "finalized packet" : "packet");
      if (doc.t == Val::Obj) {
        look(s, dart::heap::object(h), doc, path, sep, "heap::object");
        look(s, dart::buffer::object(b), doc, path, sep, "buffer::object");
        look(s, dart::packet::object(p), doc, path, sep, "packet::object");
      }
      { dart::heap::view v {h}; look(s, v, doc, path, sep, "heap::view"); }
      { dart::buffer::view v {b}; look(s, v, doc, path, sep, "buffer::view"); }
      { dart::packet::view v {p}; look(s, v, doc, path, sep, "packet::view"); }

      // What was found belongs to its receiver: it outlives the document, and changing it leaves the document alone.
      if (!s.draw(3)) {
        auto keep = [&](auto copy, char const* form) {
          auto found = copy.get_nested(sv(path), sep);
          copy = decltype(copy) {};
          SAME(found, want, std::string(form) + ": found value after its document is gone");
        };
        keep(build_heap(doc), "heap"); keep(build_subbuffer(doc), "buffer"); keep(build_packet(doc), "packet");
        auto found = h.get_nested(sv(path), sep);
        if (found.is_object()) { found.add_field("zz", 1); s.label("found value changed"); }
        else if (found.is_array()) { found.push_back(1); s.label("found value changed"); }
        SAME(h, doc, "document after the value found in it was changed");
      }
    }
  }
}

eng::Prop eng::prop {
  "D22",
  "random nested objects whose keys are empty, hold the separator or nearly collide, and paths made of present and missing components, "
  "empty components, leading, doubled and trailing separators, steps into arrays and scalars, any separator byte. "
  "Compared, for every form, typed objects and views, with a model walk, with stepwise lookup and with lookup in two parts. "
  "Non-trivial: an object and a path of two or more components.",
  run, 10000, 400000,
};
