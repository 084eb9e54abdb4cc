// D07: malformed JSON is rejected cleanly.
#include <pthread.h>
#include "dartlib.h"
#include <cmath>
using namespace dl;

struct outcome { int kind = 0; Val v; std::string what; };   // 0 ok, 1 parse_error, 2 type_error, 3 invalid_argument

template <class F>
static outcome attempt(F f, char const* who, std::string const& text) {
  outcome o;
  try { auto d = f(); o.v = extract(d); }
  catch (dart::parse_error const& e) { o.kind = 1; o.what = e.what(); }
  catch (dart::type_error const& e) { o.kind = 2; o.what = e.what(); }
  catch (std::invalid_argument const& e) { o.kind = 3; o.what = e.what(); }
  catch (std::exception const& e) { CHECK(false, std::string(who) + " threw an undocumented exception: " + e.what() + " for " + eng::quote(text, 300)); }
  if (o.kind) CHECK(!o.what.empty(), "errors have a message");
  return o;
}

static std::string tokens(Src& s) {
  static char const* tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "1", "-", "0", ".5", "1.", "1e", "1e5", "01", "+1", "--1", "true", "tru", "false", "null", "nul", "NaN", "Infinity", "-Inf",
    "\\u12", "\"\\u12\"", "\"\\ud800\"", "\"\\ud800\\u0041\"", "\"\\udc00\"", "\"\\x\"", "\"\n\"", "\"\x01\"", "'a'", "/*", "*/", "//", "\xef\xbb\xbf", "\xff", "\"\xff\"", "\"\xc3\"", " ", "\t", "\n", "\x0c", "1e400", "-1e400", "1e-400",
    "18446744073709551616", "{}", "[]", "\"\"", "{\"a\":1}", "[1,2]", "undefined", "0x10", "1_000", "\"", "\\"};
  std::string r; size_t n = 1 + s.draw(12);
  for (size_t i = 0; i < n; i++) r += tok[s.draw(sizeof tok / sizeof *tok)];
  return r;
}

static std::string damage(Src& s, std::string t) {
  size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; i++) {
    size_t at = t.empty() ? 0 : s.draw(t.size());
    switch (s.draw(9)) {
      case 0: t.resize(at); break;
      case 1: if (!t.empty()) t.erase(at, 1 + s.draw(3)); break;
      case 2: { static char const c[] = "{}[],:\"\\0-+.eEtfn /*\x01\n"; if (!t.empty()) t[at] = c[s.draw(sizeof c)]; break; }
      case 3: t.insert(at, tokens(s)); break;
      case 4: if (!t.empty()) t[at] = (char)s.draw(256); break;
      case 5: t += tokens(s); break;
      case 6: { size_t b = t.empty() ? 0 : s.draw(t.size()); if (b < at) std::swap(at, b); t.insert(at, t.substr(at, b - at)); break; } // splice
      case 7: { if (t.size() > 1) std::swap(t[at], t[(at + 1) % t.size()]); break; }
      default: t.erase(0, s.draw(4)); break;
    }
    if (t.size() > 20000) t.resize(20000);
  }
  return t;
}

static void judge(Src& s, std::string const& full) {
  // Exactly sized copy, so that reading past the end is seen.
  std::unique_ptr<char[]> mem {new char[full.size()]};
  memcpy(mem.get(), full.data(), full.size());
  dart::shim::string_view view {mem.get(), full.size()};
  auto h = attempt([&] { return dart::heap::from_json(view); }, "heap::from_json", full);
  auto b = attempt([&] { return dart::buffer::from_json(view); }, "buffer::from_json", full);

  // Independent verdict; both parsers stop at an embedded zero.
  auto text = full.substr(0, full.find('\0'));
  Val want; std::string err; JsonInfo info;
  bool valid = json_parse(text, want, err, &info);
  std::string at = " of " + eng::quote(full, 300);
  bool obj = valid && want.t == Val::Obj, root = valid && want.is_agg();
  if (!info.extreme) {
    if (!valid) { CHECK(h.kind != 0, "heap must reject the malformed text" + at + " (" + err + ")"); CHECK(b.kind != 0, "buffer must reject the malformed text" + at + " (" + err + ")"); }
    else if (info.long_key) { CHECK(h.kind && b.kind, "keys that cannot be represented are rejected"); }
    else {
      CHECK((h.kind == 0) == root, "heap acceptance" + at + ": " + h.what);
      CHECK((b.kind == 0) == obj, "buffer acceptance" + at + ": " + b.what);
      if (!root) CHECK(h.kind == 2, "a scalar root is a type error" + at);
      if (!obj) CHECK(b.kind == 2, "a non-object root is a type error" + at);
    }
    if (!h.kind) CHECK(near(h.v, want, 8), "what is accepted is what the text says" + at + ": " + diff(h.v, want));
  } else s.label("number at the conversion limits");
  if (h.kind == 0 && h.v.t == Val::Obj) { CHECK(b.kind == 0, "buffer rejects what heap accepts" + at + ": " + b.what); CHECK(h.v == b.v, "the two forms differ" + at + ": " + diff(b.v, h.v)); }
  if (b.kind == 0) CHECK(h.kind == 0, "heap rejects what buffer accepts" + at + ": " + h.what);
  s.label(!valid ? "malformed" : obj ? "valid object" : root ? "valid array" : "valid scalar");
  if (!valid && text.size() > 3) s.nontrivial();
  if (s.draw(3) == 2) {
    // Other entry points and dialects: they agree with each other.
    auto p = attempt([&] { return dart::packet::from_json(view, false); }, "packet::from_json", full);
    auto q = attempt([&] { return dart::packet::parse(view, true); }, "packet::parse", full);
    CHECK(p.kind == h.kind && q.kind == b.kind, "packet agrees with heap and buffer" + at);
    auto h2 = attempt([&] { return dart::heap::from_json<dart::parse_permissive>(view); }, "heap permissive", full);
    auto b2 = attempt([&] { return dart::buffer::from_json<dart::parse_permissive>(view); }, "buffer permissive", full);
    if (valid && !info.extreme) CHECK(h2.kind == h.kind, "the permissive dialect accepts all JSON" + at);
    if (h2.kind == 0 && h2.v.t == Val::Obj) CHECK(b2.kind == 0, "permissive buffer rejects what heap accepts" + at);
    if (b2.kind == 0) CHECK(h2.kind == 0, "permissive heap rejects what buffer accepts" + at);
  }
}

static void run(Src& s) {
  std::string t;
  switch (s.weigh({4, 3, 1, 1, 1})) {
    case 0: case 1: {
      Opt o; o.bytes = s.flip(); o.depth = 1 + s.draw(3); o.big = false; o.wide = false;
      JsonStyle st; st.ws = s.flip(); st.escapes = s.flip(); st.dups = s.draw(3) == 2; st.numforms = s.flip();
      t = damage(s, json_write(s.draw(5) == 4 ? gen_val(s, o) : gen_obj(s, o), &s, st));
      break;
    }
    case 2: t = tokens(s); break;
    case 3: { size_t n = s.draw(40); for (size_t i = 0; i < n; i++) t += (char)s.draw(256); break; }
    default: { // deep
      size_t n = s.draw(1500);
      std::string open = s.flip() ? "[" : s.flip() ? "{\"a\":" : "[{\"k\":[";
      s.label(n > 300 ? "deep:>300" : "deep:<=300");
      t = "{\"r\":";
      for (size_t i = 0; i < n; i++) t += open;
      if (s.flip()) {
        if (open.find('{') != std::string::npos || s.flip()) t += "1";
        std::string close; for (size_t i = open.size(); i-- > 0;) if (open[i] == '[') close += ']'; else if (open[i] == '{') close += '}';
        for (size_t i = 0; i < n; i++) t += close;
        t += "}";
      }
      if (s.flip()) t = damage(s, t);
    }
  }
  NOTE("text " + eng::quote(t, 600));
  judge(s, t);
}

static void once() {
  Src& s = *eng::current;
  static char const* bad[] = {"", " ", "{", "}", "[", "]", "{}}", "{},", "[1,]", "{\"a\":1,}", "{a:1}", "{\"a\" 1}", "{\"a\":}", "{\"a\"}", "[1 2]", "[,]", "[01]", "[1.]", "[.5]", "[1e]", "[+1]", "[--1]", "[-]",
    "[\"]", "[\"\\x\"]", "[\"\\u12g4\"]", "[\"\\ud800\"]", "[\"\\udc00\"]", "[\"\t\"]", "[tru]", "[nul]", "[falsee]", "[NaN]", "[Infinity]", "[1]x", "{\"a\":1} {}", "// c\n{}", "{/**/}", "['a']", "1", "\"a\"", "null", "true", "[1e400]", "{\"a\":1e400}", "\xef\xbb\xbf{}"};
  for (auto t : bad) judge(s, t);
  for (auto t : {"{\"a\":\"bcd\\u00e9\\n\",\"e\":[1,-2.5e3,true,false,null,{}]}", "[[[{\"x\":[1,2,{\"y\":\"z\"}]}]]]"}) {
    std::string full = t;
    for (size_t i = 0; i <= full.size(); i++) judge(s, full.substr(0, i));
    for (size_t i = 0; i < full.size(); i++) for (int c = 0; c < 256; c += 3) { auto m = full; m[i] = (char)c; judge(s, m); }
  }
}

// A million levels on a thread with the usual 8 MB of stack.
template <class F> static void on_small_stack(F f) {
  static F* g; g = &f;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8u << 20);
  pthread_t t; auto run = [] (void*) -> void* { (*g)(); return nullptr; };
  CHECK(!pthread_create(&t, &a, run, nullptr), "a thread"); pthread_join(t, nullptr);
}
static void probe_heap() { on_small_stack([] { std::string t(1000000, '['); try { dart::heap::from_json(t); } catch (dart::parse_error const&) {} }); }
static void probe_buffer() { on_small_stack([] { std::string t = "{\"a\":" + std::string(1000000, '['); try { dart::buffer::from_json(t); } catch (dart::parse_error const&) {} }); }

namespace eng {
  Prop prop = {
    "D07", "byte strings made by damaging valid JSON (truncation, deletion, insertion, splicing, byte changes), token soup, random bytes and deep nesting, given to every parser entry point in exactly sized memory; "
    "acceptance and value are compared with an independent strict parser and between both forms, under ASan/UBSan with leak accounting; non-trivial: a malformed text of more than 3 bytes",
    run, 20000, 500000, 10, 240, true
  };
}
static struct reg { reg() { eng::prop.once = once; eng::prop.known = {
    {"deep-json-heap", "parsing JSON nested a million levels deep into the mutable form overflows an 8 MB stack", probe_heap},
    {"deep-json-buffer", "parsing JSON nested a million levels deep into the immutable form overflows an 8 MB stack", probe_buffer}};
  eng::prop.assumptions = {"nesting up to about 4500 levels (deeper: see known_findings.txt)", "text after an embedded zero byte is ignored by both parsers"}; } } r_;
