#pragma once
#include "d16.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace d16 {
  // Things that only some documents have.
  template <class D> struct has_or : std::true_type {};
  template <class V> struct is_buf : std::false_type {};
  template <template <class> class RC> struct is_buf<dart::basic_buffer<RC>> : std::true_type {};
  template <template <class> class RC> struct has_or<dart::basic_buffer<RC>> : std::false_type {};
  template <class D> struct is_pkt : std::false_type {};
  template <template <class> class RC> struct is_pkt<dart::basic_packet<RC>> : std::true_type {};
  template <class D> struct is_hp : std::false_type {};
  template <template <class> class RC> struct is_hp<dart::basic_heap<RC>> : std::true_type {};

  template <class X, class K> auto get_or_try(int, X const& x, K const& k, int d) -> decltype(sh(x.get_or(k, d))) { return sh(x.get_or(k, d)); }
  template <class X, class K> std::string get_or_try(long, X const&, K const&, int) { return "not offered"; }
  template <class X> auto front_or_try(int, X const& x, char const* d) -> decltype(sh(x.front_or(d))) { return sh(x.front_or(d)) + sh(x.back_or(d)); }
  template <class X> std::string front_or_try(long, X const&, char const*) { return "not offered"; }
  template <class X, class A> auto find_try(int, X const& x, A const& k) -> decltype(x.find(k), std::string()) { return pos(x, x.find(k)); }
  template <class X, class A> std::string find_try(long, X const&, A const&) { return "not offered"; }
  template <class X, class A> auto findk_try(int, X const& x, A const& k) -> decltype(x.find_key(k), std::string()) { auto it = x.find_key(k); return it == x.key_end() ? "the end" : sh(*it); }
  template <class X, class A> std::string findk_try(long, X const&, A const&) { return "not offered"; }
  template <class X> auto bytes_try(int, X const& x) -> decltype(x.get_bytes(), std::string()) { return sh(bytes_of(x.get_bytes())); }
  template <class X> std::string bytes_try(long, X const&) { return "not offered"; }
  template <class X> auto dup_try(int, X const& x) -> decltype(x.dup_bytes(), std::string()) { auto n = extract(dart::heap {}); (void)n; size_t len = 0; auto p = x.dup_bytes(len); auto q = x.dup_bytes(); return sh(std::string((char const*)p.get(), len)) + sh(memcmp(p.get(), q.get(), len) == 0) + sh(len); }
  template <class X> std::string dup_try(long, X const&) { return "not offered"; }
  template <class X> auto share_try(int, X const& x) -> decltype(x.share_bytes(std::declval<std::shared_ptr<gsl::byte const>&>()), std::string()) { std::shared_ptr<gsl::byte const> p; auto n = x.share_bytes(p); return sh(n) + sh(p ? std::string((char const*)p.get(), n) : std::string("nothing")); }
  template <class X> std::string share_try(long, X const&) { return "not offered"; }

  template <class C> std::string seq(C const& c) { std::string r; for (auto const& e : c) r += sh(e) + "; "; return r; }
  template <class C> std::string bag(C const& c) { std::vector<std::string> r; for (auto const& e : c) r.push_back(sh(e)); std::sort(r.begin(), r.end()); return seq(r); }
  template <class C> std::string prs(C const& c) { std::vector<std::string> r; for (auto const& e : c) r.push_back(sh(e.first) + "=" + sh(e.second)); std::sort(r.begin(), r.end()); return seq(r); }

  template <class T, class D> void common(Src& s, T const& ct, D const& cu, Val const& v) {
    SAME(ct.dynamic(), v, who + " dynamic()");
    BOTHC(sh(x.is_object()) + sh(x.is_array()) + sh(x.is_aggregate()) + sh(x.is_str()) + sh(x.is_integer()) + sh(x.is_decimal()) + sh(x.is_numeric()) + sh(x.is_boolean()) + sh(x.is_null()) + sh(x.is_primitive()));
    BOTHC(sh(x.get_type()));
    BOTHC(sh((bool)x));
    BOTHC(sh(x.is_finalized()));
    BOTHC(sh(x.is_view()));
    CHECK(ct.refcount() == ct.dynamic().refcount(), who + ": refcount");
    if (json_safe(v) && utf8_safe(v)) { BOTHC(sh(x.to_json())); BOTHC(sh(([&] { std::ostringstream os; os << x; return os.str(); })())); }
    else if (utf8_safe(v)) BOTHC(sh(x.template to_json<dart::write_nan>()));
    D back = ct; // implicit, as documented
    SAME(back, v, who + " conversion back");
    auto copy = ct;
    D moved = std::move(copy);
    SAME(moved, v, who + " conversion of an expiring wrapper");
    auto c2 = ct;
    D moved2 = std::move(c2).dynamic();
    SAME(moved2, v, who + " dynamic() of an expiring wrapper");
    // Views
    typename T::view tv = ct;
    typename D::view uv = cu;
    SAME(tv.dynamic(), v, who + " view");
    CHECK(tv.is_view() && !ct.is_view(), who + ": is_view");
    CHECK(tv.get_type() == uv.get_type(), who + ": type of the view");
    auto own = tv.as_owner();
    static_assert(std::is_same<decltype(own), T>::value, "owner of a view");
    SAME(own.dynamic(), v, who + " owner of the view");
    // Comparison
    bool self = cu == cu;
    CHECK((ct == cu) == self && (cu == ct) == self && (ct == ct) == self && (tv == cu) == self && (ct == tv) == self, who + ": equals itself untyped");
    CHECK((ct != cu) == !self && (cu != ct) == !self, who + ": !=");
    Val w = mutate(s, v);
    auto other = build_subbuffer(w);
    CHECK((ct == other) == (cu == other) && (other == ct) == (other == cu), who + ": comparison with another value");
    auto hother = build_heap(w);
    CHECK((ct == hother) == (cu == hother) && (hother == ct) == (hother == cu), who + ": comparison with another mutable value");
  }

  template <class D, class F> void with_key(Src& s, std::string const& k, F&& f) {
    switch (s.draw(8)) {
      case 0: f(k); return;
      case 1: f(sv(k)); return;
      case 2: if (k.find('\0') == std::string::npos) { f(k.c_str()); return; } f(k); return;
      case 3: f(dart::heap::make_string(sv(k))); return;
      case 4: f(dart::packet::make_string(sv(k))); return;
      case 5: f(build_subbuffer(Val::str(k))); return;
      case 6: f(dart::heap::string {sv(k)}); return;
      default: f(dart::buffer::string {build_subbuffer(Val::str(k))}); return;
    }
  }
  template <class D, class F> void with_index(Src& s, size_t i, F&& f) {
    switch (s.draw(i < 1000000 ? 7 : 1)) {
      case 0: f(i); return;
      case 1: f((int)i); return;
      case 2: f((unsigned short)i); return;
      case 3: f(dart::heap::make_integer(i)); return;
      case 4: f(dart::packet::make_integer(i)); return;
      case 5: f(build_subbuffer(Val::integer(i))); return;
      default: f(typename dart::heap::number {(int64_t)i}); return;
    }
  }

  template <class D> void read_object(Src& s, D const& cu, Val const& v, Opt const& o) {
    typename D::object const ct {cu};
    common(s, ct, cu, v);
    BOTHC(sh(x.size()) + sh(x.empty()));
    for (int j = 0; j < 4; j++) {
      auto k = probe_key(s, v, o);
      NOTE("key " + eng::quote(k));
      with_key<D>(s, k, [&](auto const& key) {
        BOTHC(sh(x.get(key))); BOTHC(sh(x[key])); BOTHC(sh(x.at(key))); BOTHC(sh(x.has_key(key)));
        BOTHC(get_or_try(0, x, key, 17));
        BOTHC(find_try(0, x, key)); BOTHC(findk_try(0, x, key));
      });
    }
    Val odd = gen_scalar(s, o);
    if (odd.t != Val::Str) { auto h = build_heap(odd); auto b = build_subbuffer(odd); BOTHC(sh(x.has_key(h))); BOTHC(sh(x.get(b))); BOTHC(sh(x[b])); BOTHC(sh(x.at(h))); }
    std::string path; int comps = s.draw(4); char sep = s.flip() ? '.' : '/';
    for (int j = 0; j < comps; j++) path += (j ? std::string(1, sep) : std::string()) + probe_key(s, v, o);
    BOTHC(sh(x.get_nested(sv(path), sep)));
    if (sep == '.') BOTHC(sh(x.get_nested(sv(path))));
    BOTHC(seq(x.keys())); BOTHC(seq(x.values()));
    BOTHC(walk(x.begin(), x.end())); BOTHC(walk(x.cbegin(), x.cend())); BOTHC(walk(x.rbegin(), x.rend())); BOTHC(walk(x.crbegin(), x.crend()));
    BOTHC(walk(x.key_begin(), x.key_end())); BOTHC(walk(x.rkey_begin(), x.rkey_end()));
    BOTHC(walk2(x.kvbegin(), x.kvend())); BOTHC(walk2(x.rkvbegin(), x.rkvend()));
    BOTHC(bytes_try(0, x)); BOTHC(dup_try(0, x)); BOTHC(share_try(0, x));
    // Sub-documents
    auto ks = keys_of(v);
    std::vector<std::string> sel; int n = s.draw(5); for (int j = 0; j < n; j++) sel.push_back(probe_key(s, v, o));
    std::vector<dart::shim::string_view> svs; for (auto& k : sel) svs.push_back(sv(k));
    { auto a = outcome([&] { return sh(ct.project(svs).dynamic()); }), b = outcome([&] { return sh(cu.project(svs)); }); CHECK(a == b, who + ": project: typed " + a + ", untyped " + b); }
    { auto a = outcome([&] { return sh(ct.project({"a", "b"}).dynamic()); }), b = outcome([&] { return sh(cu.project({"a", "b"})); }); CHECK(a == b, who + ": project list: typed " + a + ", untyped " + b); }
    auto k1 = gen_key(s, o, ks), k2 = gen_key(s, o, ks);
    { auto a = outcome([&] { return sh(ct.inject(sv(k1), 7, sv(k2), "seven").dynamic()); }), b = outcome([&] { return sh(cu.inject(sv(k1), 7, sv(k2), "seven")); }); CHECK(a == b, who + ": inject: typed " + a + ", untyped " + b); }
    // Containers
    BOTHC(prs(static_cast<std::map<std::string, D>>(x))); BOTHC(prs(static_cast<std::unordered_map<std::string, D>>(x)));
    BOTHC(prs(static_cast<std::map<std::string, int64_t>>(x)));
    BOTHC(prs(static_cast<std::multimap<std::string, std::string>>(x))); BOTHC(prs(static_cast<std::unordered_multimap<std::string, double>>(x)));
  }

  template <class D> void read_array(Src& s, D const& cu, Val const& v, Opt const& o) {
    typename D::array const ct {cu};
    common(s, ct, cu, v);
    BOTHC(sh(x.size()) + sh(x.empty())); BOTHC(sh(x.capacity() >= x.size()));
    size_t n = v.size();
    for (int j = 0; j < 4; j++) {
      size_t i = s.draw(5) ? s.draw(n + 2) : s.draw(0) >> s.draw(64);
      NOTE("index " + std::to_string(i));
      if (i > (size_t)INT64_MAX) { BOTHC(sh(x.get(i))); BOTHC(sh(x.at(i))); BOTHC(sh(x[i])); continue; }
      with_index<D>(s, i, [&](auto const& idx) {
        BOTHC(sh(x.get(idx))); BOTHC(sh(x[idx])); BOTHC(sh(x.at(idx)));
        BOTHC(get_or_try(0, x, idx, 17));
      });
    }
    Val odd = gen_scalar(s, o);
    if (odd.t != Val::Int) { auto h = build_heap(odd); auto b = build_subbuffer(odd); BOTHC(sh(x.get(b))); BOTHC(sh(x[h])); BOTHC(sh(x.at(b))); BOTHC(get_or_try(0, x, h, 3)); }
    BOTHC(sh(x.front()) + sh(x.back())); BOTHC(sh(x.at_front())); BOTHC(sh(x.at_back())); BOTHC(front_or_try(0, x, "else"));
    BOTHC(seq(x.values()));
    BOTHC(walk(x.begin(), x.end())); BOTHC(walk(x.cbegin(), x.cend())); BOTHC(walk(x.rbegin(), x.rend())); BOTHC(walk(x.crbegin(), x.crend()));
    BOTHC(seq(static_cast<std::vector<D>>(x))); BOTHC(seq(static_cast<std::deque<D>>(x))); BOTHC(seq(static_cast<std::list<D>>(x))); BOTHC(seq(static_cast<std::forward_list<D>>(x)));
    BOTHC(seq(static_cast<std::array<D, 2>>(x))); BOTHC(seq(static_cast<std::vector<std::string>>(x))); BOTHC(seq(static_cast<std::array<int64_t, 1>>(x)));
    BOTHC(bag(static_cast<std::set<std::string>>(x))); BOTHC(bag(static_cast<std::unordered_set<int64_t>>(x))); BOTHC(bag(static_cast<std::multiset<double>>(x))); BOTHC(bag(static_cast<std::unordered_multiset<std::string>>(x)));
  }

  template <class D> void read_string(Src& s, D const& cu, Val const& v, Opt const& o) {
    typename D::string const ct {cu};
    common(s, ct, cu, v);
    BOTHC(sh(x.size()) + sh(x.empty())); BOTHC(sh(x.str())); BOTHC(sh(x.strv()));
    CHECK(str(*ct) == v.s, who + ": dereference");
    CHECK(static_cast<std::string>(ct) == v.s, who + ": conversion to std::string");
    dart::shim::string_view view = ct; CHECK(str(view) == v.s, who + ": conversion to a view");
    for (int j = 0; j < 6; j++) { size_t i = s.draw(6) ? s.draw(v.s.size() + 2) : s.draw(0); CHECK(ct[i] == (i < v.s.size() ? v.s[i] : '\0'), who + ": character " + std::to_string(i)); }
    auto w = s.flip() ? v.s : gen_str(s, o);
    CHECK((ct == w) == (v.s == w) && (w == ct) == (v.s == w) && (ct != sv(w)) == (v.s != w), who + ": comparison with text");
  }

  template <class D> void read_number(Src& s, D const& cu, Val const& v) {
    typename D::number const ct {cu};
    common(s, ct, cu, v);
    BOTHC(sh(x.integer())); BOTHC(sh(x.decimal())); BOTHC(sh(x.numeric()));
    double n = v.t == Val::Int ? (double)v.i : v.d;
    CHECK(sh(*ct) == sh(n), who + ": dereference");
    if (v.t == Val::Int || std::abs(n) < 2e9) { int64_t conv = ct; CHECK(conv == (v.t == Val::Int ? v.i : (int64_t)v.d), who + ": conversion to int64_t"); }
    double dd = ct; CHECK(sh(dd) == sh(n), who + ": conversion to double");
    if (std::abs(n) < 2e9) { int conv = ct; CHECK(conv == (int)n, who + ": conversion to int"); }
    float ff = ct; CHECK(memcmp(&ff, &(float const&)(float)n, 4) == 0 || ff == (float)n, who + ": conversion to float");
    double d = (double)s.range(-40, 40) / 8; if (s.chance(1, 4)) d = gen_dec(s);
    long long i = s.chance(1, 3) ? gen_int(s) : s.range(-5, 5); short h = s.range(-300, 300); float fl = (float)s.range(-16, 16) / 4; unsigned char uc = s.draw(256); unsigned long long ull = s.draw(0);
#define ARITH(y) \
    CHECK(sh(ct + y) == sh(n + y), who + ": number + " #y); CHECK(sh(y + ct) == sh(y + n), who + ": " #y " + number"); \
    CHECK(sh(ct - y) == sh(n - y), who + ": number - " #y); CHECK(sh(y - ct) == sh(y - n), who + ": " #y " - number"); \
    CHECK(sh(ct * y) == sh(n * y), who + ": number * " #y); CHECK(sh(y * ct) == sh(y * n), who + ": " #y " * number"); \
    if (y) CHECK(sh(ct / y) == sh(n / y), who + ": number / " #y); if (n) CHECK(sh(y / ct) == sh(y / n), who + ": " #y " / number");
    ARITH(d) ARITH(i) ARITH(h) ARITH(fl) ARITH(uc) ARITH(ull)
  }

  template <class D> void read_flag(Src&, D const& cu, Val const& v, Src& s) {
    typename D::flag const ct {cu};
    common(s, ct, cu, v);
    BOTHC(sh(x.boolean())); CHECK(*ct == v.b, who + ": dereference"); bool b = ct; CHECK(b == v.b, who + ": conversion to bool");
    CHECK((ct == true) == v.b && (false == ct) == !v.b, who + ": comparison");
  }

  template <class D> void read_null(Src& s, D const& cu, Val const& v) {
    typename D::null const ct {cu};
    SAME(ct.dynamic(), v, who + " dynamic()");
    BOTHC(sh(x.is_object()) + sh(x.is_array()) + sh(x.is_aggregate()) + sh(x.is_str()) + sh(x.is_integer()) + sh(x.is_decimal()) + sh(x.is_numeric()) + sh(x.is_boolean()) + sh(x.is_null()) + sh(x.is_primitive()));
    BOTHC(sh(x.get_type())); BOTHC(sh((bool)x)); BOTHC(sh(x.is_view())); BOTHC(sh(x.to_json()));
    CHECK(ct == cu && cu == ct && ct == nullptr, who + ": equality");
    D back = ct; SAME(back, v, who + " conversion back");
    Val w = gen_scalar(s); auto h = build_heap(w);
    CHECK((ct == h) == (w.t == Val::Null) && (h != ct) == (w.t != Val::Null), who + ": comparison");
  }

  // Wrapping a value in a class of another type is refused.
  template <class D> void wrong(D const& d, Val const& v) {
#define WRONG(cls, okay) { auto r = outcome([&] { typename D::cls w {d}; return sh(w.dynamic()); }); \
      CHECK(r == ((okay) ? "gives " + sh(v) : std::string("type_error")), who + ": " #cls " made from it " + r); \
      auto q = outcome([&] { D e = d; typename D::cls w {std::move(e)}; return sh(w.dynamic()); }); CHECK(q == r, who + ": " #cls " made from it expiring " + q); }
    WRONG(object, v.t == Val::Obj) WRONG(array, v.t == Val::Arr) WRONG(string, v.t == Val::Str) WRONG(number, v.t == Val::Int || v.t == Val::Dec) WRONG(flag, v.t == Val::Bool) WRONG(null, v.t == Val::Null)
  }

  // Wrappers convert like the documents they wrap.
  template <class W, class From, class To> std::string convs(W const& w) { return outcome([&] { To t {w}; return sh(t.dynamic()) + sh(t.is_finalized()); }); }
  template <class D, class To> void across(D const& d, Val const& v) {
#define ACROSS(cls) { typename D::cls w {d}; auto a = outcome([&] { typename To::cls t {w}; return sh(t.dynamic()) + sh(t.is_finalized()); }), b = outcome([&] { To t {d}; return sh(t) + sh(t.is_finalized()); }); \
      CHECK(a == b, who + ": conversion of " #cls ": typed " + a + ", untyped " + b); }
    switch (v.t) { case Val::Obj: ACROSS(object) break; case Val::Arr: ACROSS(array) break; case Val::Str: ACROSS(string) break; case Val::Int: case Val::Dec: ACROSS(number) break; case Val::Bool: ACROSS(flag) break; default: break; }
  }

  template <class D> void reads(Src& s, Val const& v, D const& d, Opt const& o) {
    wrong(d, v);
    across<D, dart::heap>(d, v); across<D, dart::packet>(d, v); if (v.t == Val::Obj || is_buf<D>::value) across<D, dart::buffer>(d, v);
    switch (v.t) {
      case Val::Obj: return read_object(s, d, v, o);
      case Val::Arr: return read_array(s, d, v, o);
      case Val::Str: return read_string(s, d, v, o);
      case Val::Int: case Val::Dec: return read_number(s, d, v);
      case Val::Bool: return read_flag(s, d, v, s);
      default: return read_null(s, d, v);
    }
  }
}
