#include "d26.h"
#include <iomanip>

template <class C> struct names { };
template <> struct names<char> { static std::vector<char> abc() { return {'a', 'b', '\0', '\xff', '\x80', 'A', 'c'}; } };
template <> struct names<wchar_t> { static std::vector<wchar_t> abc() { return {L'a', L'b', 0, 0x7fffffff, (wchar_t)-1, 0x100, 0x61000000}; } };
template <> struct names<char16_t> { static std::vector<char16_t> abc() { return {u'a', u'b', 0, 0xffff, 0xd800, 0x100, 0x6100}; } };
template <> struct names<char32_t> { static std::vector<char32_t> abc() { return {U'a', U'b', 0, 0xffffffffu, 0x10ffff, 0x100, 0x61000000}; } };

// Exactly as much memory as the view covers, so that any read past it is seen.
template <class C> struct Mem {
  std::unique_ptr<C[]> p; size_t n;
  Mem(std::basic_string<C> const& t, bool term = false) : p(new C[t.size() + term]), n(t.size()) { std::copy(t.begin(), t.end(), p.get()); if (term) p[n] = C(); }
};

static int sgn(int x) { return (x > 0) - (x < 0); }
template <class C> static std::string show(std::basic_string<C> const& t) {
  std::string r = "<"; for (auto c : t) { char b[12]; snprintf(b, 12, "%llx ", (unsigned long long)(std::make_unsigned_t<std::conditional_t<std::is_same<C, char>::value, char, std::conditional_t<sizeof(C) == 2, short, int>>>)c); r += b; } return r + ">";
}

template <class F> static std::string outcome(F f) {
  try { return std::to_string((long long)f()); } catch (std::out_of_range const&) { return "out_of_range"; } catch (std::exception const& e) { return e.what(); }
}
#define BOTH(a, b, what) do { auto x_ = outcome([&] { return (a); }); auto y_ = outcome([&] { return (b); }); CHECK(x_ == y_, std::string(what) + " gave " + x_ + " and the standard type " + y_ + ctx); } while (0)

template <class C> static void text_(std::string const&, dart::basic_string_view<C>, std::basic_string_view<C>, Src&, std::false_type) {}
template <class C> static void text_(std::string const& ctx, dart::basic_string_view<C> d, std::basic_string_view<C> e, Src& s, std::true_type) {
  std::basic_ostringstream<C> x, y;
  auto w = s.draw(3) * 4; bool left = s.flip();
  auto put = [&](auto& o, auto const& v) { o << std::setw(w) << std::setfill((C)'*'); if (left) o << std::left; o << v << std::setw(3) << 7 << (C)'|'; };
  put(x, d); put(y, e);
  CHECK(x.str() == y.str(), "stream output" + ctx);
}

template <class C> static void sv_case(Src& s) {
  using D = dart::basic_string_view<C>; using E = std::basic_string_view<C>; using S = std::basic_string<C>;
  auto abc = names<C>::abc();
  size_t letters = 1 + s.draw(abc.size());
  auto word = [&](size_t max) { S t; size_t n = s.draw(max + 1); for (size_t i = 0; i < n; i++) t += abc[s.draw(letters)]; return t; };
  S hay = word(s.flip() ? 3 : 10), nee;
  switch (s.draw(4)) { case 0: nee = word(2); break; case 1: nee = word(5); break;
    default: { size_t a = s.draw(hay.size() + 1), n = s.draw(hay.size() - a + 1); nee = hay.substr(a, n); if (s.draw(4) == 3 && nee.size()) nee[s.draw(nee.size())] = abc[s.draw(letters)]; } }
  std::string ctx = " on " + show(hay) + " with " + show(nee);
  NOTE("string views" + ctx);
  if (hay.size() && nee.size()) s.nontrivial();
  Mem<C> mh(hay), mn(nee), tn(nee, true), th(hay, true);
  bool null = hay.empty() && s.flip();
  D d = null ? D {} : D {mh.p.get(), mh.n}; E e = null ? E {} : E {mh.p.get(), mh.n};
  D dn {mn.p.get(), mn.n}; E en {mn.p.get(), mn.n};
  if (nee.empty() && s.flip()) { dn = D {}; en = E {}; }
  size_t const npos = E::npos;
  CHECK(D::npos == E::npos, "npos");

  // Making one.
  CHECK((size_t)D(tn.p.get()).size() == E(tn.p.get()).size() && D(tn.p.get()).data() == tn.p.get(), "from a terminated string" + ctx);
  { D x = hay; CHECK(x.data() == hay.data() && x.size() == hay.size(), "from a string" + ctx); D y = en; CHECK(y.data() == en.data() && y.size() == en.size(), "from a standard view" + ctx);
    E z = static_cast<E>(d); CHECK(z.data() == d.data() && z.size() == d.size(), "to a standard view" + ctx);
    if (!null) { S t = static_cast<S>(d); CHECK(t == hay, "to a string" + ctx); } }
  // Reading.
  CHECK(d.size() == e.size() && d.length() == e.size() && d.empty() == e.empty() && d.data() == e.data(), "size" + ctx);
  CHECK(d.max_size() >= hay.size(), "max_size");
  for (size_t i = 0; i < e.size() + 2; i++) { if (i < e.size()) CHECK(&d[i] == &e[i], "index" + ctx); BOTH(d.at(i), e.at(i), "at"); }
  BOTH(d.at(npos), e.at(npos), "at npos");
  if (e.size()) CHECK(&d.front() == &e.front() && &d.back() == &e.back(), "ends" + ctx);
  CHECK(S(d.begin(), d.end()) == hay && S(d.cbegin(), d.cend()) == hay, "iteration" + ctx);
  CHECK(S(d.rbegin(), d.rend()) == S(e.rbegin(), e.rend()) && S(d.crbegin(), d.crend()) == S(e.crbegin(), e.crend()), "reverse iteration" + ctx);
  text_(ctx, d, e, s, std::integral_constant<bool, sizeof(C) == 1 || std::is_same<C, wchar_t>::value>());
  // Narrowing and swapping.
  { size_t a = s.draw(e.size() + 1), b = s.draw(e.size() - a + 1);
    D x = d; E y = e; x.remove_prefix(a); y.remove_prefix(a); CHECK(x.data() == y.data() && x.size() == y.size(), "remove_prefix" + ctx);
    x.remove_suffix(b); y.remove_suffix(b); CHECK(x.data() == y.data() && x.size() == y.size(), "remove_suffix" + ctx);
    D z = dn; E w = en; x.swap(z); y.swap(w); CHECK(x.data() == y.data() && x.size() == y.size() && z.data() == w.data() && z.size() == w.size(), "swap" + ctx);
    x.swap(x); CHECK(x.data() == y.data() && x.size() == y.size(), "self swap" + ctx); }
  // Comparing.
  CHECK(sgn(d.compare(dn)) == sgn(e.compare(en)), "compare" + ctx);
  CHECK(sgn(d.compare(tn.p.get())) == sgn(e.compare(tn.p.get())), "compare with a terminated string" + ctx);
  CHECK((d == dn) == (e == en) && (d != dn) == (e != en) && (d < dn) == (e < en) && (d <= dn) == (e <= en) && (d > dn) == (e > en) && (d >= dn) == (e >= en), "comparison operators" + ctx);
  CHECK((d == nee) == (e == nee) && (nee == d) == (nee == e) && (d < nee) == (e < nee) && (nee < d) == (nee < e), "comparison with a string" + ctx);
  CHECK((d == tn.p.get()) == (e == tn.p.get()) && (tn.p.get() <= d) == (tn.p.get() <= e), "comparison with a terminated string" + ctx);
  CHECK(d.starts_with(dn) == (e.substr(0, en.size()) == en) && d.ends_with(dn) == (e.size() >= en.size() && e.substr(e.size() - en.size()) == en), "starts/ends with" + ctx);
  { E t = tn.p.get(); CHECK(d.starts_with(tn.p.get()) == (e.substr(0, t.size()) == t) && d.ends_with(tn.p.get()) == (e.size() >= t.size() && e.substr(e.size() - t.size()) == t), "starts/ends with a terminated string" + ctx); }
  for (auto c : abc) CHECK(d.starts_with(c) == (!e.empty() && e.front() == c) && d.ends_with(c) == (!e.empty() && e.back() == c), "starts/ends with a letter" + ctx);
  // Every position, and those around the end of the range of positions.
  std::vector<size_t> at; for (size_t i = 0; i <= e.size() + 2; i++) at.push_back(i);
  for (size_t i = 0; i < 3; i++) at.push_back(npos - i);
  at.push_back(npos - en.size()); at.push_back(npos - en.size() + 1); at.push_back(npos / 2); at.push_back((size_t)1 << 32);
  C const* cn = mn.p.get(); C const* ct = tn.p.get(); size_t nn = mn.n;
  C ch = abc[s.draw(letters)];
#define FIND(f) \
  CHECK(d.f(dn) == e.f(en) && d.f(ch) == e.f(ch) && d.f(ct) == e.f(ct), #f + ctx); \
  for (auto p : at) { auto h = [&] { return " at " + std::to_string(p) + ctx; }; CHECK(d.f(dn, p) == e.f(en, p), #f " gives " + std::to_string(d.f(dn, p)) + " not " + std::to_string(e.f(en, p)) + h()); CHECK(d.f(ch, p) == e.f(ch, p), #f " of a letter" + h()); \
    CHECK(d.f(ct, p) == e.f(ct, p), #f " of a terminated string" + h()); CHECK(d.f(cn, p, nn) == e.f(cn, p, nn), #f " of a counted string" + h()); }
  FIND(find) FIND(rfind) FIND(find_first_of) FIND(find_last_of) FIND(find_first_not_of) FIND(find_last_not_of)
#undef FIND
  for (auto p : at) for (int k = 0; k < 3; k++) {
    size_t n = at[s.draw(at.size())], p2 = at[s.draw(at.size())], n2 = at[s.draw(at.size())];
    std::string where = " at " + std::to_string(p) + "," + std::to_string(n) + "," + std::to_string(p2) + "," + std::to_string(n2);
    BOTH(d.substr(p, n).data() - d.data(), e.substr(p, n).data() - e.data(), "substr" + where);
    BOTH(d.substr(p, n).size(), e.substr(p, n).size(), "substr size" + where);
    BOTH(sgn(d.compare(p, n, dn)), sgn(e.compare(p, n, en)), "compare" + where);
    BOTH(sgn(d.compare(p, n, dn, p2, n2)), sgn(e.compare(p, n, en, p2, n2)), "compare parts" + where);
    BOTH(sgn(d.compare(p, n, ct)), sgn(e.compare(p, n, ct)), "compare with a terminated string" + where);
    size_t m = s.draw(nn + 1);
    BOTH(sgn(d.compare(p, n, cn, m)), sgn(e.compare(p, n, cn, m)), "compare with a counted string" + where);
    S o1(e.size() + 1, abc[1]), o2 = o1;
    std::unique_ptr<C[]> exact(new C[e.size() - std::min(p, e.size())]);
    BOTH(d.copy(&o1[0], n, p), e.copy(&o2[0], n, p), "copy" + where);
    CHECK(o1 == o2, "copied text" + where + ctx);
    if (p <= e.size()) d.copy(exact.get(), n, p);
  }
  BOTH(d.substr().size(), e.substr().size(), "substr");
}

void d26_sv(Src& s) {
  switch (s.weigh({4, 1, 1, 1})) {
    case 0: return sv_case<char>(s);
    case 1: s.label("wide"); return sv_case<wchar_t>(s);
    case 2: s.label("16 bit"); return sv_case<char16_t>(s);
    default: s.label("32 bit"); return sv_case<char32_t>(s);
  }
}
