// D14: every accessor answers by type, the same way in every form.
#include "ops.h"
#include <functional>
using namespace dl;

namespace {
  enum Err { None, Type, Range, Other };
  char const* en(Err e) { return e == None ? "a value" : e == Type ? "type_error" : e == Range ? "out_of_range" : "another error"; }
  struct Out { Err e; Val v; std::string what; };

  template <class F> Out call(F&& f) {
    try { Val v = f(); return {None, v, ""}; }
    catch (dart::type_error const& e) { return {Type, {}, e.what()}; }
    catch (std::out_of_range const& e) { return {Range, {}, e.what()}; }
    catch (std::exception const& e) { return {Other, {}, e.what()}; }
  }
  // The answer wanted: a value, or one of the errors given.
  struct Want { Val v; bool val = true; bool type = false, range = false; };
  Want ok(Val v) { return {v, true, false, false}; }
  Want type_err() { return {{}, false, true, false}; }
  Want range_err() { return {{}, false, false, true}; }
  Want either_err() { return {{}, false, true, true}; }

  std::string who;
  void want(char const* expr, Out const& o, Want const& w) {
    if (w.val) { if (o.e != None) eng::fail(__FILE__, __LINE__, expr, who + ": threw " + std::string(en(o.e)) + " (" + o.what + "), wants " + show(w.v, 100)); if (!(o.v == w.v)) eng::fail(__FILE__, __LINE__, expr, who + ": " + diff(o.v, w.v)); }
    else if (!((o.e == Type && w.type) || (o.e == Range && w.range))) eng::fail(__FILE__, __LINE__, expr, who + ": gave " + (o.e == None ? show(o.v, 100) : std::string(en(o.e)) + " (" + o.what + ")") + ", wants " + (w.type ? w.range ? "an error" : "type_error" : "out_of_range"));
  }
#define GIVES(expr, w) want(#expr, call([&]() -> Val { return (expr); }), w)
  template <class D> Val X(D const& d) { return extract(d); }

  Val S(std::string s) { return Val::str(s); }
  Val I(i64 i) { return Val::integer(i); }
  Val D_(double d) { return Val::dec(d); }
  Val B(bool b) { return Val::boolean(b); }

  template <class D>
  void scalars(Src& s, D const& d, Val const& v) {
    bool str = v.t == Val::Str, in = v.t == Val::Int, de = v.t == Val::Dec, bo = v.t == Val::Bool, nu = v.t == Val::Null, ob = v.t == Val::Obj, ar = v.t == Val::Arr;
    using T = dart::packet::type;
    T t = str ? T::string : in ? T::integer : de ? T::decimal : bo ? T::boolean : nu ? T::null : ob ? T::object : T::array;
    CHECK(d.get_type() == t, who + ": get_type");
    CHECK(d.is_str() == str && d.is_integer() == in && d.is_decimal() == de && d.is_boolean() == bo && d.is_null() == nu && d.is_object() == ob && d.is_array() == ar, who + ": exactly one type predicate");
    CHECK(d.is_numeric() == (in || de) && d.is_aggregate() == (ob || ar) && d.is_primitive() == (!ob && !ar), who + ": type groups");
    CHECK((bool)d == (bo ? v.b : !nu), who + ": truth value");

    GIVES(S(dl::str(d.strv())), str ? ok(v) : type_err());
    GIVES(S(d.str()), str ? ok(S(v.s.c_str())) : type_err());
    GIVES(I(d.integer()), in ? ok(v) : type_err());
    GIVES(D_(d.decimal()), de ? ok(v) : type_err());
    GIVES(D_(d.numeric()), in ? ok(D_((double)v.i)) : de ? ok(v) : type_err());
    GIVES(B(d.boolean()), bo ? ok(v) : type_err());
    i64 oi = (i64)s.draw(0); double od = (double)s.range(-9, 9) / 4; bool ob2 = s.flip();
    static char const dflt[] = "fallback";
    CHECK(str ? d.str_or(dflt) != dflt && v.s.compare(0, std::string::npos, d.str_or(dflt), v.s.size()) == 0 : d.str_or(dflt) == dflt, who + ": str_or");
    CHECK(str || d.str_or(nullptr) == nullptr, who + ": str_or null");
    CHECK(dl::str(d.strv_or("other")) == (str ? v.s : "other"), who + ": strv_or");
    CHECK(d.integer_or(oi) == (in ? v.i : oi), who + ": integer_or");
    CHECK(D_(d.decimal_or(od)) == (de ? v : D_(od)), who + ": decimal_or");
    CHECK(D_(d.numeric_or(od)) == (in ? D_((double)v.i) : de ? v : D_(od)), who + ": numeric_or");
    CHECK(d.boolean_or(ob2) == (bo ? v.b : ob2), who + ": boolean_or");

    bool sized = str || ob || ar;
    GIVES(I(d.size()), sized ? ok(I(v.size())) : type_err());
    GIVES(B(d.empty()), sized ? ok(B(!v.size())) : type_err());
    if (ar) CHECK(d.capacity() >= v.size(), who + ": capacity");
    CHECK(&*(d.operator ->()) == &d, who + ": arrow");
  }

  // Lookups that work on every document type.
  template <class D>
  void lookups(Src& s, D const& d, Val const& v, Opt const& o) {
    bool ob = v.t == Val::Obj, ar = v.t == Val::Arr;
    size_t n = v.is_agg() ? v.size() : v.size();
    for (int t = 0; t < 4; t++) {
      size_t i = 0;
      switch (s.draw(5)) { case 0: i = s.draw(n + 1); break; case 1: i = n; break; case 2: i = n + 1; break; case 3: i = s.draw(0) >> s.draw(64); break; default: i = n ? n - 1 : 0; }
      bool in = ar && i < n;
      Want g = ar ? ok(in ? v.a[i] : Val::null()) : type_err(), a = ar ? in ? ok(v.a[i]) : range_err() : type_err();
      NOTE("  index " + std::to_string(i));
      GIVES(X(d[i]), g); GIVES(X(d.get(i)), g); GIVES(X(d.at(i)), a);
      if (i < (1u << 30)) { GIVES(X(d[(int)i]), g); GIVES(X(d.get((unsigned)i)), g); GIVES(X(d.at((int)i)), a); }
      if (i <= (size_t)INT64_MAX) {
        auto hi = dart::heap::make_integer(i); auto pi = dart::packet::make_integer(i); dart::heap::number ni {(i64)i}; auto bi = build_subbuffer(I(i)); dart::buffer::number bn {bi};
        GIVES(X(d[pi]), g); GIVES(X(d.get(hi)), g); GIVES(X(d.at(bi)), a); GIVES(X(d[ni]), g); GIVES(X(d.get(bn)), g); GIVES(X(d.at(ni)), a); GIVES(X(d[bi]), g); GIVES(X(d.at(hi)), a);
        GIVES(X(D(d).get(pi)), g); GIVES(X(D(d)[ni]), g); GIVES(X(D(d).at(pi)), a); GIVES(X(D(d).at(bn)), a);
      }
      GIVES(X(D(d)[i]), g); GIVES(X(D(d).get(i)), g); GIVES(X(D(d).at(i)), a); // expiring documents
    }
    for (int t = 0; t < 4; t++) {
      std::string k = ob ? probe_key(s, v, o) : gen_key(s, o, {});
      auto x = ob ? v.get(k) : nullptr;
      Want g = ob ? ok(x ? *x : Val::null()) : type_err(), a = ob ? x ? ok(*x) : range_err() : type_err(), h = ob ? ok(B(x)) : type_err();
      NOTE("  key " + eng::quote(k));
      GIVES(X(d[sv(k)]), g); GIVES(X(d[k]), g); GIVES(X(d.get(sv(k))), g); GIVES(X(d.get(k)), g); GIVES(X(d.at(sv(k))), a); GIVES(X(d.at(k)), a); GIVES(B(d.has_key(sv(k))), h); GIVES(B(d.has_key(k)), h);
      if (k.find('\0') == std::string::npos) { GIVES(X(d[k.c_str()]), g); GIVES(X(d.get(k.c_str())), g); GIVES(X(d.at(k.c_str())), a); GIVES(B(d.has_key(k.c_str())), h); }
      auto hk = dart::heap::make_string(sv(k)); auto pk = dart::packet::make_string(sv(k)); auto bk = build_subbuffer(S(k)); dart::heap::string sk {sv(k)}; dart::buffer::string bs {bk}; dart::packet fk {bk};
      GIVES(X(d[hk]), g); GIVES(X(d[pk]), g); GIVES(X(d[bk]), g); GIVES(X(d[sk]), g); GIVES(X(d[bs]), g); GIVES(X(d[fk]), g);
      GIVES(X(d.get(hk)), g); GIVES(X(d.get(bk)), g); GIVES(X(d.get(sk)), g); GIVES(X(d.get(bs)), g); GIVES(X(d.get(fk)), g);
      GIVES(X(d.at(hk)), a); GIVES(X(d.at(pk)), a); GIVES(X(d.at(bk)), a); GIVES(X(d.at(sk)), a); GIVES(X(d.at(bs)), a);
      GIVES(B(d.has_key(hk)), h); GIVES(B(d.has_key(bk)), h); GIVES(B(d.has_key(sk)), h); GIVES(B(d.has_key(fk)), h);
      GIVES(X(D(d)[sv(k)]), g); GIVES(X(D(d).get(k)), g); GIVES(X(D(d).at(sv(k))), a); GIVES(X(D(d).at(pk)), a); GIVES(X(D(d)[sk]), g); GIVES(X(D(d).get(bs)), g); GIVES(X(D(d).get(fk)), g); GIVES(X(D(d).at(bs)), a); GIVES(X(D(d)[bk]), g);
    }
    // Keys of no usable type
    Val odd = s.flip() ? gen_scalar(s, o) : s.flip() ? Val::obj() : Val::arr();
    if (odd.t != Val::Str && odd.t != Val::Int) {
      auto hk = build_heap(odd); auto pk = build_packet(odd); auto bk = build_subbuffer(odd);
      GIVES(X(d[hk]), type_err()); GIVES(X(d[pk]), type_err()); GIVES(X(d[bk]), type_err()); GIVES(X(d.get(hk)), type_err()); GIVES(X(d.get(bk)), type_err()); GIVES(X(d.at(pk)), type_err()); GIVES(X(d.at(bk)), type_err());
      GIVES(X(D(d).get(pk)), type_err()); GIVES(X(D(d)[hk]), type_err()); GIVES(X(D(d).at(bk)), type_err());
      CHECK(!d.has_key(hk) && !d.has_key(bk) && !d.has_key(pk), who + ": has_key of a key of another type");
    }
    // Ends
    Want fr = ar ? ok(n ? v.a.front() : Val::null()) : type_err(), bk = ar ? ok(n ? v.a.back() : Val::null()) : type_err();
    Want afr = ar ? n ? ok(v.a.front()) : range_err() : v.is_agg() || v.t == Val::Str ? n ? type_err() : either_err() : type_err(), abk = ar ? n ? ok(v.a.back()) : range_err() : afr;
    GIVES(X(d.front()), fr); GIVES(X(d.back()), bk); GIVES(X(d.at_front()), afr); GIVES(X(d.at_back()), abk);
    GIVES(X(D(d).front()), fr); GIVES(X(D(d).back()), bk); GIVES(X(D(d).at_front()), afr); GIVES(X(D(d).at_back()), abk);
    // Walking the wrong type
    if (!v.is_agg()) { GIVES((d.begin(), B(1)), type_err()); GIVES((d.values(), B(1)), type_err()); }
    if (!ob) { GIVES((d.keys(), B(1)), type_err()); GIVES((d.find("x"), B(1)), type_err()); GIVES((d.find_key("x"), B(1)), type_err()); GIVES((d.key_begin(), B(1)), type_err()); GIVES((d.kvbegin(), B(1)), type_err()); }
  }

  // Lenient lookups: mutable and generic documents only.
  template <class D>
  void lenient(Src& s, D const& d, Val const& v, Opt const& o) {
    bool ob = v.t == Val::Obj, ar = v.t == Val::Arr; size_t n = v.size();
    Val def = gen_scalar(s, o);
    auto sub = [&](auto&& f) { return give<D>(s, def, std::forward<decltype(f)>(f)); };
    for (int t = 0; t < 3; t++) {
      size_t i = s.flip() ? s.draw(n + 2) : s.draw(0) >> s.draw(64);
      Want w = ok(ar && i < n ? v.a[i] : def);
      GIVES(X(sub([&](auto&& x) -> D { return d.get_or(i, std::forward<decltype(x)>(x)); })), w);
      if (i < (1u << 30)) GIVES(X(sub([&](auto&& x) -> D { return d.get_or((int)i, std::forward<decltype(x)>(x)); })), w);
      if (i <= (size_t)INT64_MAX) {
        auto pi = D::make_integer(i); typename D::number ni {(i64)i};
        GIVES(X(sub([&](auto&& x) -> D { return d.get_or(pi, std::forward<decltype(x)>(x)); })), w);
        GIVES(X(sub([&](auto&& x) -> D { return d.get_or(ni, std::forward<decltype(x)>(x)); })), w);
      }
      std::string k = ob ? probe_key(s, v, o) : gen_key(s, o, {});
      auto y = ob ? v.get(k) : nullptr;
      Want kw = ok(y ? *y : def);
      GIVES(X(sub([&](auto&& x) -> D { return give_key<D>(s, k, [&](auto const& key) -> D { return d.get_or(key, std::forward<decltype(x)>(x)); }); })), kw);
    }
    Val odd = s.flip() ? gen_scalar(s, o) : Val::arr();
    if (odd.t != Val::Str && odd.t != Val::Int) { auto k = conv<D>::mk(odd); GIVES(X(sub([&](auto&& x) -> D { return d.get_or(k, std::forward<decltype(x)>(x)); })), ok(def)); }
    GIVES(X(sub([&](auto&& x) -> D { return d.front_or(std::forward<decltype(x)>(x)); })), ok(ar && n ? v.a.front() : def));
    GIVES(X(sub([&](auto&& x) -> D { return d.back_or(std::forward<decltype(x)>(x)); })), ok(ar && n ? v.a.back() : def));
  }

  template <class D>
  void all(Src& s, D const& d, Val const& v, Opt const& o) { scalars(s, d, v); lookups(s, d, v, o); SAME(d, v, who + ": afterwards"); }

  void run(Src& s) {
    Opt o; o.depth = s.draw(3); o.big = s.draw(40) == 39; o.wide = s.draw(8) == 7; o.nonfinite = true;
    Val v;
    switch (s.weigh({3, 3, 4, 1})) { case 0: v = gen_obj(s, o); break; case 1: v = gen_arr(s, o); break; case 2: v = gen_scalar(s, o); break; default: v = Val::str(gen_str(s, o)); }
    s.label(tname(v.t)); label_val(s, v);
    if (!v.is_agg() || v.size()) s.nontrivial();
    NOTE("document " + show(v, 500));
    auto h = build_heap(v, &s); auto b = build_subbuffer(v, &s); auto pm = build_packet(v, &s); dart::packet pf {build_subbuffer(v, &s)};
    who = "heap"; all(s, h, v, o); lenient(s, h, v, o);
    who = "buffer"; all(s, b, v, o);
    who = "packet"; all(s, pm, v, o); lenient(s, pm, v, o);
    who = "finalized packet"; all(s, pf, v, o); lenient(s, pf, v, o);
    CHECK(!h.is_finalized() && b.is_finalized() && !pm.is_finalized() && pf.is_finalized(), "is_finalized");
  }
}

namespace eng {
  Prop prop = {
    "D14", "random documents of every type in four forms (heap, buffer, mutable and finalized packet): every type predicate, strict and lenient accessor, index and key lookup (present, absent, near-miss, out of range, of the wrong type; "
    "as native values, strings, numbers and documents; on lasting and expiring documents) against the value or documented error the model demands; non-trivial: a scalar or a non-empty aggregate",
    run, 1500, 50000
  };
}
