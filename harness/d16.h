// D16 helpers: the outcome of an operation as text, and the same operation on two interfaces.
#pragma once
#include "ops.h"
#include <sstream>

namespace d16 {
  using namespace dl;

  // --- showing whatever an operation returns
  inline std::string sh(bool b) { return b ? "true" : "false"; }
  inline std::string sh(std::string const& s) { return "text " + eng::quote(s, 200); }
  inline std::string sh(dart::shim::string_view s) { return "text " + eng::quote(str(s), 200); }
  inline std::string sh(char const* s) { return s ? "text " + eng::quote(s, 200) : "no text"; }
  inline std::string sh(double d) { return show(Val::dec(d)); }
  template <class T, class = std::enable_if_t<std::is_integral<T>::value>> std::string sh(T i) { return "int " + std::to_string((long long)i); }
  inline std::string sh(dart::packet::type t) { return "type " + std::to_string((int)t); }
  inline std::string sh(Val const& v) { return show(v, 2000); }
  template <class T, class = decltype(std::declval<T const&>().get_type()), class = decltype(std::declval<T const&>().key_begin())>
  std::string sh(T const& d) { return show(extract<T>(d), 2000); }
  template <class T> auto shw(T const& t) -> std::string { return sh(t.dynamic()); }

  template <class F> std::string outcome(F&& f) {
    try { return "gives " + f(); }
    catch (dart::type_error const&) { return "type_error"; }
    catch (dart::state_error const&) { return "state_error"; }
    catch (dart::parse_error const&) { return "parse_error"; }
    catch (dart::validation_error const&) { return "validation_error"; }
    catch (std::out_of_range const&) { return "out_of_range"; }
    catch (std::invalid_argument const&) { return "invalid_argument"; }
    catch (std::logic_error const&) { return "logic_error"; }
    catch (std::runtime_error const&) { return "runtime_error"; }
    catch (std::bad_alloc const&) { return "bad_alloc"; }
  }

  extern std::string who;

  // The same operation through the typed and the untyped interface.
  template <class T, class D, class F>
  void both(int line, char const* what, T& t, D& u, F&& f) {
    auto a = outcome([&] { return f(t); });
    auto b = outcome([&] { return f(u); });
    if (a != b) eng::fail(__FILE__, line, what, who + ": typed " + a + ", untyped " + b);
  }
#define BOTH(...) ::d16::both(__LINE__, #__VA_ARGS__, t, u, [&](auto&& x) -> std::string { return (__VA_ARGS__); })
#define BOTHC(...) ::d16::both(__LINE__, #__VA_ARGS__, ct, cu, [&](auto&& x) -> std::string { return (__VA_ARGS__); })
#define VOID(...) ((__VA_ARGS__), std::string("done"))

  template <class X, class It> std::string pos(X const& x, It const& it) {
    if (it == x.end()) return "the end";
    size_t i = 0; for (auto j = x.begin(); !(j == it); ++j) if (++i > x.size()) return "a position outside";
    return "position " + std::to_string(i) + " of value " + sh(*it);
  }
  template <class It> std::string walk(It b, It e, size_t most = 100000) { std::string r; for (; b != e; ++b) { if (r.size() > most) return r; r += sh(*b) + "; "; } return r; }
  template <class It> std::string walk2(std::tuple<It, It> b, std::tuple<It, It> e) { std::string r; for (; std::get<0>(b) != std::get<0>(e); ++std::get<0>(b), ++std::get<1>(b)) r += sh(*std::get<0>(b)) + "=" + sh(*std::get<1>(b)) + "; "; if (std::get<1>(b) != std::get<1>(e)) r += "uneven"; return r; }

  // Every mode: how a document is held.
  enum Mode { HeapM, PackM, PackF, BufM };
  inline dart::heap hold_heap(Val const& v) { return build_heap(v); }

  void reads_heap(Src& s, Val const& v, dart::heap const& d, Opt const& o);
  void reads_packet(Src& s, Val const& v, dart::packet const& d, Opt const& o);
  void reads_buffer(Src& s, Val const& v, dart::buffer const& d, Opt const& o);
  void muts_heap(Src& s, Val v, Opt const& o);
  void muts_packet(Src& s, Val v, bool fin, Opt const& o);
  void make_heap(Src& s, Opt const& o);
  void make_packet(Src& s, Opt const& o);
  void make_buffer(Src& s, Opt const& o);
}
