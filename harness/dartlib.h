// Bridges between the reference model and the library's public API.
#pragma once
#include <dart.h>
#include "model.h"

namespace dl {
  using namespace mdl;

  inline dart::shim::string_view sv(std::string const& s) { return {s.data(), s.size()}; }
  inline std::string str(dart::shim::string_view v) { return std::string(v.data(), v.size()); }
  inline std::string bytes_of(gsl::span<gsl::byte const> b) { return std::string((char const*)b.data(), b.size()); }

  // Reads a document through the public accessors only.
  template <class T>
  Val extract(T const& p) {
    int kinds = p.is_object() + p.is_array() + p.is_str() + p.is_integer() + p.is_decimal() + p.is_boolean() + p.is_null();
    CHECK(kinds == 1, "a value is of exactly one type");
    switch (p.get_type()) {
      case dart::packet::type::object: {
        Val v = Val::obj();
        size_t n = p.size(), seen = 0;
        auto k = p.key_begin();
        auto end = p.end();
        for (auto it = p.begin(); it != end; ++it, ++k) {
          auto key = *k;
          CHECK(key.is_str(), "object keys are strings");
          CHECK(++seen <= n, "iteration visits more pairs than size()");
          auto ins = v.o.emplace(str(key.strv()), extract<T>(*it));
          CHECK(ins.second, "object iteration yields a key twice: " + eng::quote(ins.first->first));
        }
        CHECK(k == p.key_end(), "key iteration ends with value iteration");
        CHECK(seen == n, "iteration visits size() pairs");
        return v;
      }
      case dart::packet::type::array: {
        Val v = Val::arr();
        size_t n = p.size();
        auto end = p.end();
        for (auto it = p.begin(); it != end; ++it) {
          CHECK(v.a.size() < n, "iteration visits more elements than size()");
          v.a.push_back(extract<T>(*it));
        }
        CHECK(v.a.size() == n, "iteration visits size() elements");
        return v;
      }
      case dart::packet::type::string: {
        auto s = p.strv();
        CHECK(s.data()[s.size()] == 0, "strings are terminated");
        CHECK(p.size() == s.size(), "string size");
        return Val::str(str(s));
      }
      case dart::packet::type::integer: return Val::integer(p.integer());
      case dart::packet::type::decimal: return Val::dec(p.decimal());
      case dart::packet::type::boolean: return Val::boolean(p.boolean());
      case dart::packet::type::null: return Val::null();
      default: CHECK(false, "unknown type"); return Val::null();
    }
  }
  extern template Val extract<dart::heap>(dart::heap const&);
  extern template Val extract<dart::buffer>(dart::buffer const&);
  extern template Val extract<dart::packet>(dart::packet const&);

  // Builds documents; with a source, by randomly chosen API routes.
  dart::heap build_heap(Val const& v, Src* s = nullptr);
  dart::packet build_packet(Val const& v, Src* s = nullptr);   // mutable form
  dart::buffer build_buffer(Val const& v, Src* s = nullptr);   // v must be an object
  // Any value as an immutable one (scalars and arrays live inside a one-key object).
  dart::buffer build_subbuffer(Val const& v, Src* s = nullptr);
  // A generic document in either state; non-objects finalize as sub-values.
  dart::packet build_either(Val const& v, Src& s, bool& finalized);
  int buffer_routes();
  dart::buffer build_buffer_route(Val const& v, int route, Src* s);
  bool json_safe(Val const& v);    // finite numbers
  bool valid_utf8(std::string const& s);
  bool utf8_safe(Val const& v);
}

#define SAME(got, want, msg) do { auto const& w_ = (want); auto g_ = ::dl::extract(got); \
    if (!(g_ == w_)) ::eng::fail(__FILE__, __LINE__, #got, std::string(msg) + ": " + ::mdl::diff(g_, w_)); } while (0)
