// Property-based testing engine: choice tapes, forked workers, replay, shrinking, evidence.
// A property is a function of a tape of choices, so any failing case is its tape.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace eng {

  using u64 = uint64_t;
  using i64 = int64_t;

  class Src {
   public:
    // A number in [0, bound); bound 0 means the whole 64-bit range. 0 is the simplest choice.
    u64 draw(u64 bound);
    i64 range(i64 lo, i64 hi) { return (i64)((u64)lo + draw((u64)hi - (u64)lo + 1)); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool flip() { return draw(2); }
    // Index drawn with the given weights (the first is the simplest).
    unsigned weigh(std::initializer_list<unsigned> w);
    template <class C> auto const& pick(C const& c) { return c[draw(c.size())]; }

    // Classification: counts the cases in which the label occurred.
    void label(char const* name);
    // Declares the case non-trivial by the property's rule.
    void nontrivial() { nontriv = true; }
    // Human readable trace, kept only for samples and replays.
    bool verbose() const { return verb; }
    void note(std::string const& s);

    // internals
    bool gen = false, verb = false, nontriv = false, side = false; // side: a source of its own for a thread, not recorded
    u64 rng = 0;
    u64 const* in = nullptr;
    size_t in_len = 0, pos = 0;
    u64 hash = 0;
    u64 next();
  };

  // A fixed input known to fail; listed in known_findings.txt under its key it is reported but not held against the check.
  struct Known { char const* key; char const* text; void (*probe)(); };

  struct Prop {
    char const* id;
    char const* rule;         // how cases are made and what makes one non-trivial
    void (*run)(Src&);
    u64 quick_n;              // cases of the quick tier
    u64 thorough_n;
    double quick_min_s = 10;  // go on (with further cases) for at least this long
    double thorough_min_s = 240;
    bool leaks = true;        // a case must release everything it allocates
    int replays = 3;          // replays of a failing tape
    int need = 3;             // how many must fail again
    char const* level = "exploration";
    std::vector<std::string> assumptions = {};
    void (*once)() = nullptr; // fixed regression cases, run in a forked child before the search
    int workers = 8;
    std::vector<Known> known = {};
  };

  extern Prop prop;           // defined by the property's source file

  [[noreturn]] void fail(char const* file, int line, char const* what, std::string const& msg);
  extern Src* current;        // source of the running case

  // Allocation control (alloc.cc).
  void fault_arm(u64 nth, bool all = false); // the nth C++ allocation from now on (1-based), and if all every later one, fails; 0 counts only
  u64 fault_disarm();         // returns how many allocations happened since arming
  bool fault_hit();
  void fault_malloc(u64 n);   // the next malloc() of exactly n bytes fails
  bool fault_malloc_pending();
  void dirty(u64 salt);       // restart the deterministic fill pattern
  long live();                // live heap blocks

  std::string quote(std::string const& s, size_t max = 60);
  inline std::string num(i64 v) { return std::to_string(v); }
  u64 mix(u64 z);
}

#define CHECK(cond, msg) do { if (!(cond)) ::eng::fail(__FILE__, __LINE__, #cond, (msg)); } while (0)
#define NOTE(expr) do { if (::eng::current->verbose()) ::eng::current->note(expr); } while (0)
// The expression throws exactly the given type (or one derived from it).
#define THROWS(type, expr, msg) do { bool ok_ = false; std::string got_ = "nothing"; \
    try { (void)(expr); } catch (type const&) { ok_ = true; } \
    catch (std::exception const& e_) { got_ = e_.what(); } catch (...) { got_ = "other"; } \
    if (!ok_) ::eng::fail(__FILE__, __LINE__, "must throw " #type ": " #expr, std::string(msg) + " threw " + got_); } while (0)
#define NOTHROW(expr, msg) do { try { expr; } \
    catch (std::exception const& e_) { ::eng::fail(__FILE__, __LINE__, "must not throw: " #expr, std::string(msg) + " threw " + e_.what()); } } while (0)
