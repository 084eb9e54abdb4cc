// D18: independent handles to shared documents may be used from many threads.
#include "d18.h"
using namespace d18;

// ThreadSanitizer ignores fences. An acquire fence orders what follows after the releases that the thread's last relaxed load
// read from: the load's address is remembered and acquired at the fence.
extern "C" {
  void __tsan_acquire(void*);
  unsigned __real___tsan_atomic32_load(unsigned const volatile*, int);
  void __real___tsan_atomic_thread_fence(int);
  static thread_local void* loaded;
  __attribute__((no_sanitize("thread"))) unsigned __wrap___tsan_atomic32_load(unsigned const volatile* p, int mo) { loaded = (void*)p; return __real___tsan_atomic32_load(p, mo); }
  __attribute__((no_sanitize("thread"))) void __wrap___tsan_atomic_thread_fence(int mo) { if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED && loaded) __tsan_acquire(loaded); __real___tsan_atomic_thread_fence(mo); }
}

static void run(Src& s) {
  Opt o; o.negzero = false; o.depth = 2; o.width = 4; o.big = false; o.wide = false; o.bytes = false;
  switch (s.weigh({4, 2, 2})) {
    case 0: s.label("std::shared_ptr"); history<std::shared_ptr>(s, o); break;
    case 1: s.label("dart::skinny_ptr"); run_skinny(s, o); break;
    default: s.label("C interface"); run_c(s, o);
  }
}


eng::Prop eng::prop {
  "D18",
  "two to four threads, each with handles of its own to one or two shared documents in either state, run random programs (reading, copying, taking parts, iterating, changing, finalizing, lifting, comparing, raw bytes, typed handles, conversions, building, parsing, assigning, JSON, destroying, "
  "and handing handles to one another through a locked queue), over std::shared_ptr, dart::skinny_ptr and the C interface, under ThreadSanitizer; every thread's results must be what it would see alone, what the threads own must be released exactly once and nothing may leak. "
  "Non-trivial: at least two changes, state changes or destructions.",
  run, 3000, 100000, 10, 240, false, 40, 2,
};

// after the definition above, whose initialisation would undo it
namespace { struct reg { reg() { eng::prop.leaks = true; eng::prop.workers = 4; } } reg_; }
