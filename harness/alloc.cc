// Dirty memory, allocation faults and live block counts.
// Linked with -Wl,--wrap=malloc,--wrap=posix_memalign,--wrap=aligned_alloc
#include "engine.h"
#include <new>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <cerrno>

extern "C" {
  void* __real_malloc(size_t);
  int __real_posix_memalign(void**, size_t, size_t);
  void* __real_aligned_alloc(size_t, size_t);
  int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}

namespace {
  std::atomic<uint64_t> salt {0}, ctr {0};
  std::atomic<long> blocks {0};
  bool armed = false, hit = false, rest = false;
  uint64_t left = 0, seen = 0, msize = 0;

  void fill(void* p, size_t n) {
    if (!p || n > (1u << 24)) return;
    uint64_t v = eng::mix(salt.load(std::memory_order_relaxed) ^ ctr.fetch_add(1, std::memory_order_relaxed));
    auto* c = (unsigned char*)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) memcpy(c + i, &v, 8);
    memcpy(c + i, &v, n - i);
  }
  bool inject() {
    if (!armed) return false;
    ++seen;
    if (left && !--left) { hit = true; if (rest) left = 1; return true; }
    return false;
  }
  void on_malloc(const volatile void*, size_t) { blocks.fetch_add(1, std::memory_order_relaxed); }
  void on_free(const volatile void* p) { if (p) blocks.fetch_sub(1, std::memory_order_relaxed); }
  struct install { install() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } } installed;
}

namespace eng {
  void fault_arm(u64 nth, bool all) { armed = true; hit = false; rest = all; left = nth; seen = 0; }
  u64 fault_disarm() { armed = false; return seen; }
  bool fault_hit() { return hit; }
  void fault_malloc(u64 n) { msize = n; }
  bool fault_malloc_pending() { return msize; }
  void dirty(u64 s) { salt = s; ctr = 0; }
  long live() { return blocks; }
}

extern "C" {
  void* __wrap_malloc(size_t n) { if (msize && n == msize) { msize = 0; errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); fill(p, n); return p; }
  int __wrap_posix_memalign(void** out, size_t a, size_t n) {
    if (inject()) return ENOMEM;
    int r = __real_posix_memalign(out, a, n);
    if (!r) fill(*out, n);
    return r;
  }
  void* __wrap_aligned_alloc(size_t a, size_t n) {
    if (inject()) return nullptr;
    void* p = __real_aligned_alloc(a, n);
    fill(p, n);
    return p;
  }
}

void* operator new(size_t n) {
  if (inject()) throw std::bad_alloc();
  void* p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  fill(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept {
  if (inject()) return nullptr;
  void* p = __real_malloc(n ? n : 1);
  fill(p, n);
  return p;
}
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
