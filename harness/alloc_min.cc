// Live block counts only, for sanitizers that bring their own operator new.
#include "engine.h"
#include <atomic>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
namespace {
  std::atomic<long> blocks {0};
  void on_malloc(const volatile void*, size_t) { blocks.fetch_add(1, std::memory_order_relaxed); }
  void on_free(const volatile void* p) { if (p) blocks.fetch_sub(1, std::memory_order_relaxed); }
  struct install { install() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } } installed;
}
namespace eng {
  void fault_arm(u64, bool) {}
  u64 fault_disarm() { return 0; }
  bool fault_hit() { return false; }
  void fault_malloc(u64) {}
  bool fault_malloc_pending() { return false; }
  void dirty(u64) {}
  long live() { return blocks; }
}
