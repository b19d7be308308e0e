#include "alloc.hpp"

#include <malloc.h>

#include <algorithm>
#include <cstdlib>
#include <ctime>
#include <new>

namespace vh {
std::uint64_t g_live = 0, g_peak = 0, g_total = 0, g_allocs = 0;

std::uint64_t cpu_ns() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return static_cast<std::uint64_t>(t.tv_sec) * 1000000000ULL + static_cast<std::uint64_t>(t.tv_nsec);
}

namespace {
constexpr std::uint64_t kCap = 3ULL << 30;

void* counted_new(std::size_t n) {
  if (g_live + n > kCap) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  const std::size_t k = malloc_usable_size(p);
  g_live += k;
  g_total += k;
  ++g_allocs;
  g_peak = std::max(g_peak, g_live);
  return p;
}
void counted_delete(void* p) {
  if (!p) return;
  g_live -= malloc_usable_size(p);
  std::free(p);
}
}  // namespace
}  // namespace vh

void* operator new(std::size_t n) { return vh::counted_new(n); }
void* operator new[](std::size_t n) { return vh::counted_new(n); }
void operator delete(void* p) noexcept { vh::counted_delete(p); }
void operator delete[](void* p) noexcept { vh::counted_delete(p); }
void operator delete(void* p, std::size_t) noexcept { vh::counted_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { vh::counted_delete(p); }
