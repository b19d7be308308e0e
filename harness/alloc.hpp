// Counts what is allocated with new, and processor time.
#pragma once
#include <cstdint>

namespace vh {
extern std::uint64_t g_live, g_peak, g_total, g_allocs;
std::uint64_t cpu_ns();
}  // namespace vh
