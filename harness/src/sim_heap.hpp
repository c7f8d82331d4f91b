#pragma once
#include <cstddef>
#include <cstdint>
namespace gsim::heap {
  extern int fill_mode; // 0 none, 1 zero, 2 0xFF, 3 huge double, 4 plausible double, 5+ random
  extern uint64_t layout, fill_seed, count, fail_at, fail_len, fail_min, failed, filled_bytes;
  extern thread_local bool active;
  void paint(void *p, size_t n);
} // namespace gsim::heap
