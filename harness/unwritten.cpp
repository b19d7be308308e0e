// C26 writes on the intermediate file that fail when asked to.
#include <errno.h>
#include <stdio.h>

#include "scenario.hpp"

extern "C" {
std::size_t __real_fwrite(const void*, std::size_t, std::size_t, FILE*);

std::size_t __wrap_fwrite(const void* p, std::size_t s, std::size_t n, FILE* f) {
  if (s * n) {
    const std::size_t room = vh::write_fault.room(s * n);
    if (room != s * n) {
      f->_flags |= 0x20;  // the stream's error indicator
      errno = ENOSPC;
      return room ? __real_fwrite(p, 1, room, f) / s : 0;
    }
  }
  return __real_fwrite(p, s, n, f);
}
}
