// Memory allocation under observation: counts blocks, bytes and the peak, and
// fails the requests it is told to.  It replaces malloc and its relatives for
// the whole program (operator new calls malloc), so include it in one unit.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <malloc.h>
#include <stdlib.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace alloc {
struct State {
  bool on = false;              // count and fail only inside the window
  long fail_at = -1;            // the request that fails; -1: none
  bool persistent = false;      // and all after it
  long requests = 0, failed = 0;
  long blocks = 0, bytes = 0, peak = 0, largest = 0;
};
static thread_local State the_state;        // every thread counts its own
inline State &state() { return the_state; }
inline bool refuse(size_t n) {
  State &s = state();
  if (!s.on) return false;
  long k = s.requests++;
  if (long(n) > s.largest) s.largest = long(n);
  if (s.fail_at < 0 || k < s.fail_at || (k > s.fail_at && !s.persistent)) return false;
  s.failed++;
  errno = ENOMEM;
  return true;
}
inline void *gained(void *p) {
  State &s = state();
  if (p && s.on) { s.blocks++; s.bytes += long(malloc_usable_size(p)); if (s.bytes > s.peak) s.peak = s.bytes; }
  return p;
}
inline void lost(void *p) {
  State &s = state();
  if (p && s.on) { s.blocks--; s.bytes -= long(malloc_usable_size(p)); }
}
// Everything between the two is counted.
inline void start(long fail_at = -1, bool persistent = false) {
  State &s = state();
  s = State();
  s.fail_at = fail_at; s.persistent = persistent; s.on = true;
}
inline State stop() { State r = state(); state().on = false; r.on = false; return r; }
}  // namespace alloc

extern "C" {
void *malloc(size_t n) noexcept { return alloc::refuse(n) ? nullptr : alloc::gained(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) noexcept { return alloc::refuse(n * m) ? nullptr : alloc::gained(__libc_calloc(n, m)); }
void *realloc(void *p, size_t n) noexcept {
  if (alloc::refuse(n)) return nullptr;
  alloc::lost(p);
  void *q = __libc_realloc(p, n);
  if (!q && n) { alloc::gained(p); return nullptr; }
  return alloc::gained(q);
}
void *memalign(size_t a, size_t n) noexcept { return alloc::refuse(n) ? nullptr : alloc::gained(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) noexcept { void *q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
void free(void *p) noexcept { alloc::lost(p); __libc_free(p); }
}
