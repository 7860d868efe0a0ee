// The intrinsics of Microsoft's compiler the library uses, as documented.
#pragma once
static inline unsigned long long _umul128(unsigned long long a, unsigned long long b, unsigned long long *high) {
  unsigned __int128 p = (unsigned __int128)a * b;
  *high = (unsigned long long)(p >> 64);
  return (unsigned long long)p;
}
// uint64_t is unsigned long here, unsigned long long there
static inline unsigned long _umul128(unsigned long a, unsigned long b, unsigned long *high) {
  unsigned __int128 p = (unsigned __int128)a * b;
  *high = (unsigned long)(p >> 64);
  return (unsigned long)p;
}
static inline unsigned long long __umulh(unsigned long long a, unsigned long long b) { return (unsigned long long)((unsigned __int128)a * b >> 64); }
static inline unsigned char _BitScanReverse64(unsigned long *index, unsigned long long mask) {
  if (!mask) return 0;                  // *index is undefined then
  *index = 63 - (unsigned long)__builtin_clzll(mask);
  return 1;
}
static inline unsigned char _BitScanForward64(unsigned long *index, unsigned long long mask) {
  if (!mask) return 0;
  *index = (unsigned long)__builtin_ctzll(mask);
  return 1;
}
static inline unsigned char _BitScanReverse(unsigned long *index, unsigned long mask) {
  unsigned m = (unsigned)mask;
  if (!m) return 0;
  *index = 31 - (unsigned long)__builtin_clz(m);
  return 1;
}
#ifndef __assume
#define __assume(x) __builtin_unreachable()
#endif
