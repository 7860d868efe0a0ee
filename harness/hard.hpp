// Doubles whose boundaries (or themselves) lie extremely close to a decimal
// with few digits: the inputs on which rounding errors of a shortest-digits
// formatter show.  Found with a Euclid-like search for the first x with
// L <= a x mod M <= R.
#pragma once
#include "exact.hpp"
#include "gen.hpp"

namespace hard {
using namespace pbt;
using exact::cpp_int;

// smallest x >= 0 with l <= a x mod m <= r (0 <= l <= r < m), or -1
inline cpp_int first_in(cpp_int a, cpp_int m, cpp_int l, cpp_int r, int depth = 0) {
  if (l == 0) return 0;
  if (a == 0 || depth > 4000) return -1;
  if (2 * a > m) { a = m - a; std::swap(l, r); l = m - l; r = m - r; }
  cpp_int x = (l + a - 1) / a;
  if (a * x <= r) return x;
  cpp_int b = m % a;
  if (b != 0) b = a - b;
  cpp_int y = first_in(b, a, l % a, r % a, depth + 1);
  if (y < 0) return -1;
  return (l + m * y + a - 1) / a;
}

// The first double at or above m0 * 2^q (in its binade, below m1) for which
// (2m + off) * 2^(q-1) is within 2^-bits of a multiple of 10^k, relative to
// 10^k, on the chosen side (0 both, 1 above, 2 below).  0 if there is none.
inline u64 near_decimal(u64 m0, u64 m1, int q, int off, long k, unsigned bits, int side) {
  cpp_int A = 1, B = 1;
  if (q - 1 >= 0) A <<= unsigned(q - 1); else B <<= unsigned(1 - q);
  if (k >= 0) B *= exact::p10((unsigned long)k); else A *= exact::p10((unsigned long)-k);
  cpp_int t = B >> bits;
  cpp_int c = (cpp_int(2) * m0 + off) * A % B;
  cpp_int a = 2 * A % B;
  cpp_int lo = side == 1 ? cpp_int(0) : cpp_int(-t), hi = side == 2 ? cpp_int(0) : t;
  cpp_int l = (lo - c) % B, r = (hi - c) % B;
  if (l < 0) l += B;
  if (r < 0) r += B;
  cpp_int x;
  if (l > r) x = 0;                             // the interval wraps around zero
  else x = first_in(a, B, l, r);
  if (x < 0 || x + m0 >= m1) return 0;
  return u64(x) + m0;
}

// a random hard double, or 0
inline double hard_double(Src &s) {
  bool sub = s.chance(1, 16);
  int q = sub ? -1074 : int(s.range(-1074, 971));
  u64 lo = sub ? 1 : u64(1) << 52, hi = sub ? u64(1) << 52 : u64(1) << 53;
  if (sub) { u64 b = s.draw(52); lo = u64(1) << b; hi = lo * 2; }
  u64 m0 = lo + s.draw(hi - lo);
  static const int OFF[] = {1, -1, 0, 1, -1};
  int off = s.pick(OFF);
  double l10 = (std::log2(double(m0)) + q) * 0.30102999566398119521;
  long mag = long(std::floor(l10));             // v is about 10^mag
  long k = mag - long(s.draw(18));
  double l2 = std::log2(double(hi - lo));
  u64 b = u64(s.range(3, 12));
  unsigned bits = unsigned(std::max(1.0, l2 - double(b)));
  u64 m = near_decimal(m0, hi, q, off, k, bits, int(s.draw(3)));
  if (!m) m = near_decimal(lo, hi, q, off, k, bits, 0);
  if (!m) return 0;
  return std::ldexp(double(m), q);
}

}  // namespace hard
