// Exact arithmetic oracles for binary/decimal conversion.
#pragma once
#include "oracle.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <limits>

namespace exact {
using namespace pbt;
using boost::multiprecision::cpp_int;

inline cpp_int p10(unsigned long n) {
  static std::vector<cpp_int> t{cpp_int(1)};
  while (t.size() <= n && t.size() < 6000) t.push_back(t.back() * 10);
  if (n < t.size()) return t[n];
  return boost::multiprecision::pow(cpp_int(10), unsigned(n));
}

// An exact non-negative number a * 10^e10 * 2^e2.
struct Num { cpp_int a; long e10, e2; };
inline int cmp(const Num &x, const Num &y) {
  cpp_int l = x.a, r = y.a;
  long e10 = x.e10 - y.e10, e2 = x.e2 - y.e2;
  if (e10 >= 0) l *= p10((unsigned long)e10); else r *= p10((unsigned long)-e10);
  if (e2 >= 0) l <<= (unsigned long)e2; else r <<= (unsigned long)-e2;
  return l < r ? -1 : l > r ? 1 : 0;
}

template <class T> struct Fmt;
template <> struct Fmt<float> { static constexpr int p = 24, qmin = -149, qmax = 104; };
template <> struct Fmt<double> { static constexpr int p = 53, qmin = -1074, qmax = 971; };
template <> struct Fmt<long double> { static constexpr int p = 64, qmin = -16445, qmax = 16320; };
static_assert(std::numeric_limits<long double>::digits == 64, "x87 long double");

// r = m * 2^q exactly, canonical (m < 2^p; m >= 2^(p-1) unless q == qmin).
template <class T> void split(T r, u64 &m, int &q) {
  int e;
  T f = std::frexp(r, &e);                      // r = f * 2^e, f in [0.5, 1)
  q = e - Fmt<T>::p;
  if (r == 0) { q = Fmt<T>::qmin; m = 0; return; }
  if (q < Fmt<T>::qmin) q = Fmt<T>::qmin;
  m = u64(std::ldexp(f, e - q));
}

// Is |r| the value of |digits * 10^exp| rounded to nearest, ties to even?
template <class T> bool correctly_rounded(const std::string &digits, long exp, T r) {
  r = std::fabs(r);
  if (r != r) return false;
  std::string dg = digits;
  size_t z = dg.find_first_not_of('0');
  if (z == std::string::npos) return r == 0;
  dg.erase(0, z);
  while (dg.back() == '0') { dg.pop_back(); exp++; }
  long mag = long(dg.size()) + exp;             // 10^(mag-1) <= v < 10^mag
  if (mag > 5100) return std::isinf(r);
  if (mag < -5100) return r == 0;
  Num v{cpp_int(dg), exp, 0};
  constexpr int p = Fmt<T>::p;
  if (std::isinf(r)) return cmp(v, Num{(cpp_int(1) << (p + 1)) - 1, 0, Fmt<T>::qmax - 1}) >= 0;
  u64 m; int q;
  split(r, m, q);
  int up = cmp(v, Num{cpp_int(m) * 2 + 1, 0, q - 1});
  if (up > 0 || (up == 0 && (m & 1))) return false;
  if (m == 0) return true;
  int lo;
  if (m == (u64(1) << (p - 1)) && q > Fmt<T>::qmin) lo = cmp(v, Num{cpp_int(m) * 4 - 1, 0, q - 2});
  else lo = cmp(v, Num{cpp_int(m) * 2 - 1, 0, q - 1});
  return lo > 0 || (lo == 0 && !(m & 1));
}

// Exact decimal expansion of m * 2^q: digits and exponent.
inline void expand(const cpp_int &m, long q, std::string &digits, long &exp) {
  cpp_int x = m;
  exp = 0;
  if (q >= 0) x <<= (unsigned long)q;
  else { x *= boost::multiprecision::pow(cpp_int(5), unsigned(-q)); exp = q; }
  digits = x.str();
}

// What a Grisu2 formatter guarantees for the digits it writes for v > 0.
// Grisu2 works in 64-bit arithmetic: its rounding interval is the exact one
// less a margin of at most 2^-61 v at each end.  Inside that safe interval
//   - no decimal with fewer digits exists, and
//   - no decimal of the same length is closer to v (distances taken with an
//     error of at most 2^-59 v).
// Returns an empty string, or what is wrong.
inline std::string grisu_quality(double v, const std::string &digits, long exp) {
  u64 m; int q;
  split(v, m, q);
  // everything in units of 2^(q-2) * 2^-62, scaled to integers by 10^k
  cpp_int V = cpp_int(m) << 2, up = V + 2;
  cpp_int lo = (m == (u64(1) << 52) && q > -1074) ? cpp_int(V - 1) : cpp_int(V - 2);
  long s2 = q - 2 - 62;
  cpp_int v62 = V << 62, u62 = up << 62, l62 = lo << 62;
  cpp_int margin = V << 2, slack = V << 3;               // 2^-60 v, 2^-59 v
  cpp_int U = u62 - margin, L = l62 + margin;
  // common scale: multiply all by 10^a * 2^b so that 10^exp becomes an integer
  cpp_int unit = 1, D(digits);
  cpp_int scale = 1;
  if (exp >= 0) unit = p10((unsigned long)exp); else scale = p10((unsigned long)-exp);
  if (s2 >= 0) scale <<= (unsigned long)s2; else unit <<= (unsigned long)-s2;
  // value of out = D * unit; bounds times scale
  U *= scale; L *= scale; v62 *= scale; slack *= scale;
  cpp_int out = D * unit;
  auto inside = [&](const cpp_int &x) { return x >= L && x <= U; };
  cpp_int big = unit * 10;
  cpp_int top = (U / big) * big;
  if (digits.size() > 1 && inside(top) && top > 0) return "a shorter decimal identifies the value: " + cpp_int(top / unit).str() + "e" + std::to_string(exp);
  auto dist = [&](const cpp_int &x) { return x > v62 ? cpp_int(x - v62) : cpp_int(v62 - x); };
  for (int k = -1; k <= 1; k += 2) {
    cpp_int c = out + k * unit;
    if (inside(c) && dist(c) + slack < dist(out))
      return "a decimal of the same length is closer to the value: " + cpp_int(c / unit).str() + "e" + std::to_string(exp);
  }
  return "";
}

}  // namespace exact
