// C22: floating-point classification agrees with IEEE 754 on every bit pattern.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/detail/ieee754.hpp>
using namespace pbt;
namespace ld = lexi::detail;

static void one(u64 u) {
  double v = gen::from_bits(u);
  u64 e = (u >> 52) & 2047, m = u & ((u64(1) << 52) - 1);
  bool neg = u >> 63, nan = e == 2047 && m, inf = e == 2047 && !m, zero = !(u << 1);
  auto is = [&](bool got, bool want, const char *what) { if (got != want) fail(std::string(what) + "(" + oracle::showd(v) + ") is " + (got ? "true" : "false")); };
  is(ld::isNan(v), nan, "isNan");
  is(ld::isInf(v), inf, "isInf");
  is(ld::isInfinity(v), inf && !neg, "isInfinity");
  is(ld::isNegativeInfinity(v), inf && neg, "isNegativeInfinity");
  is(ld::isFinite(v), e != 2047, "isFinite");
  is(ld::isZero(v), zero, "isZero");
  is(ld::isPositive(v), !neg, "isPositive");
}
PROP(any_double, 60000000, 1500000000) {
  double v = gen::anydouble(s);
  s.desc([&] { return oracle::showd(v); });
  s.nontrivial(gen::to_bits(v));
  one(gen::to_bits(v));
}
PROP(raw_bits, 60000000, 2000000000) { u64 u = s.bits(); s.desc([&] { return oracle::showd(gen::from_bits(u)); }); s.nontrivial(u); one(u); }
PROP(extreme_exponents, 60000000, 2000000000) {         // zero, subnormal, greatest, infinite and NaN
  static const u64 E[] = {0, 1, 2, 2045, 2046, 2047, 2047, 1023};
  u64 u = s.draw(2) << 63 | s.pick(E) << 52 | gen::mantissa(s);
  s.desc([&] { return oracle::showd(gen::from_bits(u)); });
  s.nontrivial(u);
  one(u);
}
// every sign and exponent with every mantissa of up to three bits set, or cleared
SWEEP(sparse, 4096) {
  u64 h = s.draw(4096) << 52, n = 0, M = (u64(1) << 52) - 1;
  auto go = [&](u64 m) { one(h | (m & M)); one(h | (~m & M)); n += 2; };
  go(0);
  for (int i = 0; i < 52; i++) for (int j = i; j < 52; j++) for (int k = j; k < 52; k++) go(u64(1) << i | u64(1) << j | u64(1) << k);
  for (u64 m = 0; m < 4096; m++) { go(m); go(m << 40); }
  s.enumerated(n); s.evaluated(n - 1);
}
SWEEP(neighbours, 64 * 2001) {                          // around every power of two of the bit pattern
  u64 i = s.draw(64 * 2001);
  u64 u = (u64(1) << (i % 64)) + i / 64 - 1000;
  one(u); one(~u); one(u | u64(1) << 63); one(u ^ gen::INF_BITS);
  s.enumerated(4); s.evaluated(3);
}
SWEEP_T(halves, 65536) {                                // all values of either half of the pattern
  u64 i = s.draw(65536);
  for (u64 j = 0; j < 65536; j++) { u64 w = i << 16 | j; one(w); one(w << 32); one(w << 32 | w); one(w << 32 | 0xffffffff); one(gen::INF_BITS | w); }
  s.enumerated(5 * 65536); s.evaluated(5 * 65536 - 1);
}
