// C25: extended-precision helpers match exact arithmetic.
#include "exact.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/pow.hpp>
using namespace pbt;
using lexi::detail::DiyFp;
using boost::multiprecision::cpp_int;

static std::string name(const DiyFp &d) { char b[80]; snprintf(b, sizeof b, "%llu * 2^%d", (unsigned long long)d.f, d.e); return b; }
// a.f * 2^a.e == f * 2^e, exactly (f up to 2^66)
static bool equals(const DiyFp &a, u128 f, long e) {
  if (a.f == 0 || f == 0) return a.f == 0 && f == 0;
  u128 x = a.f; long ex = a.e;
  while (!(x & 1)) { x >>= 1; ex++; }
  while (!(f & 1)) { f >>= 1; e++; }
  return x == f && ex == e;
}
static void decompose(double v) {
  DiyFp d(v);
  u64 u = gen::to_bits(std::fabs(v)), m = u & ((u64(1) << 52) - 1), b = u >> 52;
  CHECK(d.f == (b ? m | u64(1) << 52 : m) && d.e == (b ? int(b) - 1075 : -1074), oracle::showd(v) + " decomposes into " + name(d));
}
static void normal(u64 f, int e) {                      // up to 53 bits
  DiyFp n = DiyFp(f, e).normalize();
  CHECK(n.f >> 63, name(DiyFp(f, e)) + " normalizes to " + name(n) + ", whose top bit is clear");
  CHECK(equals(n, f, e), name(DiyFp(f, e)) + " normalizes to " + name(n));
}
static void boundary(u64 f, int e) {                    // up to 54 bits
  DiyFp n = DiyFp(f, e).normalizeBoundary();
  CHECK(n.f >> 63, name(DiyFp(f, e)) + " normalizes as boundary to " + name(n) + ", whose top bit is clear");
  CHECK(equals(n, f, e), name(DiyFp(f, e)) + " normalizes as boundary to " + name(n));
}
static void boundaries(double v) {
  v = std::fabs(v);
  if (v == 0) return;
  decompose(v);
  u64 u = gen::to_bits(v), m = u & ((u64(1) << 52) - 1), b = u >> 52;
  u64 f = b ? m | u64(1) << 52 : m; int e = b ? int(b) - 1075 : -1074;
  normal(f, e); boundary(f, e); boundary(2 * f + 1, e - 1);
  DiyFp lo, hi;
  DiyFp(v).normalizedBoundaries(&lo, &hi);
  CHECK(lo.e == hi.e, oracle::showd(v) + ": boundaries of different exponents");
  CHECK(hi.f >> 63, oracle::showd(v) + ": the upper boundary " + name(hi) + " is not normal");
  CHECK(equals(hi, u128(f) * 2 + 1, e - 1), oracle::showd(v) + ": the upper boundary is " + name(hi));
  bool closer = m == 0 && b > 1;        // the lower neighbour has half the spacing
  CHECK(closer ? equals(lo, u128(f) * 4 - 1, e - 2) : equals(lo, u128(f) * 2 - 1, e - 1), oracle::showd(v) + ": the lower boundary is " + name(lo));
}
static void product(u64 a, int ea, u64 b, int eb) {
  DiyFp r = DiyFp(a, ea) * DiyFp(b, eb);
  u128 p = u128(a) * b;
  u64 h = u64(p >> 64), l = u64(p);
  u64 want = h + (l >> 63);
  CHECK(r.e == ea + eb + 64 && r.f == want, name(DiyFp(a, ea)) + " times " + name(DiyFp(b, eb)) + " gives " + name(r) + ", not " + name(DiyFp(want, ea + eb + 64)));
}
PROP(doubles, 60000000, 1500000000) { double v = gen::finite(s); s.desc([&] { return oracle::showd(v); }); s.nontrivial(gen::to_bits(v)); boundaries(v); decompose(v); }
PROP(raw_doubles, 60000000, 1500000000) { double v = gen::from_bits(s.bits() % gen::INF_BITS); s.desc([&] { return oracle::showd(v); }); s.nontrivial(gen::to_bits(v)); boundaries(v); }
static u64 word(Src &s) {
  switch (s.draw(8)) {
    case 7: return gen::const_int(s);
    case 0: return s.flip() ? u64(0) - s.draw(5) : s.draw(5);
    case 1: return u64(1) << s.draw(64);
    case 2: return ~(u64(1) << s.draw(64));
    case 3: return (u64(1) << s.draw(64)) - 1;
    case 4: return (s.flip() ? 0xffffffffULL : s.draw(0x100000000ULL)) << 32 | (s.flip() ? 0xffffffffULL : s.flip() ? 0x80000000ULL : s.draw(0x100000000ULL));
    case 5: return s.bits() | u64(1) << 63;
    default: return s.bits();
  }
}
PROP(products, 90000000, 2000000000) {
  u64 a = word(s), b = word(s); int x = int(s.range(-1200, 1200)), y = int(s.range(-1200, 1200));
  s.desc([&] { return name(DiyFp(a, x)) + " times " + name(DiyFp(b, y)); });
  s.nontrivial(mix(a) ^ b);
  product(a, x, b, y);
}
PROP(ties, 30000000, 500000000) {                       // products at and next to the middle between two results
  // b odd, a = inverse of b times (2^63 + j): the low half of the product is 2^63 + j
  u64 b = word(s) | 1, inv = b;
  for (int i = 0; i < 6; i++) inv *= 2 - b * inv;
  i64 j = s.range(-3, 3);
  u64 a = inv * ((u64(1) << 63) + u64(j));
  s.nontrivial(mix(a) ^ b);
  s.desc([&] { return name(DiyFp(a, 0)) + " times " + name(DiyFp(b, 0)); });
  product(a, 3, b, -7); product(b, 3, a, -7);
}
PROP(differences, 30000000, 500000000) {
  u64 a = word(s), b = word(s); int e = int(s.range(-1200, 1200));
  if (a < b) std::swap(a, b);
  DiyFp d = DiyFp(a, e) - DiyFp(b, e);
  s.nontrivial(mix(a) ^ b);
  CHECK(d.f == a - b && d.e == e, name(DiyFp(a, e)) + " minus " + name(DiyFp(b, e)) + " gives " + name(d));
}
PROP(normals, 30000000, 500000000) {
  u64 k = 1 + s.draw(54);
  u64 f = (word(s) | (s.flip() ? u64(1) << 63 : 0)) >> (64 - k); int e = int(s.range(-1300, 1300));
  if (f == 0) f = 1;
  s.nontrivial(mix(f) ^ u64(e));
  s.desc([&] { return name(DiyFp(f, e)); });
  if (f < u64(1) << 53) normal(f, e);
  boundary(f, e);
}
SWEEP(exponents, 2047) {
  u64 e = s.draw(2047) << 52, n = 0;
  for (u64 i = 0; i < 4000; i++) { boundaries(gen::from_bits(e + i)); if (e || i) boundaries(gen::from_bits(e + (u64(1) << 52) - 1 - i)); n += 2; }
  for (int i = 0; i < 52; i++) for (int j = 0; j <= i; j++) { u64 m = u64(1) << i | u64(1) << j; boundaries(gen::from_bits(e | m)); boundaries(gen::from_bits(e | (~m & ((u64(1) << 52) - 1)))); n += 2; }
  s.enumerated(n); s.evaluated(n - 1);
}
SWEEP(powers, 309) {
  int n = int(s.draw(309));
  double p = lexi::detail::pow10(n);
  CHECK(p > 0 && exact::correctly_rounded<double>("1", n, p), "pow10(" + oracle::dec_signed(n) + ") is " + oracle::showd(p));
  s.desc([&] { return "10^" + oracle::dec_signed(n); });
  s.enumerated(1);
}
