// C04: a formatted double reads back as the same double.
#include "hard.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

static void one(double v) {
  lexi::FormatFloat f(v);
  std::string t(f.data(), f.size());
  double r;
  oracle::Decimal d; bool p, e;
  if (!oracle::parse_numeral(t, d, p, e)) fail(oracle::showd(v) + " gives " + show(t) + ", not a decimal numeral");
  if (!oracle::read_double(t, r)) r = std::numeric_limits<double>::quiet_NaN();
  if (v == 0 ? r != 0 : gen::to_bits(r) != gen::to_bits(v)) {
    // the exact oracle has the last word
    bool good = exact::correctly_rounded<double>(d.digits.empty() ? "0" : d.digits, d.exp, v) && (v == 0 || d.neg == std::signbit(v));
    if (!good) fail(oracle::showd(v) + " gives " + show(t) + ", which reads back as " + oracle::showd(r));
  }
}
static void public_one(double v) {
  one(v);
  lexi::FormatFloat f(v);
  std::string t(f.data(), f.size());
  std::string g = lexi::lexi(v);
  CHECK(g == t, "lexi() gives " + show(g) + ", FormatFloat " + show(t));
  CHECK(lexi::string(v) == t, "string() gives " + show(lexi::string(v)) + ", FormatFloat " + show(t));
}

PROP(any_double, 70000000, 900000000) {
  double v = gen::finite(s);
  s.desc([&] { return oracle::showd(v); });
  if (v != 0) s.nontrivial(gen::to_bits(v));
  if (std::fabs(v) < 2.3e-308) s.cls("subnormal or zero");
  public_one(v);
}
PROP(raw_double, 90000000, 1500000000) {
  u64 u = s.bits();
  if ((u & gen::INF_BITS) == gen::INF_BITS) u &= ~(u64(1) << 62);
  s.desc([&] { return oracle::showd(gen::from_bits(u)); });
  s.nontrivial(u);
  one(gen::from_bits(u));
}
PROP_NOFUZZ(near_short_decimals, 500000, 6000000) {
  double v = hard::hard_double(s);
  if (v == 0) { s.cls("none found"); return; }
  s.desc([&] { return oracle::showd(v); });
  s.nontrivial(gen::to_bits(v));
  for (int i = -1; i <= 1; i++) one(gen::from_bits(gen::to_bits(v) + u64(i64(i))));
  s.evaluated(2);
}
// every exponent with structured mantissas: few bits set or cleared, short, both ends
SWEEP(exponents, 2047) {
  u64 e = s.draw(2047), n = 0;
  auto go = [&](u64 m) { one(gen::from_bits(e << 52 | (m & ((u64(1) << 52) - 1)))); n++; };
  for (u64 i = 0; i < 600; i++) { go(i); go(0 - 1 - i); go((u64(1) << 51) + i); go((u64(1) << 51) - 1 - i); }
  for (int i = 0; i < 52; i++) for (int j = 0; j <= i; j++) { u64 m = u64(1) << i | u64(1) << j; go(m); go(~m); go(m - 1); go((u64(1) << i) - (u64(1) << j)); }
  for (int i = 0; i < 500; i++) go(s.bits());
  s.enumerated(n - 500); s.evaluated(n - 1);
}
// powers of ten and small multiples of them, with their neighbours
SWEEP(decimals, 640) {
  int k = int(s.draw(640)) - 330;
  u64 n = 0;
  char b[40];
  for (int d = 1; d < 1000; d++) {
    snprintf(b, sizeof b, "%de%d", d, k);
    u64 u = gen::to_bits(strtod(b, nullptr));
    for (i64 j = -3; j <= 3; j++) {
      u64 w = u + u64(j);
      if (w >= gen::INF_BITS) continue;
      one(gen::from_bits(w)); one(-gen::from_bits(w)); n += 2;
    }
  }
  s.enumerated(n); s.evaluated(n);
}
SWEEP(integers, 2000) {
  u64 i = s.draw(2000);
  for (u64 j = 0; j < 500; j++) { one(double(i * 500 + j)); one(double((u64(1) << 53) - i * 500 - j)); one(double(i * 500 + j) / 1000); }
  s.enumerated(1500); s.evaluated(1499);
}
