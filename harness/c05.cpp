// C05: a formatted double has as few digits, and as close, as Grisu2 guarantees.
#include "hard.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

static u64 slow = 0;
static bool one(double v) {             // true if the digits are not simply the shortest, closest ones
  v = std::fabs(v);
  lexi::FormatFloat f(v);
  std::string t(f.data(), f.size());
  oracle::Decimal d; bool p, e;
  CHECK(oracle::parse_numeral(t, d, p, e), oracle::showd(v) + " gives " + show(t) + ", not a decimal numeral");
  CHECK(d.digits.size() <= 17, oracle::showd(v) + " gives " + show(t) + ", more than 17 digits");
  CHECK(!d.digits.empty(), oracle::showd(v) + " gives " + show(t));
  char b[40];
  auto r = std::to_chars(b, b + 40, v, std::chars_format::scientific);
  std::string x;
  long exp = 0;
  for (char *c = b; c < r.ptr; c++) {
    if (*c == 'e') { exp = atol(std::string(c + 1, r.ptr).c_str()); break; }
    if (*c != '.') x += *c;
  }
  exp -= long(x.size()) - 1;
  while (x.size() > 1 && x.back() == '0') { x.pop_back(); exp++; }
  if (x == d.digits && exp == d.exp) return false;
  std::string bad = exact::grisu_quality(v, d.digits, d.exp);
  CHECK(bad.empty(), oracle::showd(v) + " gives " + show(t) + ": " + bad);
  return true;
}
// trailing digits that are not significant: positional text of integers only pads with zeros
PROP(any_double, 40000000, 600000000) {
  double v = gen::posdouble(s);
  if (v == 0) return;
  s.desc([&] { return oracle::showd(v); });
  s.nontrivial(gen::to_bits(v));
  if (one(v)) s.cls("not the shortest, or not the closest; allowed for Grisu2");
}
PROP(raw_double, 50000000, 800000000) {
  u64 u = s.bits() >> 1;
  if (u >= gen::INF_BITS) u -= gen::INF_BITS;
  if (!u) return;
  s.desc([&] { return oracle::showd(gen::from_bits(u)); });
  s.nontrivial(u);
  if (one(gen::from_bits(u))) s.cls("not the shortest, or not the closest; allowed for Grisu2");
}
PROP_NOFUZZ(near_short_decimals, 400000, 5000000) {
  double v = hard::hard_double(s);
  if (v == 0) { s.cls("none found"); return; }
  s.desc([&] { return oracle::showd(v); });
  s.nontrivial(gen::to_bits(v));
  for (int i = -1; i <= 1; i++) { double w = gen::from_bits(gen::to_bits(v) + u64(i64(i))); if (w > 0 && w <= 1.8e308 && one(w)) s.cls("not the shortest, or not the closest; allowed for Grisu2"); }
  s.evaluated(2);
}
SWEEP(exponents, 2047) {
  u64 e = s.draw(2047), n = 0;
  auto go = [&](u64 m) { u64 u = e << 52 | (m & ((u64(1) << 52) - 1)); if (u) { if (one(gen::from_bits(u))) s.cls("not the shortest, or not the closest; allowed for Grisu2"); n++; } };
  for (u64 i = 0; i < 300; i++) { go(i); go(0 - 1 - i); go((u64(1) << 51) + i); go((u64(1) << 51) - 1 - i); }
  for (int i = 0; i < 52; i++) for (int j = 0; j <= i; j++) { u64 m = u64(1) << i | u64(1) << j; go(m); go(~m); go((u64(1) << i) - (u64(1) << j)); }
  for (int i = 0; i < 300; i++) go(s.bits());
  s.enumerated(n - 300); s.evaluated(n - 1);
}
SWEEP(decimals, 640) {                  // short decimals must come back as they are, nearly always
  int k = int(s.draw(640)) - 330;
  u64 n = 0;
  char b[40];
  for (int d = 1; d < 1000; d++) {
    snprintf(b, sizeof b, "%de%d", d, k);
    double v = strtod(b, nullptr);
    u64 u = gen::to_bits(v);
    for (i64 j = -2; j <= 2; j++) {
      u64 w = u + u64(j);
      if (w == 0 || w >= gen::INF_BITS) continue;
      one(gen::from_bits(w)); n++;
    }
  }
  s.enumerated(n); s.evaluated(n);
}
