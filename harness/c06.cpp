// C06: floats are laid out as JavaScript does, with a radix point in integral values.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

static void one(double v) {
  lexi::FormatFloat f(v);
  std::string t(f.data(), f.size());
  if (std::isnan(v)) { CHECK(t == "NaN", "a NaN, " + oracle::showd(v) + ", gives " + show(t)); return; }
  if (std::isinf(v)) { CHECK(t == (v < 0 ? "-Infinity" : "Infinity"), oracle::showd(v) + " gives " + show(t)); return; }
  if (v == 0) { CHECK(t == "0.0", oracle::showd(v) + " gives " + show(t)); return; }
  oracle::Decimal d; bool p, e;
  CHECK(oracle::parse_numeral(t, d, p, e), oracle::showd(v) + " gives " + show(t) + ", not a well-formed numeral");
  std::string want = oracle::layout(d);
  CHECK(t == want, oracle::showd(v) + " gives " + show(t) + ", laid out as " + show(want) + " it would be right");
  CHECK(d.neg == std::signbit(v), oracle::showd(v) + " gives " + show(t) + ": wrong sign");
  lexi::FormatFloat g(-v);
  std::string o(g.data(), g.size());
  CHECK(d.neg ? t == "-" + o : o == "-" + t, oracle::showd(v) + " gives " + show(t) + " but its negation " + show(o));
  // the ranges of the two layouts, from the value itself
  double a = std::fabs(v);
  if (a >= 1e-6 && a < 1e21) CHECK(!e && p, oracle::showd(v) + " gives " + show(t) + ", not positional");
  if (a >= 1e21 || a < 1e-6) CHECK(e, oracle::showd(v) + " gives " + show(t) + ", not scientific");
}
static void full(double v) {
  one(v);
  lexi::FormatFloat f(v);
  std::string t(f.data(), f.size());
  CHECK(f.string() == t, "string() of " + oracle::showd(v) + " is " + show(f.string()) + ", its data " + show(t));
  CHECK(lexi::lexi(v) == t, "lexi() of " + oracle::showd(v) + " is " + show(lexi::lexi(v)) + ", FormatFloat " + show(t));
}
PROP(any_double, 24000000, 900000000) {
  double v = gen::anydouble(s);
  s.desc([&] { return oracle::showd(v); });
  if (v != 0) s.nontrivial(gen::to_bits(v));
  if (v != v) s.cls("NaN");
  full(v);
}
PROP(raw_double, 20000000, 900000000) {
  u64 u = s.bits();
  s.desc([&] { return oracle::showd(gen::from_bits(u)); });
  s.nontrivial(u);
  one(gen::from_bits(u));
}
// digits of every length at every magnitude that has a layout of its own
PROP(digits_at_magnitude, 16000000, 600000000) {
  u64 n = 1 + s.draw(17);
  std::string t(1, char('1' + s.draw(9)));
  for (u64 i = 1; i < n; i++) t += char('0' + (s.draw(3) ? s.draw(10) : 9 * s.draw(2)));
  int mag = int(s.draw(3) ? s.range(-12, 28) : s.range(-330, 308));
  t += "e" + std::to_string(mag - int(n) + 1);
  double v = strtod(t.c_str(), nullptr);
  s.desc([&] { return oracle::showd(v); });
  if (v != 0) s.nontrivial(gen::to_bits(v));
  if (mag >= -6 && mag < 21) s.cls("positional");
  else s.cls("scientific");
  full(s.flip() ? -v : v);
}
SWEEP(special_patterns, 4096) {         // all sign/exponent patterns of NaN and infinity payload classes
  u64 i = s.draw(4096), n = 0;
  u64 base = i << 52;
  auto go = [&](u64 m) { full(gen::from_bits(base | (m & ((u64(1) << 52) - 1)))); n++; };
  go(0); go(~u64(0));
  for (int a = 0; a < 52; a++) { go(u64(1) << a); go(~(u64(1) << a)); for (int b = 0; b < a; b++) go(u64(1) << a | u64(1) << b); }
  for (int k = 0; k < 200; k++) go(s.bits());
  s.enumerated(n - 200); s.evaluated(n - 1);
}
SWEEP(boundaries, 26 * 2) {             // around 10^k where the layout changes: 4000 neighbours each
  u64 i = s.draw(26 * 2);
  double p = gen::dpow10(int(i % 26 < 13 ? i % 26 - 9 : i % 26 + 4)) ;
  u64 u = gen::to_bits(p);
  for (i64 j = -2000; j < 2000; j++) { double v = gen::from_bits(u + u64(j)); full(i >= 26 ? -v : v); }
  s.enumerated(4000); s.evaluated(3999);
}
SWEEP(exponent_digits, 640) {           // every decimal exponent with 1..17 digits
  int k = int(s.draw(640)) - 330;
  static const char *D[] = {"1", "5", "9", "12", "99", "10", "123", "999", "1234567", "99999999", "12345678901234567", "98765432109876543", "1000000000000001", "5e0", "4503599627370496", "9007199254740993"};
  for (auto d : D) {
    std::string t = d;
    size_t x = t.find('e');
    if (x != std::string::npos) t.erase(x);
    double v = strtod((t + "e" + std::to_string(k - int(t.size()) + 1)).c_str(), nullptr);
    full(v); full(-v);
  }
  s.enumerated(32); s.evaluated(31);
}
