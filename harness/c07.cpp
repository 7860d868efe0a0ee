// C07: float and long double format as the double they equal or round to.
#include "gen.hpp"
#include "exact.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

static void one_float(float f) {
  lexi::FormatFloat a(f), b(static_cast<double>(f));
  std::string t(a.data(), a.size()), u(b.data(), b.size());
  if (t != u) fail("float " + oracle::showd(f) + " gives " + show(t) + ", the double of that value " + show(u));
  if (std::isnan(f)) { if (t != "NaN") fail("float NaN gives " + show(t)); return; }
  if (std::isinf(f)) { if (t != (f < 0 ? "-Infinity" : "Infinity")) fail("float infinity gives " + show(t)); return; }
  double r;
  if (!oracle::read_double(t, r) || r != double(f)) fail("float " + oracle::showd(f) + " gives " + show(t) + ", which is another number");
}
static void float_back(float f) {
  std::string t = lexi::lexi(f);
  float g = lexi::lexi<float>(t);
  if (f != f) { CHECK(g != g, "float NaN gives " + show(t) + ", which extracts as a number"); return; }
  CHECK(f == 0 ? g == 0 : gen::f_to_bits(f) == gen::f_to_bits(g),
        "float " + oracle::showd(f) + " gives " + show(t) + ", which extracts as float " + oracle::showd(g));
  CHECK(t == lexi::string(f) && t == lexi::FormatFloat(f).string(), "entry points disagree on float " + oracle::showd(f));
}
PROP(any_float, 3000000, 100000000) {
  float f;
  switch (s.draw(6)) {
    case 0: f = float(gen::anydouble(s)); break;
    case 1: f = gen::f_from_bits(u32(s.draw(512) << 23 | (u64(1) << s.draw(23)))); break;
    case 2: f = gen::f_from_bits(u32((s.draw(512) << 23) + u64(s.range(-4, 4)))); break;
    case 3: f = float(gen::uinteger(s)); break;
    case 4: f = float(double(s.draw(100000)) / gen::dpow10(int(s.draw(12)))); break;
    default: f = gen::f_from_bits(u32(s.bits()));
  }
  s.desc([&] { return "float " + oracle::showd(f); });
  if (f != 0) s.nontrivial(gen::f_to_bits(f));
  one_float(f);
  float_back(f);
}
PROP_NOFUZZ(float_value, 0, 0) {
  float f = gen::f_from_bits(u32(s.bits()));
  s.desc([&] { return "float " + oracle::showd(f); });
  one_float(f); float_back(f);
}
static void block(u64 b) {
  for (u64 i = 0; i < 65536; i++) {
    u32 u = u32(b << 16 | i);
    float f = gen::f_from_bits(u);
    try { one_float(f); if ((i & 15) == 5) float_back(f); } catch (Failure &x) { fail_as("float_value", {u}, x.msg); }
  }
}
PROP_NOFUZZ(sampled_float_blocks, 2600, 0) {
  u64 b = s.draw(65536);
  block(b);
  s.nontrivial(b); s.evaluated(65535);
}
SWEEP_T(all_floats, 65536) {
  u64 b = s.draw(65536);
  block(b);
  s.enumerated(65536); s.evaluated(65535);
}
SWEEP(float_exponents, 512) {
  u64 e = s.draw(512), n = 0;
  for (u64 i = 0; i < 300; i++) for (u64 m : {i, (u64(1) << 23) - 1 - i, (u64(1) << 22) + i, (u64(1) << 22) - 1 - i}) {
    float f = gen::f_from_bits(u32(e << 23 | m));
    one_float(f); float_back(f); n++;
  }
  s.enumerated(n); s.evaluated(n - 1);
}

// ------------------------------------------------------------ long double
static long double make_ld(u64 m, int q) { return std::ldexp((long double)m, q); }
// |x| = m 2^q to the nearest double, by integer arithmetic
static double round_ld(u64 m, int q) {
  if (m == 0) return 0;
  int top = 63 - __builtin_clzll(m) + q;                // 2^top <= x
  int qq = std::max(top - 52, -1074);
  u64 r;
  int sh = qq - q;
  if (sh <= 0) { if (-sh > 11) { while (q > qq) { m <<= 1; q--; } r = m; } else r = m << -sh; }
  else if (sh > 64) r = 0;
  else if (sh == 64) r = (m > (u64(1) << 63)) ? 1 : 0;  // half: to even, zero
  else {
    r = m >> sh;
    u64 rest = m & ((u64(1) << sh) - 1), half = u64(1) << (sh - 1);
    if (rest > half || (rest == half && (r & 1))) r++;
  }
  if (r == 0) return 0;
  if (r == (u64(1) << 53)) { r >>= 1; qq++; }
  if (qq > 971) return HUGE_VAL;
  return std::ldexp(double(r), qq);
}
static void one_ld(bool neg, u64 m, int q) {
  long double x = make_ld(m, q);
  double want;
  if (std::isinf(x)) want = HUGE_VAL;
  else { u64 mm; int qq; exact::split<long double>(x, mm, qq); want = round_ld(mm, qq); }
  if (neg) { x = -x; want = -want; }
  char b[100];
  snprintf(b, sizeof b, "long double %.21Lg (%La)", x, x);
  lexi::FormatFloat a(x), d(want);
  std::string t(a.data(), a.size()), u(d.data(), d.size());
  CHECK(t == u, std::string(b) + " gives " + show(t) + ", the double nearest to it " + show(u));
  if (std::isinf(want)) CHECK(t == (neg ? "-Infinity" : "Infinity"), std::string(b) + " gives " + show(t));
  CHECK(lexi::lexi(x) == t && lexi::string(x) == t, std::string(b) + ": the entry points disagree");
}
PROP(any_long_double, 12000000, 500000000) {
  bool neg = s.flip();
  u64 m; int q;
  switch (s.draw(8)) {
    case 0: m = s.bits() | (u64(1) << 63); q = int(s.range(-16445, 16320)); break;
    case 1: {                                   // a double, exactly
      u64 mm; int qq; double v = gen::posdouble(s); exact::split<double>(v, mm, qq); m = mm; q = qq; break;
    }
    case 2: {                                   // at and around a midpoint of doubles
      u64 mm; int qq; double v = gen::posdouble(s); exact::split<double>(v, mm, qq);
      m = (mm << 11) + (u64(1) << 10) + u64(s.range(-2, 2)); q = qq - 11; break;
    }
    case 3: {                                   // the end of the range
      m = ((u64(1) << 54) - 1) << 10; m += u64(s.range(-3, 3)); q = 971 - 11; if (s.chance(1, 4)) q += int(s.range(0, 4)); break;
    }
    case 4: {                                   // subnormal doubles and their midpoints
      u64 k = s.bits() >> (12 + s.draw(52)); m = (k << 11 | u64(s.flip()) << 10) + u64(s.range(0, 2)); q = -1074 - 11; break;
    }
    case 5: m = s.bits() | (u64(1) << 63); q = int(s.range(-1150, 980)) - 11; break;
    case 6: { m = (u64(1) << 63) | (u64(1) << s.draw(63)) | (u64(1) << s.draw(12)); q = int(s.range(-1140, 975)) - 11; break; }
    default: m = gen::uinteger(s); q = int(s.range(-60, 4));
  }
  s.desc([&] { char b[100]; snprintf(b, sizeof b, "%s%llu * 2^%d", neg ? "-" : "", (unsigned long long)m, q); return std::string(b); });
  if (m) s.nontrivial(m * 31 + u64(i64(q)) * 2 + neg);
  one_ld(neg, m, q);
}
PROP(raw_long_double, 3000000, 100000000) {
  u64 m = s.bits(); int q = int(s.range(-1150, 1000));
  s.nontrivial(m * 31 + u64(i64(q)));
  s.desc([&] { char b[100]; snprintf(b, sizeof b, "%llu * 2^%d", (unsigned long long)m, q); return std::string(b); });
  one_ld(s.draw(2), m, q);
}
SWEEP(ld_exponents, 2200) {             // every exponent in and around the range of double: ties, both sides
  int q = int(s.draw(2200)) - 1150;
  u64 n = 0;
  for (u64 h : {u64(1) << 52, (u64(1) << 53) - 1, (u64(1) << 52) + 1, (u64(3) << 51), u64(0x15555555555555)})
    for (int d = -2; d <= 2; d++) for (u64 half : {u64(0), u64(1) << 10}) {
      one_ld(d & 1, (h << 11) + half + u64(i64(d)), q - 11); n++;
    }
  for (long double x : {0.0L, -0.0L}) CHECK(lexi::lexi(x) == "0.0", "long double zero gives " + show(lexi::lexi(x)));
  CHECK(lexi::lexi((long double)NAN) == "NaN" && lexi::lexi(-(long double)NAN) == "NaN", "long double NaN");
  CHECK(lexi::lexi((long double)HUGE_VAL) == "Infinity" && lexi::lexi(-(long double)HUGE_VAL) == "-Infinity", "long double infinity");
  s.enumerated(n); s.evaluated(n);
}
