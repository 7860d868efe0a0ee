// C08: extracted floats are the text's exact value, correctly rounded to the type.
#include "gen.hpp"
#include "exact.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;
using exact::cpp_int;

template <class T> static const char *name();
template <> const char *name<float>() { return "float"; }
template <> const char *name<double>() { return "double"; }
template <> const char *name<long double>() { return "long double"; }

template <class T> static void judge(const std::string &t, const std::string &digits, long exp, bool neg, T v, const char *how) {
  char b[100];
  snprintf(b, sizeof b, "%.21Lg (%La)", (long double)v, (long double)v);
  bool zero = digits.find_first_not_of('0') == std::string::npos;
  if (!zero && v != 0 && std::signbit(v) != neg) fail(std::string(how) + " " + name<T>() + " from " + show(t) + " gives " + b + ": wrong sign");
  std::string m = digits + "e" + std::to_string(exp);
  if (std::is_same<T, double>::value) { double f; if (oracle::read_double(m, f) && f == std::fabs(v)) return; }
  if (std::is_same<T, float>::value) { float f; auto r = std::from_chars(m.data(), m.data() + m.size(), f); if (r.ec == std::errc() && f == std::fabs(v)) return; }
  if (!exact::correctly_rounded<T>(digits, exp, v))
    fail(std::string(how) + " " + name<T>() + " from " + show(t) + " gives " + b + ", which is not the value rounded to nearest");
}
template <class T> static void one(const std::string &t, const std::string &digits, long exp, bool neg) {
  T v = lexi::lexi<T>(t);
  judge<T>(t, digits, exp, neg, v, "extracting");
  T w = static_cast<T>(lexi::ExtractFloat(t)), x = lexi::lexi<T>(t.c_str()), y = lexi::Extract<T>()(t);
  if (!(w == v && x == v && y == v)) fail("the entry points disagree on extracting " + std::string(name<T>()) + " from " + show(t));
  if (hash_str(t) % 4 == 0) {                           // one object, extracted as other types before
    lexi::ExtractFloat o(t);
    volatile double a = double(o); volatile long double b = (long double)(o); volatile float c = float(o);
    (void)a; (void)b; (void)c;
    if (!(static_cast<T>(o) == v)) fail("an object extracted as other types before gives another " + std::string(name<T>()) + " from " + show(t));
  }
}

// Spell digits * 10^exp as a numeral: sign, zeros, point and exponent anywhere.
static std::string spell(Src &s, const std::string &digits, long exp, bool neg) {
  std::string t = neg ? "-" : s.chance(1, 6) ? "+" : "";
  if (s.chance(1, 6)) t += std::string(s.draw(s.chance(1, 8) ? 2000 : 30), '0');
  std::string d = digits;
  if (s.chance(1, 6)) { u64 z = s.draw(s.chance(1, 16) ? 1200 : 30); d += std::string(z, '0'); exp -= long(z); }
  // put the point after k digits; k == size: no fraction
  u64 k = s.flip() ? d.size() : 1 + s.draw(d.size());
  std::string frac = d.substr(k);
  long e = exp + long(frac.size());
  std::string ip = d.substr(0, k);
  if (s.chance(1, 4) && e > 0 && e < 1500) { if (frac.empty()) { ip += std::string(size_t(e), '0'); e = 0; } }
  if (s.chance(1, 4) && e < 0 && e > -3000) {
    u64 n = u64(-e);
    if (frac.empty() && ip.size() <= n) { frac = std::string(n - ip.size(), '0') + ip; ip = "0"; e = 0; }
    else if (frac.empty()) { frac = ip.substr(ip.size() - n); ip.erase(ip.size() - n); e = 0; }
  }
  t += ip;
  if (!frac.empty()) t += "." + frac;
  if (e != 0 || s.chance(1, 8)) {
    t += s.flip() ? 'e' : 'E';
    if (e < 0) t += '-'; else if (s.chance(1, 3)) t += '+';
    if (s.chance(1, 6)) t += std::string(1 + s.draw(4), '0');
    t += std::to_string(e < 0 ? -e : e);
  }
  return t;
}
static void all(Src &s, const std::string &digits, long exp, bool ld = true) {
  bool neg = s.chance(1, 3);
  std::string t = spell(s, digits, exp, neg);
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one<double>(t, digits, exp, neg);
  one<float>(t, digits, exp, neg);
  if (ld) one<long double>(t, digits, exp, neg);
}
static std::string some_digits(Src &s, u64 n) {
  std::string d(1, char('1' + s.draw(9)));
  char run = '0'; u64 left = 0;
  bool runs = s.chance(1, 3);
  for (u64 i = 1; i < n; i++) {
    if (runs) { if (!left) { left = 1 + s.draw(12); run = "0945"[s.draw(4)]; } left--; d += run; }
    else d += char('0' + s.draw(10));
  }
  return d;
}
PROP(any_numeral, 3000000, 100000000) {
  u64 n = s.draw(5) ? 1 + s.draw(20) : 1 + s.draw(60);
  std::string d = some_digits(s, n);
  long mag;
  switch (s.draw(6)) {
    case 0: mag = s.range(-330, 310); break;
    case 1: mag = s.range(-48, 40); break;
    case 2: mag = s.range(300, 312); break;
    case 3: mag = s.range(-328, -318); break;
    default: mag = s.range(-25, 25);
  }
  all(s, d, mag - long(n), s.chance(1, 2));
}
// The middle between two neighbouring floats, exactly, and a hair beside it.
template <class T> static void midpoint(Src &s, T v) {
  u64 m; int q;
  exact::split<T>(v, m, q);
  cpp_int mid = cpp_int(m) * 2 + 1;
  std::string d; long e;
  if (s.chance(1, 12)) { mid = cpp_int(m) * 2; }       // the value itself
  exact::expand(mid, q - 1, d, e);
  switch (s.draw(6)) {
    case 0: s.cls("exact midpoint"); break;
    case 1: { u64 z = s.draw(40); d += std::string(z, '0') + char('1' + s.draw(9)); e -= long(z) + 1; s.cls("just above a midpoint"); break; }
    case 2: { cpp_int x(d); x = x * 10 - 1; d = x.str(); e--; u64 z = s.draw(20); d += std::string(z, '9'); e -= long(z); s.cls("just below a midpoint"); break; }
    case 3: case 4: {                                   // the nearest short numerals to a midpoint, above and below
      u64 k = s.chance(1, 4) ? 1 + s.draw(d.size()) : 6 + s.draw(17);
      if (d.size() > k) {
        e += long(d.size() - k);
        d.resize(k);
        if (s.flip()) { s.cls("midpoint rounded up to few digits"); d = cpp_int(cpp_int(d) + 1).str(); }
        else s.cls("midpoint cut to few digits");
      }
      break;
    }
    default: { u64 z = s.chance(1, 3) ? s.draw(2500) : s.draw(300); d += std::string(z, '0') + "1"; e -= long(z) + 1; s.cls("just above a midpoint, far out"); }
  }
  bool neg = s.chance(1, 3);
  std::string t = spell(s, d, e, neg);
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one<T>(t, d, e, neg);
}
PROP(double_midpoints, 500000, 20000000) { midpoint<double>(s, gen::posdouble(s)); }
PROP(float_midpoints, 800000, 30000000) {
  float f = gen::f_from_bits(u32(s.draw(0x7f800000)));
  if (s.chance(1, 3)) f = float(gen::posdouble(s));
  if (std::isinf(f)) f = std::numeric_limits<float>::max();
  midpoint<float>(s, f);
}
PROP(long_double_midpoints, 60000, 2500000) {
  u64 m = s.bits() | u64(1) << 63;
  if (s.chance(1, 4)) m = (u64(1) << 63) + s.draw(4);
  if (s.chance(1, 4)) m = ~u64(0) - s.draw(4);
  int q = s.chance(1, 8) ? int(s.range(-16445, 16320)) : int(s.range(-700, 500));
  if (s.chance(1, 64)) q = s.flip() ? -16445 : 16320;
  if (q == -16445) m >>= s.draw(64);
  midpoint<long double>(s, std::ldexp((long double)m, q));
}
// Where double rounding shows: near midpoints of a type, as seen in the next wider one.
PROP(double_rounding, 800000, 30000000) {
  u64 m; int q;
  std::string d; long e;
  if (s.flip()) {
    float f = gen::f_from_bits(u32(s.draw(0x7f800000)));
    exact::split<float>(f, m, q);
    cpp_int x = (cpp_int(m) * 2 + 1) << 40;              // midpoint, off by less than half a double ulp
    x += s.flip() ? cpp_int(1 + s.draw(1 << 11)) : -cpp_int(1 + s.draw(1 << 11));
    exact::expand(x, q - 41, d, e);
  } else {
    double v = gen::posdouble(s);
    exact::split<double>(v, m, q);
    cpp_int x = (cpp_int(m) * 2 + 1) << 30;              // off by less than half a long double ulp
    x += s.flip() ? cpp_int(1 + s.draw(1 << 19)) : -cpp_int(1 + s.draw(1 << 19));
    exact::expand(x, q - 31, d, e);
  }
  if (d.size() > 40 && s.flip()) { u64 k = 30 + s.draw(10); e += long(d.size() - k); d.resize(k); }
  all(s, d, e, false);
}
PROP(range_ends, 400000, 10000000) {
  std::string d; long e;
  cpp_int x; long q;
  switch (s.draw(6)) {
    case 0: x = (cpp_int(1) << 54) - 1; q = 970; break;          // overflow threshold of double
    case 1: x = (cpp_int(1) << 25) - 1; q = 103; break;
    case 2: x = 1; q = -1075; break;                             // half the least subnormal
    case 3: x = 1; q = -150; break;
    case 4: x = (cpp_int(1) << 53) - 1; q = -1075; break;        // around the least normal
    default: x = (cpp_int(1) << 24) - 1; q = -150;
  }
  exact::expand(x, q, d, e);
  switch (s.draw(5)) {
    case 0: break;
    case 1: { cpp_int y(d); y = y * 10 - 1; d = y.str(); e--; break; }
    case 2: d += "1"; e--; break;
    case 3: { u64 k = 5 + s.draw(30); if (k < d.size()) { e += long(d.size() - k); d.resize(k); } break; }
    default: { u64 k = 5 + s.draw(30); if (k < d.size()) { e += long(d.size() - k); d.resize(k); cpp_int y(d); y += 1; d = y.str(); } }
  }
  if (s.chance(1, 8)) e += s.range(-3, 3);
  if (s.chance(1, 12)) e += s.flip() ? s.range(0, 20000) : -s.range(0, 20000);
  all(s, d, e, s.chance(1, 16));
}
// leading or trailing zeros by the thousand that the exponent makes up for
PROP(shifted, 100000, 4000000) {
  u64 n = 1 + s.draw(20), z = s.draw(4) == 0 ? gen::const_small(s) % 5000 : s.draw(s.flip() ? 400 : 4000);
  std::string d = some_digits(s, n), t;
  bool neg = s.chance(1, 3), left = s.flip();
  if (neg) t = "-";
  long e, x = s.range(-20, 20);
  if (left) { t += "0." + std::string(z, '0') + d; e = long(z) + x; }
  else { t += d + std::string(z, '0'); e = x - long(z); }
  t += (s.flip() ? "e" : "E") + std::string(e < 0 ? "-" : s.flip() ? "+" : "") + std::string(s.chance(1, 4) ? s.draw(40) : 0, '0') + std::to_string(e < 0 ? -e : e);
  long exp = left ? x - long(n) : x;
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one<double>(t, d, exp, neg); one<float>(t, d, exp, neg); one<long double>(t, d, exp, neg);
}
PROP(long_numerals, 40000, 1500000) {
  u64 n = s.draw(4) == 0 ? 1 + gen::const_small(s) % 5000 : 100 + s.draw(s.chance(1, 6) ? 6000 : 1400);
  all(s, some_digits(s, n), s.range(-330, 310) - long(n), s.chance(1, 8));
}
// extracting the text of a double, in full precision
PROP(printed, 1500000, 60000000) {
  double v = gen::posdouble(s);
  char b[64];
  static const int P[] = {16, 15, 16, 18, 20, 8};
  snprintf(b, sizeof b, "%.*e", s.pick(P), v);
  std::string t = b, d;
  size_t x = t.find('e');
  long e = atol(t.c_str() + x + 1);
  for (size_t i = 0; i < x; i++) if (t[i] != '.') d += t[i];
  e -= long(d.size()) - 1;
  all(s, d, e, s.chance(1, 4));
}
SWEEP(words, 1) {
  s.draw(1);
  double x = lexi::lexi<double>("NaN"); float f = lexi::lexi<float>("NaN"); long double l = lexi::lexi<long double>("NaN");
  CHECK(x != x && f != f && l != l, "NaN does not extract as NaN");
  CHECK(lexi::lexi<double>("Infinity") == HUGE_VAL && lexi::lexi<float>("Infinity") == HUGE_VALF && lexi::lexi<long double>("Infinity") == HUGE_VALL, "Infinity");
  CHECK(lexi::lexi<double>("-Infinity") == -HUGE_VAL && lexi::lexi<float>("-Infinity") == -HUGE_VALF && lexi::lexi<long double>("-Infinity") == -HUGE_VALL, "-Infinity");
  s.enumerated(9); s.evaluated(8);
}
// every decimal exponent for one-, two- and 17-digit mantissas
SWEEP(exponents, 700) {
  long k = long(s.draw(700)) - 360;
  u64 n = 0;
  for (const char *d : {"1", "2", "5", "9", "17", "99", "12345678901234567", "99999999999999999", "4503599627370497", "8388609"}) {
    for (int neg = 0; neg < 2; neg++) {
      std::string t = std::string(neg ? "-" : "") + d + "e" + std::to_string(k);
      one<double>(t, d, k, neg); one<float>(t, d, k, neg); one<long double>(t, d, k, neg);
      n += 3;
    }
  }
  s.enumerated(n); s.evaluated(n - 1);
}
// exponents of any size, also beyond every integer type
PROP(wild_exponents, 60000, 2000000) {
  std::string d = s.chance(1, 4) ? std::string(1 + s.draw(5), '0') : some_digits(s, 1 + s.draw(25));
  std::string x;
  switch (s.draw(4)) {
    case 0: x = some_digits(s, 6 + s.draw(30)); break;
    case 1: { unsigned __int128 v = (unsigned __int128)1 << (17 + s.draw(100)); v += s.draw(700); for (; v; v /= 10) x.insert(x.begin(), char('0' + int(v % 10))); break; }
    case 2: x = oracle::dec(20000 + s.draw(100000)); break;
    default: x = some_digits(s, 20 + s.draw(s.chance(1, 10) ? 4000 : 100));
  }
  if (s.chance(1, 3)) x = std::string(s.draw(30), '0') + x;
  bool neg = s.chance(1, 3), minus = s.flip(), zero = d.find_first_not_of('0') == std::string::npos;
  std::string t = std::string(neg ? "-" : "") + d;
  if (s.flip()) t.insert(1 + neg + s.draw(d.size()), 1, '.');
  t += (s.flip() ? "e" : "E") + std::string(minus ? "-" : s.flip() ? "+" : "") + x;
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  double v = lexi::lexi<double>(t); float f = lexi::lexi<float>(t); long double l = lexi::lexi<long double>(t);
  if (zero || minus) { CHECK(v == 0 && f == 0 && l == 0, "extracting a float from " + show(t) + " does not give 0"); return; }
  double inf = neg ? -HUGE_VAL : HUGE_VAL;
  CHECK(v == inf && f == float(inf) && l == (long double)inf, "extracting a float from " + show(t) + " does not give infinity of the right sign");
}
// Numerals of about 2^k characters, in which the first or the last ones decide.
template <class T> static void long_one(const std::string &t, const std::string &d, long exp, bool neg, u64 n) {
  T v = lexi::lexi<T>(t);
  judge<T>("a numeral of " + oracle::dec(t.size()) + " characters worth " + d + "e" + std::to_string(exp) + " (" + t.substr(0, 30) + "..., " + oracle::dec(n) + ")", d, exp, neg, v, "extracting");
  T w = static_cast<T>(lexi::ExtractFloat(t));
  if (!(w == v)) fail("the entry points disagree on extracting " + std::string(name<T>()) + " from a numeral of " + oracle::dec(t.size()) + " characters");
}
SWEEP(big_numerals, 13 * 5 * 6) {
  u64 i = s.draw(13 * 5 * 6), n = u64(1) << (10 + i / 30), form = i % 6;
  n = n + (i / 6 % 5) - 2;
  // exactly between two floats of each type
  static const char *const MID[] = {"16777217", "9007199254740993", "36893488147419103234"};
  for (int m = 0; m < 4; m++) for (int neg = 0; neg < 2; neg++) {
    std::string d = m < 3 ? MID[m] : "12345678901234567890", t = neg ? "-" : "";
    long exp = 0;
    switch (form) {
      case 0: t += std::string(n, '0') + d; break;                                      // zeros before
      case 1: t += d + "." + std::string(n, '0'); break;                                // zeros behind
      case 2: t += d + "." + std::string(n, '0') + "1"; d += std::string(39, '0') + "1"; exp = -40; break;       // a hair more
      case 3: { t += d + std::string(n, '0') + "1e-" + std::to_string(n + 1); d += std::string(39, '0') + "1"; exp = -40; break; }
      case 4: t += "0." + std::string(n, '0') + d + "e" + std::to_string(n + d.size()); break;
      default: {                                                                         // a hair less
        std::string x = (cpp_int(d) - 1).str();
        t += x + "." + std::string(n, '9'); d = x + std::string(40, '9'); exp = -40;
      }
    }
    long_one<float>(t, d, exp, neg, n); long_one<double>(t, d, exp, neg, n); long_one<long double>(t, d, exp, neg, n);
  }
  s.enumerated(1); s.evaluated(23);
}
