// C03: numbers are extracted from the numeric prefix of any text.
#include "gen.hpp"
#include "huge.hpp"
#include "exact.hpp"
#include <lexi/lexi.hpp>
#include <type_traits>
using namespace pbt;

static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool digit(char c) { return c >= '0' && c <= '9'; }

struct Int { bool neg = false, any = false, big = false; u64 mag = 0; };
static Int int_prefix(const std::string &t) {
  Int r; size_t i = 0;
  while (i < t.size() && space(t[i])) i++;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) r.neg = t[i++] == '-';
  for (; i < t.size() && digit(t[i]); i++) {
    u64 d = u64(t[i] - '0');
    r.any = true;
    if (r.big || r.mag > (UINT64_MAX - d) / 10) r.big = true; else r.mag = r.mag * 10 + d;
  }
  if (!r.any) r.neg = false;
  return r;
}
template <class T> static void check_int(const std::string &t, const Int &p, const char *name) {
  T v;
  try { v = lexi::lexi<T>(t); } catch (...) { fail(std::string("extracting ") + name + " from " + show(t) + " throws"); }
  if (p.big) return;
  T want;
  if (p.neg) {
    if (std::is_signed<T>::value) {
      if (p.mag > u64(std::numeric_limits<T>::max()) + 1) return;
      want = T(i64(0 - p.mag));
    } else { if (p.mag) return; want = 0; }
  } else {
    if (p.mag > u64(std::numeric_limits<T>::max())) return;
    want = T(p.mag);
  }
  CHECK(v == want, std::string("extracting ") + name + " from " + show(t) + " gives " + oracle::dec_of(v) + ", not " + oracle::dec_of(want));
}

// special: hexadecimal, infinity and NaN spellings of the C library, not judged here
struct Flt { bool neg = false, any = false, special = false, wild = false; std::string digits; long exp = 0; };
static Flt float_prefix(const std::string &t) {
  Flt r; size_t i = 0;
  while (i < t.size() && space(t[i])) i++;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) r.neg = t[i++] == '-';
  auto at = [&](size_t k) { return k < t.size() ? t[k] : '\0'; };
  auto low = [&](size_t k) { char c = at(k); return c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
  if ((low(i) == 'i' && low(i + 1) == 'n' && low(i + 2) == 'f') || (low(i) == 'n' && low(i + 1) == 'a' && low(i + 2) == 'n') ||
      (at(i) == '0' && low(i + 1) == 'x')) { r.special = true; return r; }
  while (digit(at(i))) { r.digits += at(i++); r.any = true; }
  if (at(i) == '.' && (r.any || digit(at(i + 1)))) {
    i++;
    while (digit(at(i))) { r.digits += at(i++); r.exp--; r.any = true; }
  }
  if (!r.any) { r.neg = false; return r; }
  if (low(i) == 'e') {
    size_t k = i + 1; bool n = false;
    if (at(k) == '+' || at(k) == '-') n = at(k++) == '-';
    if (digit(at(k))) {
      long e = 0;
      for (; digit(at(k)); k++) if (e < 100000000) e = e * 10 + (at(k) - '0');
      if (e > 50000) r.wild = true;
      r.exp += n ? -e : e;
    }
  }
  return r;
}
template <class T> static void check_float(const std::string &t, const Flt &p, const char *name) {
  T v;
  try { v = lexi::lexi<T>(t); } catch (...) { fail(std::string("extracting ") + name + " from " + show(t) + " throws"); }
  if (p.special) return;
  char b[80];
  snprintf(b, sizeof b, "%.21Lg", (long double)v);
  std::string what = std::string("extracting ") + name + " from " + show(t) + " gives " + b;
  if (!p.any) { CHECK(v == 0, what + ", not 0"); return; }
  if (p.digits.find_first_not_of('0') == std::string::npos) { CHECK(v == 0, what + ", not 0"); return; }
  if (std::isinf(v) || p.wild) return;                  // range: see C08
  CHECK(v == 0 || (v < 0) == p.neg, what + ": wrong sign");
  if (sizeof(T) <= 8) {                                 // fast: agrees with from_chars
    double fast; float fastf;
    std::string m = p.digits + "e" + std::to_string(p.exp);
    if (std::is_same<T, double>::value) {
      if (oracle::read_double(m, fast) && T(fast) == std::fabs(v)) return;
    } else {
      auto r = std::from_chars(m.data(), m.data() + m.size(), fastf);
      if (r.ec == std::errc() && T(fastf) == std::fabs(v)) return;
    }
  }
  CHECK(exact::correctly_rounded<T>(p.digits, p.exp, v), what + ", which is not the nearest " + name);
}

static u64 turn = 0;
static void all(const std::string &t) {
  Int p = int_prefix(t);
  check_int<int>(t, p, "int");
  check_int<long long>(t, p, "long long");
  check_int<unsigned long long>(t, p, "unsigned long long");
  check_int<signed char>(t, p, "signed char");
  check_int<unsigned char>(t, p, "unsigned char");
  check_int<short>(t, p, "short");
  check_int<unsigned short>(t, p, "unsigned short");
  check_int<unsigned>(t, p, "unsigned int");
  check_int<long>(t, p, "long");
  check_int<unsigned long>(t, p, "unsigned long");
  Flt f = float_prefix(t);
  check_float<double>(t, f, "double");
  check_float<float>(t, f, "float");
  check_float<long double>(t, f, "long double");
}

static std::string number_like(Src &s) {
  std::string t;
  static const char WS[] = " \t\n\v\f\r";
  for (u64 n = s.draw(3) ? 0 : s.draw(4); n; n--) t += WS[s.draw(6)];
  switch (s.draw(6)) { case 0: t += '-'; break; case 1: t += '+'; break; case 2: if (s.chance(1, 4)) t += s.flip() ? "--" : "-+"; break; }
  u64 n = s.draw(4) ? s.draw(8) : s.draw(30);
  for (; n; n--) t += char('0' + (s.draw(4) ? s.draw(10) : 0));
  if (s.draw(2)) {
    t += '.';
    for (u64 k = s.draw(4) ? s.draw(6) : s.draw(30); k; k--) t += char('0' + (s.draw(4) ? s.draw(10) : 0));
  }
  if (s.draw(3) == 0) {
    t += s.flip() ? 'e' : 'E';
    switch (s.draw(4)) { case 0: t += '-'; break; case 1: t += '+'; break; case 2: if (s.chance(1, 6)) t += "+-"; break; }
    for (u64 k = s.draw(4); k; k--) t += char('0' + s.draw(10));
  }
  return t;
}
static std::string junk(Src &s) {
  static const char HOT[] = " \t\n+-.,eExX0123456789aAfFnN_'\"d\xc2\xa0\xff";
  std::string t;
  for (u64 n = s.draw(7); n; n--) {
    switch (s.draw(4)) {
      case 0: t += char(s.draw(256)); break;
      default: t += HOT[s.draw(sizeof HOT)];            // the terminator included
    }
  }
  return t;
}

PROP(number_then_junk, 4500000, 160000000) {
  std::string t = number_like(s);
  if (s.draw(3)) t += junk(s);
  s.desc([&] { return show(t); });
  if (t.size() > 1) s.nontrivial(hash_str(t));
  Int p = int_prefix(t);
  if (p.any) s.cls("has an integer prefix");
  if (!p.any) s.cls("no integer prefix");
  if (t.find('\0') != std::string::npos) s.cls("embedded null");
  all(t);
}
PROP(junk_around, 1500000, 60000000) {
  std::string t = junk(s) + number_like(s) + junk(s);
  s.desc([&] { return show(t); });
  if (t.size() > 1) s.nontrivial(hash_str(t));
  all(t);
}
PROP(raw_text, 1000000, 40000000) {
  std::string t;
  for (u64 n = s.draw(24); n; n--) t += char(s.draw(256));
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  all(t);
}
// space, zeros, digits and what follows, by the hundred or thousand
PROP(long_texts, 120000, 5000000) {
  static const char WS[] = " \t\n\v\f\r";
  auto count = [&]() -> u64 {
    switch (s.draw(6)) { case 0: return gen::const_small(s) % 3000; case 1: return s.draw(600); case 2: return s.chance(1, 4) ? s.draw(6000) : 0; case 3: return s.draw(40); default: return s.draw(3); }
  };
  std::string t(count(), WS[s.draw(6)]);
  for (u64 n = s.draw(4); n && !t.empty(); n--) t[s.draw(t.size())] = WS[s.draw(6)];
  t += std::string(count(), '0');
  if (!t.empty() && s.draw(4) == 0) t.insert(t.find_first_not_of(WS) == std::string::npos ? t.size() : t.find_first_not_of(WS), 1, s.flip() ? '-' : '+');
  t += number_like(s);
  if (s.flip()) { t += '.'; t += std::string(count(), char('0' + s.draw(10))); }
  if (s.draw(4) == 0) t += 'e' + std::string(count(), '0') + oracle::dec(s.draw(40));
  t += junk(s);
  t += std::string(count(), char(s.draw(256)));
  if (s.draw(4) == 0) t += junk(s) + gen::bytes(s);
  s.desc([&] { return show(t, 200); });
  s.nontrivial(hash_str(t));
  all(t);
}
// every text of up to four characters over the alphabet of numbers
static const char ALPHA[] = {'0', '1', '7', '9', '+', '-', '.', 'e', 'E', ' ', '\t', 'x', '\0', ',', 'n', '_', '\n', '5'};
constexpr u64 A = sizeof ALPHA;
SWEEP(short_texts, 1 + A + A * A + A * A * A + A * A * A * A + A * A * A * A * A) {
  u64 i = s.draw(1 + A + A * A + A * A * A + A * A * A * A + A * A * A * A * A), n = 0, w = 1;
  while (i >= w) { i -= w; w *= A; n++; }
  std::string t;
  for (; n; n--) { t += ALPHA[i % A]; i /= A; }
  all(t);
  s.enumerated(1);
}
// every one and two byte text, alone and around a number
SWEEP(byte_pairs, 65536 + 256) {
  u64 i = s.draw(65536 + 256);
  std::string t;
  if (i < 256) t = std::string(1, char(i)); else { i -= 256; t += char(i & 255); t += char(i >> 8); }
  all(t);
  all(t + "12.5");
  all("12" + t);
  all("12" + t + "34");
  all("1.5" + t + "25");
  all("1e" + t + "1");
  s.enumerated(6); s.evaluated(5);
}
// spaces, zeros, digits and what follows by the million: lengths next to powers of two
SWEEP(big_texts, 18 * 3 * 8) {
  u64 i = s.draw(18 * 3 * 8), n = (u64(1) << (4 + i / 24)) + i / 8 % 3 - 1;
  std::string t;
  switch (i % 8) {
    case 0: t = std::string(n, ' ') + "-37.25"; break;
    case 1: t = std::string(n, '0') + "41"; break;
    case 2: t = "-" + std::string(n, '0') + "5.5e1"; break;
    case 3: t = "123" + std::string(n, ' ') + "4"; break;
    case 4: t = "12.5" + std::string(n, 'x'); break;
    case 5: t = "0." + std::string(n, '0'); break;
    case 6: t = "7e" + std::string(n, '0') + "2"; break;
    default: t = "7.5" + std::string(n, '0') + "e1"; break;
  }
  s.desc([&] { return show(t, 60); });
  all(t);
  s.enumerated(1);
}

static void huge_text(Src &s, u64 n, u64 how) {
  huge::apart(s, "a text of " + oracle::dec(n) + " bytes, kind " + oracle::dec(how), [&] {
    std::string t;
    double want;
    if (how == 0) { t.assign(n - 3, ' '); t += "-37"; want = -37; }                     // white space before the number
    else if (how == 1) { t.assign(n, 'x'); memcpy(&t[0], "41", 2); want = 41; }         // anything behind it
    else { t.assign(n, ' '); memcpy(&t[0], "9.0", 3); t.back() = '7'; want = 9; }
    CHECK(lexi::lexi<int>(t) == int(want), "extracting int from a text of " + oracle::dec(n) + " bytes gives " + oracle::dec_signed(lexi::lexi<int>(t)));
    CHECK(lexi::lexi<double>(t) == want, "extracting double from a text of " + oracle::dec(n) + " bytes gives " + oracle::showd(lexi::lexi<double>(t)));
    if (how) CHECK(lexi::lexi<float>(t) == float(want) && lexi::lexi<unsigned short>(t) == (unsigned short)want, "extracting float or unsigned short from a text of " + oracle::dec(n) + " bytes");
  });
}
SWEEP(huge_texts, 3) { u64 i = s.draw(3); huge_text(s, (u64(1) << 31) + 1 + i, i); }
SWEEP_T(huger_texts, 3) { u64 i = s.draw(3); huge_text(s, (u64(1) << 32) + i, i); }
