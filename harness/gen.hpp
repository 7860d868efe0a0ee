// Generators shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <limits>

namespace gen {
using namespace pbt;

inline const u64 *pow10_table() {
  static u64 t[20];
  if (!t[0]) { t[0] = 1; for (int i = 1; i < 20; i++) t[i] = t[i - 1] * 10; }
  return t;
}

// The literals in the sources of the library (LEXI_CONSTS, written by the
// check): where code compares with a constant, values at and next to it matter.
struct Constants {
  std::vector<u64> ints, dbls, small;
  std::vector<std::string> strs;
  Constants() {
    const char *n = getenv("LEXI_CONSTS");
    FILE *f = n ? fopen(n, "r") : nullptr;
    char b[4096];
    while (f && fgets(b, sizeof b, f)) {
      if (b[0] == 's') {
        std::string t;
        for (char *p = b + 2; p[0] > ' ' && p[1] > ' '; p += 2) { char h[3] = {p[0], p[1], 0}; t += char(strtoul(h, nullptr, 16)); }
        if (!t.empty()) strs.push_back(t);
      } else {
        u64 v = strtoull(b + 2, nullptr, 10);
        (b[0] == 'i' ? ints : dbls).push_back(v);
        if (b[0] == 'i' && v < 20000) small.push_back(v);
      }
    }
    if (f) fclose(f);
    for (auto *v : {&ints, &dbls, &small}) if (v->empty()) v->push_back(0);
    if (strs.empty()) strs.push_back("0");
  }
};
inline const Constants &constants() { static Constants c; return c; }
inline u64 const_int(Src &s) {
  return s.given([](Src &r) {
    const Constants &c = constants();
    u64 k = r.next(), v = c.ints[(k >> 32) % c.ints.size()], w = c.ints[(k >> 16 & 0xffff) % c.ints.size()];
    switch (k % 12) {
      case 0: case 1: case 2: return v;
      case 3: return v + 1;
      case 4: return v - 1;
      case 5: return v * 10 + (k >> 8) % 10;
      case 6: return v + w;
      case 7: return v * w;
      case 8: return v << (w % 64);
      case 9: return v < 20 ? pow10_table()[v] + (k >> 8) % 3 - 1 : v / 10;
      case 10: return v < 64 ? (u64(1) << v) + (k >> 8) % 3 - 1 : v - (k >> 8) % 100;
      default: return v + (k >> 8) % 100;
    }
  });
}
inline u64 const_bits(Src &s) {                 // of a double
  return s.given([](Src &r) {
    const Constants &c = constants();
    u64 k = r.next(), i = c.ints[(k >> 32) % c.ints.size()], d = c.dbls[(k >> 32) % c.dbls.size()], u;
    double x;
    switch (k % 10) {
      case 0: case 1: u = d; break;
      case 2: u = d + (k >> 8) % 9 - 4; break;
      case 3: case 4: x = double(i); memcpy(&u, &x, 8); break;
      case 5: x = double(i64(i)) + double((k >> 8) % 9) / 4 - 1; memcpy(&u, &x, 8); break;
      case 6: u = i + (k >> 8) % 3 - 1; break;  // as a bit pattern
      case 7: u = (i << 52) | (r.next() >> 12); break;
      case 8: x = std::ldexp(1.0 + double(r.next() >> 12 & (k >> 8 & 1 ? ~u64(0) : 0)) * 0x1p-52, int(i % 2000) * (k >> 9 & 1 ? -1 : 1) % 1074); memcpy(&u, &x, 8); break;
      default: { double y; memcpy(&y, &d, 8); x = y * double(1 + (k >> 8) % 20); memcpy(&u, &x, 8); }
    }
    return u;
  });
}
inline u64 const_small(Src &s) {
  return s.given([](Src &r) { const Constants &c = constants(); u64 k = r.next(); return c.small[(k >> 32) % c.small.size()] + k % 3 - 1; }) & 0xffff;
}
inline std::string const_str(Src &s) {          // up to 15 bytes, two numbers
  u64 at = 0;
  u64 a = s.given([&](Src &r) { const auto &v = constants().strs; u64 k = r.next(); const std::string &t = v[(k >> 32) % v.size()]; at = k >> 32; u64 w = 0; memcpy(&w, t.data(), std::min<size_t>(t.size(), 8)); return w; });
  u64 b = s.given([&](Src &) { const auto &v = constants().strs; const std::string &t = v[at % v.size()]; size_t n = std::min<size_t>(t.size(), 15); u64 w = 0; if (n > 8) memcpy(&w, t.data() + 8, n - 8); return w | u64(n) << 56; });
  char m[16]; memcpy(m, &a, 8); memcpy(m + 8, &b, 8);
  return std::string(m, (b >> 56) % 16);
}

// Unsigned 64-bit values, biased towards decimal and binary structure.
inline u64 uinteger(Src &s) {
  const u64 *P = pow10_table();
  switch (s.draw(10)) {
    case 0: return s.draw(20000);
    case 9: return const_int(s);
    case 1: { u64 k = s.draw(65); return k == 0 ? 0 : (s.bits() >> (64 - k)); }
    case 2: return P[s.draw(20)] + u64(s.range(-4, 4));
    case 3: return (u64(1) << s.draw(64)) + u64(s.range(-4, 4));
    case 4: {                                   // runs of chosen digits
      u64 len = 1 + s.draw(20), v = 0;
      static const int D[] = {0, 9, 1, 5, -1, -1};
      int d = 0; u64 left = 0;
      for (u64 i = 0; i < len; i++) {
        if (!left) { left = 1 + s.draw(5); d = s.pick(D); }
        left--;
        u64 x = d < 0 ? s.draw(10) : u64(d);
        if (i == 0 && x == 0) x = 1;
        if (v > (UINT64_MAX - x) / 10) break;
        v = v * 10 + x;
      }
      return v;
    }
    case 5: {                                   // groups of four digits
      u64 v = 0, n = 1 + s.draw(5);
      for (u64 i = 0; i < n; i++) {
        u64 g;
        switch (s.draw(6)) {
          case 0: g = 0; break;
          case 1: g = 9999; break;
          case 2: g = s.draw(10); break;
          case 3: g = s.draw(100) * 100; break;
          case 4: g = s.draw(100); break;
          default: g = s.draw(10000);
        }
        if (v > (UINT64_MAX - g) / 10000) break;
        v = v * 10000 + g;
      }
      return v;
    }
    case 6: return s.draw(1000) * P[s.draw(17)] + s.draw(1000);
    case 7: { static const int K[] = {7, 8, 15, 16, 31, 32, 63, 64};
              int k = s.pick(K); u64 m = k == 64 ? 0 : u64(1) << k; return m + u64(s.range(-3, 3)); }
    default: return s.bits();
  }
}

inline double from_bits(u64 u) { double d; memcpy(&d, &u, 8); return d; }
inline u64 to_bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
inline float f_from_bits(u32 u) { float d; memcpy(&d, &u, 4); return d; }
inline u32 f_to_bits(float d) { u32 u; memcpy(&u, &d, 4); return u; }
constexpr u64 INF_BITS = 0x7ff0000000000000ULL;

inline double dpow10(int k) {           // correctly rounded 10^k, from text
  static double t[701];
  static bool init = false;
  if (!init) { for (int i = -350; i <= 350; i++) { char b[16]; snprintf(b, 16, "1e%d", i); t[i + 350] = strtod(b, nullptr); } init = true; }
  return t[k + 350];
}

inline u64 mantissa(Src &s) {           // 52 bits, structured
  switch (s.draw(6)) {
    case 0: { u64 m = 0; for (u64 i = s.draw(5); i; i--) m |= u64(1) << s.draw(52); return m; }
    case 1: { u64 m = (u64(1) << 52) - 1; for (u64 i = s.draw(5); i; i--) m &= ~(u64(1) << s.draw(52)); return m; }
    case 2: { u64 k = s.draw(53); return k == 0 ? 0 : ((s.bits() >> (64 - k)) << (52 - k)) & ((u64(1) << 52) - 1); }  // short
    case 3: { u64 k = s.draw(53); return k == 0 ? 0 : s.bits() >> (64 - k); }
    case 4: return (s.flip() ? s.draw(16) : ((u64(1) << 52) - 1 - s.draw(16)));
    default: return s.bits() >> 12;
  }
}

// Positive finite doubles (possibly zero).
inline double posdouble(Src &s) {
  u64 u;
  switch (s.draw(13)) {
    case 12: u = const_bits(s); break;
    case 0: u = s.bits() & ~(u64(1) << 63); break;
    case 1: u = (s.draw(2047) << 52) | mantissa(s); break;
    case 2: {                                   // a decimal of few digits
      u64 n = 1 + s.draw(17), v = 0;
      for (u64 i = 0; i < n; i++) v = v * 10 + s.draw(10);
      char b[64];
      snprintf(b, 64, "%llue%d", (unsigned long long)v, int(s.range(-340, 310)));
      u = to_bits(strtod(b, nullptr));
      break;
    }
    case 3: u = to_bits(double(uinteger(s))); break;
    case 4: { double d = dpow10(int(s.range(-323, 308))); u = to_bits(d) + u64(s.range(-8, 8)); break; }
    case 5: { u = (s.draw(2047) << 52) + u64(s.range(-8, 8)); break; }
    case 6: { u64 k = s.draw(53); u = k ? s.bits() >> (64 - k) : 0; break; }        // subnormal
    case 7: {                                   // around the limits of the layouts
      static const int E[] = {-8, -7, -6, -5, -4, -1, 0, 1, 15, 16, 17, 19, 20, 21, 22, 23};
      u64 n = 1 + s.draw(17), v = 0;
      for (u64 i = 0; i < n; i++) v = v * 10 + (s.draw(3) ? s.draw(10) : 9 * s.draw(2));
      if (v == 0) v = 1;
      std::string t = std::to_string(v);
      char b[64];
      snprintf(b, 64, "%se%d", t.c_str(), s.pick(E) - int(t.size()) + 1);
      u = to_bits(strtod(b, nullptr));
      break;
    }
    case 8: { u64 v = uinteger(s) >> s.draw(40); u = to_bits(double(v) / dpow10(int(s.draw(23)))); break; }
    case 9: { u64 k = s.bits(); float f = f_from_bits(u32(k) & 0x7fffffff); u = to_bits(double(f)); break; }
    case 10: { u = to_bits(double(s.bits() >> s.draw(64)) * std::ldexp(1.0, int(s.range(-70, 10)))); break; }
    default: {                                  // moderate magnitudes
      u = ((1023 + u64(s.range(-40, 80))) << 52) | (s.bits() >> 12);
    }
  }
  u &= ~(u64(1) << 63);
  if (u >= INF_BITS) u = u % INF_BITS;
  return from_bits(u);
}
inline double finite(Src &s) {
  double d = posdouble(s);
  return s.flip() ? -d : d;
}
// Any double, also infinities and NaNs of all kinds.
inline double anydouble(Src &s) {
  if (s.chance(1, 24)) {
    switch (s.draw(3)) {
      case 0: return s.flip() ? -HUGE_VAL : HUGE_VAL;
      case 1: return from_bits((s.bits() & ~INF_BITS) | INF_BITS);
      default: return from_bits((s.draw(2) << 63) | INF_BITS | (u64(1) << s.draw(52)));
    }
  }
  return finite(s);
}

inline u64 length(Src &s) {
  switch (s.draw(9)) {
    case 8: return const_small(s) % 3000;
    case 0: { static const u64 L[] = {0, 1, 7, 8, 14, 15, 16, 17, 22, 23, 24, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; return s.pick(L); }
    case 1: return s.draw(64);
    case 2: return s.chance(1, 8) ? s.draw(3000) : s.draw(200);
    default: return s.draw(12);
  }
}
// Byte strings: mixtures of all bytes, ASCII, the characters that matter, runs.
inline std::string bytes(Src &s) {
  static const char HOT[] = "\"\\/\b\f\n\r\t\v\a\x1b\x7f\x1f\x20\x00'`@[{}]~09AZaz:;-._\x80\xff\xc3\xa9u";
  std::string o;
  u64 style = s.draw(6);
  char run = 0; u64 left = 0;
  if (style == 5) {                             // made of the library's own words
    for (u64 n = s.draw(6); n; n--) {
      switch (s.draw(4)) {
        case 0: o += char(s.draw(256)); break;
        case 1: o += std::string(const_small(s) % 70, char(s.draw(256))); break;
        default: o += const_str(s);
      }
    }
    return o;
  }
  for (u64 n = length(s); n; n--) {
    if (style == 4) {
      if (!left) { left = 1 + s.draw(20); run = char(s.draw(256)); }
      left--; o += run; continue;
    }
    switch (style == 3 ? s.draw(3) : style) {
      case 0: o += char(s.draw(256)); break;
      case 1: o += char(s.draw(128)); break;
      default: o += HOT[s.draw(sizeof HOT - 1)];
    }
  }
  return o;
}

}  // namespace gen
