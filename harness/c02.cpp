// C02: extracting a decimal integer gives exactly that value.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
#include <type_traits>
using namespace pbt;

template <class T> static void expect(const std::string &t, T v) {
  auto say = [&](const char *how, T got) {
    return std::string(how) + " of " + show(t) + " gives " + oracle::dec_of(got) + ", not " + oracle::dec_of(v);
  };
  T a = lexi::lexi<T>(t);
  CHECK(a == v, say("lexi<T>(string)", a));
  T b = lexi::lexi<T>(t.c_str());
  CHECK(b == v, say("lexi<T>(const char*)", b));
  T c = lexi::Extract<T>()(t);
  CHECK(c == v, say("Extract<T>", c));
  lexi::ExtractInt x(t);
  T d = static_cast<T>(x);
  CHECK(d == v, say("ExtractInt", d));
}
// the type's own value of these bits, spelled with zeros and perhaps a plus
template <class T> static void typed(u64 bits, u64 zeros, bool plus) {
  T v = static_cast<T>(bits);
  std::string d = oracle::dec_of(v), t;
  if (d[0] == '-') { t = "-"; d.erase(0, 1); } else if (plus) t = "+";
  t += std::string(zeros, '0') + d;
  expect<T>(t, v);
}
static const char *const TYPES[] = {"signed char", "unsigned char", "short", "unsigned short", "int", "unsigned",
                                    "long", "unsigned long", "long long", "unsigned long long"};
static void dispatch(u64 type, u64 bits, u64 zeros, bool plus) {
  switch (type) {
    case 0: typed<signed char>(bits, zeros, plus); break;
    case 1: typed<unsigned char>(bits, zeros, plus); break;
    case 2: typed<short>(bits, zeros, plus); break;
    case 3: typed<unsigned short>(bits, zeros, plus); break;
    case 4: typed<int>(bits, zeros, plus); break;
    case 5: typed<unsigned>(bits, zeros, plus); break;
    case 6: typed<long>(bits, zeros, plus); break;
    case 7: typed<unsigned long>(bits, zeros, plus); break;
    case 8: typed<long long>(bits, zeros, plus); break;
    default: typed<unsigned long long>(bits, zeros, plus);
  }
}
static u64 zeros(Src &s) {
  switch (s.draw(7)) {
    case 6: return s.chance(1, 400) ? s.draw(20000) : s.chance(1, 8) ? gen::const_small(s) % 5000 : 0;
    case 0: return 1 + s.draw(3);
    case 1: return s.draw(40);
    case 2: return s.chance(1, 16) ? s.draw(600) : s.draw(80);
    default: return 0;
  }
}
PROP(any_integer, 30000000, 900000000) {
  static const u64 T[] = {6, 7, 8, 9, 4, 5, 6, 7, 8, 9, 4, 5, 2, 3, 0, 1};
  u64 type = s.pick(T), z = zeros(s), v = gen::uinteger(s);
  bool plus = s.chance(1, 4);
  if (s.flip()) v = 0 - v;
  s.desc([&] { return std::string(TYPES[type]) + " from bits " + oracle::dec(v) + ", " + oracle::dec(z) + " leading zeros" + (plus ? ", plus" : ""); });
  if (z || plus || v >= 100) s.nontrivial((v * 11 + type) ^ (z << 56) ^ plus);
  if (z) s.cls("leading zeros");
  if (plus) s.cls("plus sign");
  dispatch(type, v, z, plus);
}
PROP(raw_integer, 4000000, 100000000) {
  u64 type = s.draw(10), v = s.bits();
  s.nontrivial(v * 11 + type);
  s.desc([&] { return std::string(TYPES[type]) + " from bits " + oracle::dec(v); });
  dispatch(type, v, s.draw(4), s.draw(4) == 1);
}
// every 8- and 16-bit value, with no, one, two and many zeros, with and without plus
SWEEP(small_types, 65536 * 4) {
  u64 i = s.draw(65536 * 4);
  for (u64 z : {0, 1, 2, 25}) for (int p = 0; p < 2; p++) dispatch(i >> 16, i & 0xffff, z, p);
  s.enumerated(1); s.evaluated(7);
}
SWEEP(extremes, 10 * 64 * 9) {
  u64 i = s.draw(10 * 64 * 9), v = (u64(1) << (i / 9 % 64)) + i % 9 - 4;
  for (u64 z = 0; z < 8; z++) { dispatch(i / 576, v, z, z & 1); dispatch(i / 576, 0 - v, z, z & 1); }
  s.enumerated(2); s.evaluated(15);
}
// all 32-bit values, plainly spelled: a sample of blocks, or all when thorough
static void block(u64 b) {
  u64 v = b << 16;
  std::string t = oracle::dec(v), n;
  for (u64 i = 0; i < 65536; i++, v++) {
    unsigned u = static_cast<unsigned>(lexi::ExtractInt(t));
    if (u != v) fail_as("exact_value", {5, v}, "unsigned int from " + t + " gives " + oracle::dec(u));
    if (v < 0x80000000u || v == 0x80000000u) {
      n = "-" + t;
      int w = static_cast<int>(lexi::ExtractInt(n));
      if (i64(w) != -i64(v)) fail_as("exact_value", {4, 0 - v}, "int from " + n + " gives " + oracle::dec_signed(w));
    }
    size_t k = t.size();
    while (k && t[k - 1] == '9') t[--k] = '0';
    if (k) t[k - 1]++; else t.insert(t.begin(), '1');
  }
}
PROP_NOFUZZ(sampled_u32_blocks, 8192, 0) {
  u64 b = s.draw(65536);
  block(b);
  s.nontrivial(b); s.evaluated(65535);
}
SWEEP_T(all_u32_blocks, 65536) {
  u64 b = s.draw(65536);
  block(b);
  s.enumerated(65536); s.evaluated(65535);
}
PROP_NOFUZZ(exact_value, 0, 0) {
  u64 t = s.draw(10), v = s.bits();
  s.desc([&] { return std::string(TYPES[t]) + " from bits " + oracle::dec(v); });
  dispatch(t, v, 0, false);
}
// as many leading zeros as make any length near a power of two
SWEEP(long_zeros, 13 * 10) {
  u64 i = s.draw(130), n = u64(1) << (10 + i / 10), type = i % 10;
  for (u64 bits : {u64(0x8000000000000000ULL), u64(0x7fffffffffffffffULL), ~u64(0), u64(1234567890123456789ULL), u64(105)})
    for (u64 z : {n - 20, n - 1, n, n + 1}) { if (n > 100000 && z != n) continue; dispatch(type, bits, z, z & 1); }
  s.enumerated(1); s.evaluated(19);
}
