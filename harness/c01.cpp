// C01: integer formatting is exact decimal for every integer type and value.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
#include <type_traits>
using namespace pbt;

template <class T> static void one(T v) {
  std::string want = oracle::dec_of(v);
  lexi::FormatInt f(v);
  std::string got(f.data(), f.size());
  CHECK(got == want, "FormatInt(" + want + ") gives " + show(got));
  CHECK(f.string() == want, "FormatInt(" + want + ").string() gives " + show(f.string()));
  std::string g = lexi::lexi(v);
  CHECK(g == want, "lexi(" + want + ") gives " + show(g));
  CHECK(lexi::string(v) == want, "string(" + want + ") gives " + show(lexi::string(v)));
}

static const char *const TYPES[] = {"signed char", "unsigned char", "short", "unsigned short", "int", "unsigned",
                                    "long", "unsigned long", "long long", "unsigned long long"};
static void typed(u64 type, u64 v) {
  switch (type) {
    case 0: one<signed char>(static_cast<signed char>(v)); break;
    case 1: one<unsigned char>(static_cast<unsigned char>(v)); break;
    case 2: one<short>(static_cast<short>(v)); break;
    case 3: one<unsigned short>(static_cast<unsigned short>(v)); break;
    case 4: one<int>(static_cast<int>(v)); break;
    case 5: one<unsigned>(static_cast<unsigned>(v)); break;
    case 6: one<long>(static_cast<long>(v)); break;
    case 7: one<unsigned long>(v); break;
    case 8: one<long long>(static_cast<long long>(v)); break;
    default: one<unsigned long long>(v);
  }
}

// Any type, any value: the general case, and the target of redirections.
PROP(any_integer, 60000000, 1500000000) {
  static const u64 T[] = {6, 7, 8, 9, 6, 7, 8, 9, 4, 5};       // the small types are swept
  u64 type = s.pick(T), v = gen::uinteger(s);
  if (s.flip()) v = 0 - v;
  if (type < 6) v &= 0xffffffff;
  s.desc([&] { return std::string(TYPES[type]) + " from bits " + oracle::dec(v); });
  if (v >= 10000) s.nontrivial(v * 11 + type);
  typed(type, v);
}
// the plainest decoding, good for coverage-guided search
PROP(raw_integer, 20000000, 400000000) {
  u64 type = 4 + s.draw(6), v = s.bits();
  if (type < 6) v &= 0xffffffff;
  s.desc([&] { return std::string(TYPES[type]) + " from bits " + oracle::dec(v); });
  s.nontrivial(v * 11 + type);
  typed(type, v);
}
SWEEP(extremes, 10 * 64 * 9) {                  // 2^k - 4 .. 2^k + 4 in every type
  u64 i = s.draw(10 * 64 * 9);
  u64 v = (u64(1) << (i / 9 % 64)) + i % 9 - 4;
  typed(i / 576, v);
  typed(i / 576, 0 - v);
  s.enumerated(2); s.evaluated(1);
}
SWEEP(small_types, 65536 * 4) {                 // all 8- and 16-bit values
  u64 i = s.draw(65536 * 4);
  typed(i >> 16, i & 0xffff);
  s.enumerated(1);
}

// All 32-bit values, in blocks that share an odometer.
static void block(u64 b, bool neg) {
  constexpr u64 N = 65536;
  u64 v = b * N;
  std::string want = oracle::dec(v);
  for (u64 i = 0; i < N; i++, v++) {
    if (!neg) {
      lexi::FormatInt f(static_cast<unsigned int>(v));
      if (f.size() != want.size() || memcmp(f.data(), want.data(), want.size()) != 0)
        fail_as("exact_value", {5, v}, "unsigned int " + want + " gives " + show(f.string()));
      if (v < 0x80000000u) {
        lexi::FormatInt g(static_cast<int>(v));
        if (g.size() != want.size() || memcmp(g.data(), want.data(), want.size()) != 0)
          fail_as("exact_value", {4, v}, "int " + want + " gives " + show(g.string()));
      }
    } else {
      lexi::FormatInt f(static_cast<int>(-static_cast<i64>(v)));
      const char *p = f.data();
      if (f.size() != want.size() + (v ? 1 : 0) || (v && p[0] != '-') || memcmp(p + (v ? 1 : 0), want.data(), want.size()) != 0)
        fail_as("exact_value", {4, 0 - v}, "int -" + want + " gives " + show(f.string()));
    }
    size_t k = want.size();
    while (k && want[k - 1] == '9') want[--k] = '0';
    if (k) want[k - 1]++; else want.insert(want.begin(), '1');
  }
}
SWEEP(all_u32_blocks, 65536) {
  u64 b = s.draw(65536);
  block(b, false);
  s.enumerated(65536); s.evaluated(65535);
}
SWEEP(all_negative_i32_blocks, 32768) {
  u64 b = s.draw(32768);
  block(b, true);
  s.enumerated(65536); s.evaluated(65535);
}
PROP_NOFUZZ(exact_value, 0, 0) {
  u64 t = s.draw(10), v = s.bits();
  s.desc([&] { return std::string(TYPES[t]) + " from bits " + oracle::dec(v); });
  typed(t, v);
}
// 64-bit values: every four-digit group in every position, in varied company.
SWEEP(digit_groups, 10000 * 5) {
  u64 i = s.draw(10000 * 5), g = i % 10000, pos = i / 10000;
  static const u64 P[] = {1ULL, 10000ULL, 100000000ULL, 1000000000000ULL, 10000000000000000ULL};
  if (pos == 4) g %= 1845;
  u64 n = 0;
  for (int rep = 0; rep < 40; rep++) {
    u128 v = u128(g) * P[pos];
    for (u64 k = 0; k < 5; k++) {
      if (k == pos) continue;
      static const u64 C[] = {0, 9999, 1, 0};
      u64 c = rep < 16 ? C[(u64(rep) >> k) & 3] : s.draw(10000);
      if (k == 4 && rep % 3) c = rep < 16 ? c % 2 : c % 1845;
      if (k == 4 && !(rep % 3)) c = 0;
      v += u128(c) * P[k];
    }
    if (v > UINT64_MAX) continue;
    n++;
    typed(7 + (u64(rep) & 2), u64(v));
    typed(6 + (u64(rep) & 2), 0 - u64(v));
  }
  s.enumerated(n ? 1 : 0); s.evaluated(2 * n);
}
