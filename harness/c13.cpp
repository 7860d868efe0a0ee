// C13: non-string values become bare JSON tokens equal to their plain text.
#include "gen.hpp"
#include "oracle.hpp"
#include <ios>
#include <lexi/lexi.hpp>
using namespace pbt;

enum class E_sc : signed char {}; enum class E_uc : unsigned char {}; enum class E_s : short {}; enum class E_us : unsigned short {};
enum class E_i : int {}; enum class E_u : unsigned {}; enum class E_l : long {}; enum class E_ul : unsigned long {};
enum class E_ll : long long {}; enum class E_ull : unsigned long long {}; enum U_i : int { ui = -1 };

template <class T> static std::string forms(T v, const char *name) {
  std::string t = lexi::lexi(v), e = lexi::escape(v), j = lexi::jsonify(v), p = lexi::string(v);
  CHECK(p == t, std::string(name) + ": string() gives " + show(p) + ", lexi() " + show(t));
  CHECK(e == t, std::string(name) + ": the escaped form of " + show(t) + " is " + show(e));
  CHECK(j == t, std::string(name) + ": the JSON form of " + show(t) + " is " + show(j));
  auto f = lexi::Format()(v);
  CHECK(f.string() == t && f.escape() == t && f.jsonify() == t,
        std::string(name) + " " + show(t) + ": the formatter gives " + show(f.string()) + ", escaped " + show(f.escape()) + ", as JSON " + show(f.jsonify()));
  return j;
}
template <class T> static void integer(T v, const std::string &want, const char *name) {
  std::string j = forms(v, name);
  CHECK(j == want, std::string(name) + " " + want + " gives " + show(j));
  CHECK(oracle::json_number(j), show(j) + " is not a JSON number");
}
static void by_type(u64 type, u64 v) {
  switch (type) {
#define I(n, T) case n: integer<T>(static_cast<T>(v), oracle::dec_of(static_cast<T>(v)), #T); break;
#define E(n, T, U) case n: integer<T>(static_cast<T>(static_cast<U>(v)), oracle::dec_of(static_cast<U>(v)), #T); break;
    I(0, signed char) I(1, unsigned char) I(2, short) I(3, unsigned short) I(4, int) I(5, unsigned) I(6, long) I(7, unsigned long) I(8, long long)
    I(9, unsigned long long)
    E(10, E_sc, signed char) E(11, E_uc, unsigned char) E(12, E_s, short) E(13, E_us, unsigned short) E(14, E_i, int) E(15, E_u, unsigned)
    E(16, E_l, long) E(17, E_ul, unsigned long) E(18, E_ll, long long) E(19, E_ull, unsigned long long) E(20, U_i, int)
    E(21, std::streampos, std::streamoff)
    case 22: { std::string j = forms<bool>(v & 1, "bool"); CHECK(j == (v & 1 ? "true" : "false"), "bool gives " + show(j)); break; }
    default: { std::string j = forms<std::nullptr_t>(nullptr, "null"); CHECK(j == "null", "null gives " + show(j)); }
  }
}
constexpr u64 NT = 24;
static void flt(double v, u64 kind) {
  std::string j = kind == 0 ? forms<double>(v, "double") : kind == 1 ? forms<float>(float(v), "float") : forms<long double>((long double)v, "long double");
  bool finite = kind == 1 ? std::isfinite(float(v)) : std::isfinite(v);
  if (finite) CHECK(oracle::json_number(j), oracle::showd(v) + " gives " + show(j) + ", which is not a JSON number");
}
PROP(any_value, 25000000, 300000000) {
  u64 type = s.draw(NT), v = gen::uinteger(s);
  if (s.flip()) v = 0 - v;
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v); });
  if (v > 9) s.nontrivial(v * 31 + type);
  by_type(type, v);
}
PROP(any_float, 30000000, 400000000) {
  double v = gen::anydouble(s); u64 k = s.draw(3);
  s.desc([&] { return oracle::showd(v); });
  if (v != 0) s.nontrivial(gen::to_bits(v) + k);
  flt(v, k);
}
PROP(raw_value, 3000000, 100000000) {
  u64 type = s.draw(NT + 3), v = s.bits();
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v); });
  s.nontrivial(v * 31 + type);
  if (type < NT) by_type(type, v); else flt(gen::from_bits(v), type - NT);
}
SWEEP(small_values, 65536) {
  u64 v = s.draw(65536);
  for (u64 t = 0; t < NT; t++) by_type(t, v);
  s.enumerated(NT); s.evaluated(NT - 1);
}
SWEEP(extremes, 64 * 9) {
  u64 i = s.draw(64 * 9), v = (u64(1) << (i / 9)) + i % 9 - 4;
  for (u64 t = 0; t < NT; t++) { by_type(t, v); by_type(t, 0 - v); }
  s.enumerated(2 * NT); s.evaluated(2 * NT - 1);
}
SWEEP(exponents, 4096) {
  u64 e = s.draw(4096), n = 0;
  for (u64 i = 0; i < 200; i++) for (u64 m : {i, (u64(1) << 52) - 1 - i, s.bits() >> 12}) { flt(gen::from_bits(e << 52 | m), i % 3); n++; }
  s.enumerated(n); s.evaluated(n - 1);
}
