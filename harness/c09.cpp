// C09: formatting and extracting are inverse for every supported type.
#include "gen.hpp"
#include "oracle.hpp"
#include <ios>
#include <lexi/lexi.hpp>
#include <type_traits>
using namespace pbt;

enum class E_sc : signed char { a }; enum class E_uc : unsigned char { a }; enum class E_s : short { a }; enum class E_us : unsigned short { a };
enum class E_i : int { a }; enum class E_u : unsigned { a }; enum class E_l : long { a }; enum class E_ul : unsigned long { a };
enum class E_ll : long long { a }; enum class E_ull : unsigned long long { a };
enum U_i : int { ui }; enum U_sc : signed char { usc }; enum U_ull : unsigned long long { uull }; enum U_l : long { ul };

template <class T> static void back(T v, const char *name) {
  std::string t = lexi::lexi(v);
  std::string what = std::string(name) + " formatted as " + show(t);
  T a = lexi::lexi<T>(t);
  CHECK(a == v, what + " does not extract as itself");
  auto f = lexi::Format()(v);
  CHECK(f.string() == t, what + ": Format gives " + show(f.string()));
  T b = lexi::Extract<T>()(f.string());
  CHECK(b == v, what + " does not extract as itself with Extract");
  if (t.find('\0') == std::string::npos) {
    T c = lexi::lexi<T>(f.c_str());
    CHECK(c == v, what + " does not extract as itself from a C string");
  }
}
static void by_type(u64 type, u64 v) {
  switch (type) {
    case 0: back<signed char>((signed char)v, "signed char"); break;
    case 1: back<unsigned char>((unsigned char)v, "unsigned char"); break;
    case 2: back<short>(short(v), "short"); break;
    case 3: back<unsigned short>((unsigned short)v, "unsigned short"); break;
    case 4: back<int>(int(v), "int"); break;
    case 5: back<unsigned>(unsigned(v), "unsigned"); break;
    case 6: back<long>(long(v), "long"); break;
    case 7: back<unsigned long>(v, "unsigned long"); break;
    case 8: back<long long>((long long)v, "long long"); break;
    case 9: back<unsigned long long>(v, "unsigned long long"); break;
    case 10: back<E_sc>(E_sc(v), "enum: signed char"); break;
    case 11: back<E_uc>(E_uc(v), "enum: unsigned char"); break;
    case 12: back<E_s>(E_s(v), "enum: short"); break;
    case 13: back<E_us>(E_us(v), "enum: unsigned short"); break;
    case 14: back<E_i>(E_i(v), "enum: int"); break;
    case 15: back<E_u>(E_u(v), "enum: unsigned"); break;
    case 16: back<E_l>(E_l(v), "enum: long"); break;
    case 17: back<E_ul>(E_ul(v), "enum: unsigned long"); break;
    case 18: back<E_ll>(E_ll(v), "enum: long long"); break;
    case 19: back<E_ull>(E_ull(v), "enum: unsigned long long"); break;
    case 20: back<U_i>(U_i(int(v)), "plain enum: int"); break;
    case 21: back<U_sc>(U_sc((signed char)v), "plain enum: signed char"); break;
    case 22: back<U_ull>(U_ull(v), "plain enum: unsigned long long"); break;
    case 23: back<U_l>(U_l(long(v)), "plain enum: long"); break;
    case 24: back<std::streampos>(std::streampos(std::streamoff(v)), "streampos"); break;
    case 25: back<std::wstreampos>(std::wstreampos(std::streamoff(v)), "wstreampos"); break;
    case 26: back<char>(char(v), "char"); break;
    case 27: back<bool>(v & 1, "bool"); break;
    default: back<std::nullptr_t>(nullptr, "null");
  }
}
constexpr u64 NT = 29;
PROP(any_value, 16000000, 500000000) {
  u64 type = s.draw(NT), v = gen::uinteger(s);
  if (s.flip()) v = 0 - v;
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v); });
  if (v > 9) s.nontrivial(v * 31 + type);
  by_type(type, v);
}
PROP(raw_value, 4000000, 100000000) {
  u64 type = s.draw(NT), v = s.bits();
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v); });
  s.nontrivial(v * 31 + type);
  by_type(type, v);
}
SWEEP(small_values, 65536) {
  u64 v = s.draw(65536);
  for (u64 t = 0; t < NT; t++) by_type(t, v);
  s.enumerated(NT); s.evaluated(NT - 1);
}
SWEEP(extremes, 64 * 9) {
  u64 i = s.draw(64 * 9), v = (u64(1) << (i / 9)) + i % 9 - 4;
  for (u64 t = 0; t < NT; t++) { by_type(t, v); by_type(t, 0 - v); }
  s.enumerated(2 * NT); s.evaluated(2 * NT - 1);
}
static void dbl(double v) {
  std::string t = lexi::lexi(v);
  double a = lexi::lexi<double>(t), b = static_cast<double>(lexi::ExtractFloat(t));
  std::string what = oracle::showd(v) + " formatted as " + show(t) + " extracts as " + oracle::showd(a);
  if (v != v) { CHECK(a != a && b != b, what); return; }
  if (v == 0) { CHECK(a == 0 && b == 0, what); return; }
  CHECK(gen::to_bits(a) == gen::to_bits(v), what);
  CHECK(gen::to_bits(b) == gen::to_bits(v), what + " or " + oracle::showd(b));
}
static void ld(double v) {              // the text of a long double has the precision of a double
  std::string t = lexi::lexi((long double)v);
  double r = lexi::lexi<double>(t);
  if (v != v) { CHECK(r != r, "long double NaN does not extract as NaN"); return; }
  CHECK(v == 0 ? r == 0 : gen::to_bits(r) == gen::to_bits(v), "long double " + oracle::showd(v) + " formatted as " + show(t) + " extracts as double " + oracle::showd(r));
}
static void flt(float f) {
  std::string t = lexi::lexi(f);
  float a = lexi::lexi<float>(t);
  if (f != f) { CHECK(a != a, "float NaN"); return; }
  CHECK(f == 0 ? a == 0 : gen::f_to_bits(a) == gen::f_to_bits(f), "float " + oracle::showd(f) + " formatted as " + show(t) + " extracts as " + oracle::showd(a));
}
PROP(any_double, 16000000, 600000000) {
  double v = gen::anydouble(s);
  s.desc([&] { return oracle::showd(v); });
  if (v != 0) s.nontrivial(gen::to_bits(v));
  dbl(v);
  if (s.draw(4) == 0) ld(v);
}
PROP(raw_double, 6000000, 300000000) {
  u64 u = s.bits();
  s.desc([&] { return oracle::showd(gen::from_bits(u)); });
  s.nontrivial(u);
  dbl(gen::from_bits(u));
}
PROP(any_float, 8000000, 400000000) {
  u32 u = u32(s.draw(u64(1) << 32));
  s.desc([&] { return "float " + oracle::showd(gen::f_from_bits(u)); });
  s.nontrivial(u);
  flt(gen::f_from_bits(u));
}
SWEEP(exponents, 2048) {
  u64 e = s.draw(2048), n = 0;
  for (u64 i = 0; i < 120; i++)
    for (u64 m : {i, (u64(1) << 52) - 1 - i, (u64(1) << 51) + i, s.bits() >> 12})
      for (u64 sign : {u64(0), u64(1) << 63}) { double v = gen::from_bits(sign | e << 52 | m); dbl(v); ld(v); flt(float(v)); n++; }
  s.enumerated(n); s.evaluated(n - 1);
}
