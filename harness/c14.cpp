// C14: all views of a formatted value agree.
#include "gen.hpp"
#include "oracle.hpp"
#include <ios>
#include <lexi/lexi.hpp>
#include <new>
using namespace pbt;

enum class E_sc : signed char {}; enum class E_uc : unsigned char {}; enum class E_s : short {}; enum class E_us : unsigned short {};
enum class E_i : int {}; enum class E_u : unsigned {}; enum class E_l : long {}; enum class E_ul : unsigned long {};
enum class E_ll : long long {}; enum class E_ull : unsigned long long {};

// What size, length, data, c_str, string and the conversion say about f.
template <class F> static std::string views(const F &f, const std::string &what) {
  size_t n = f.size();
  const char *d = f.data(), *c = f.c_str();
  CHECK(n < 64, what + ": size() is " + oracle::dec(n));
  CHECK(f.length() == n, what + ": size() is " + oracle::dec(n) + ", length() " + oracle::dec(f.length()));
  CHECK(d == c, what + ": data() and c_str() differ");
  std::string t(d, n);
  CHECK(d[n] == '\0', what + ": " + show(t) + " is not null-terminated, a byte " + oracle::dec((unsigned char)d[n]) + " follows");
  std::string a = f.string(), b = std::string(f);
  CHECK(a == t, what + ": data is " + show(t) + ", string() " + show(a));
  CHECK(b == t, what + ": data is " + show(t) + ", the conversion gives " + show(b));
  CHECK(f.data() == d && f.size() == n, what + ": data() or size() changes when called again");
  return t;
}
// Build a formatter on memory that holds other things, and look at it.
template <class F, class T> static std::string build(T v, unsigned char fill, u64 step, const std::string &what, std::string &esc, std::string &json) {
  struct alignas(F) Mem { unsigned char before[16], b[sizeof(F)], after[16]; } m;
  unsigned char *p = reinterpret_cast<unsigned char *>(&m);
  for (size_t i = 0; i < sizeof m; i++) p[i] = static_cast<unsigned char>(fill + i * step);
  asm volatile("" : : "r"(p) : "memory");
  F *f = new (m.b) F(v);
  std::string t = views(*f, what);
  esc = f->escape(); json = f->jsonify();
  f->~F();
  for (size_t i = 0; i < 16; i++) {
    size_t k = sizeof(F) + 16 + i;
    CHECK(m.before[i] == static_cast<unsigned char>(fill + i * step), what + ": memory before the object changed");
    CHECK(m.after[i] == static_cast<unsigned char>(fill + k * step), what + ": memory behind the object changed");
  }
  return t;
}
// F: the class, T: the type, W: the model text, or empty if the views only have to agree
template <class F, class T> static void check(T v, const std::string &want, bool known, unsigned char fill, u64 step, const char *name) {
  std::string what = name, esc, json;
  std::string t = build<F, T>(v, fill, step, what, esc, json);
  if (known) CHECK(t == want, what + " " + show(want) + ": the text is " + show(t));
  auto g = lexi::Format()(v);
  std::string u = views(g, what + " by Format");
  CHECK(u == t, what + ": Format gives " + show(u) + ", the class " + show(t));
  CHECK(g.escape() == esc && g.jsonify() == json, what + ": Format's escape or jsonify differ from the class's");
  CHECK(lexi::lexi(v) == t, what + ": lexi() gives " + show(lexi::lexi(v)) + ", the class " + show(t));
  CHECK(lexi::string(v) == t, what + ": string() gives " + show(lexi::string(v)) + ", the class " + show(t));
  CHECK(lexi::escape(v) == esc, what + ": escape() gives " + show(lexi::escape(v)) + ", the class " + show(esc));
  CHECK(lexi::jsonify(v) == json, what + ": jsonify() gives " + show(lexi::jsonify(v)) + ", the class " + show(json));
}
static void by_type(u64 type, u64 v, unsigned char fill, u64 step) {
  switch (type) {
#define I(n, T) case n: check<lexi::FormatInt, T>(static_cast<T>(v), oracle::dec_of(static_cast<T>(v)), true, fill, step, #T); break;
#define E(n, T, U) case n: check<lexi::FormatEnum, T>(static_cast<T>(static_cast<U>(v)), oracle::dec_of(static_cast<U>(v)), true, fill, step, #T); break;
    I(0, signed char) I(1, unsigned char) I(2, short) I(3, unsigned short) I(4, int) I(5, unsigned) I(6, long) I(7, unsigned long) I(8, long long)
    I(9, unsigned long long)
    E(10, E_sc, signed char) E(11, E_uc, unsigned char) E(12, E_s, short) E(13, E_us, unsigned short) E(14, E_i, int) E(15, E_u, unsigned)
    E(16, E_l, long) E(17, E_ul, unsigned long) E(18, E_ll, long long) E(19, E_ull, unsigned long long)
    case 20: check<lexi::FormatChar, char>(char(v), std::string(1, char(v)), true, fill, step, "char"); break;
    case 21: check<lexi::FormatBool, bool>(v & 1, v & 1 ? "true" : "false", true, fill, step, "bool"); break;
    case 22: check<lexi::FormatNull, std::nullptr_t>(nullptr, "null", true, fill, step, "null"); break;
    case 23: { lexi::FormatNull f; std::string t = views(f, "FormatNull()"); CHECK(t == "null", "FormatNull() gives " + show(t)); break; }
    case 24: { lexi::FormatChar f(static_cast<unsigned char>(v)); std::string t = views(f, "FormatChar(unsigned char)");
               CHECK(t == std::string(1, char(v)), "FormatChar(unsigned char) gives " + show(t)); break; }
    default: { auto f = lexi::Format()(std::streampos(std::streamoff(v))); std::string t = views(f, "streampos");
               CHECK(t == oracle::dec_of((long long)v), "streampos gives " + show(t)); }
  }
}
constexpr u64 NT = 26;
static void flt(double v, u64 kind, unsigned char fill, u64 step) {
  if (kind == 0) check<lexi::FormatFloat, double>(v, v != v ? "NaN" : std::isinf(v) ? (v > 0 ? "Infinity" : "-Infinity") : "", !std::isfinite(v), fill, step, "double");
  else if (kind == 1) check<lexi::FormatFloat, float>(float(v), "", false, fill, step, "float");
  else check<lexi::FormatFloat, long double>((long double)v, "", false, fill, step, "long double");
  if (std::isfinite(v) && kind != 1) {          // the text is all of the number, and nothing else
    lexi::FormatFloat f(v);
    double r;
    std::string t(f.data(), f.size());
    CHECK(oracle::read_double(t, r) && r == v, oracle::showd(v) + ": the text is " + show(t));
  }
}
PROP(any_value, 8000000, 250000000) {
  u64 type = s.draw(NT), v = gen::uinteger(s);
  unsigned char fill = static_cast<unsigned char>(s.draw(256)); u64 step = s.draw(3);
  if (s.flip()) v = 0 - v;
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v) + " on memory filled from " + oracle::dec(fill); });
  if (v > 9) s.nontrivial(v * 31 + type);
  by_type(type, v, fill, step);
}
PROP(any_float, 9000000, 300000000) {
  double v = gen::anydouble(s); u64 k = s.draw(3);
  unsigned char fill = static_cast<unsigned char>(s.draw(256)); u64 step = s.draw(3);
  s.desc([&] { return oracle::showd(v) + " on memory filled from " + oracle::dec(fill); });
  if (v != 0) s.nontrivial(gen::to_bits(v) + k);
  flt(v, k, fill, step);
}
PROP(raw_value, 3000000, 100000000) {
  u64 type = s.draw(NT + 3), v = s.bits();
  unsigned char fill = static_cast<unsigned char>(s.draw(256));
  s.desc([&] { return "type " + oracle::dec(type) + " from bits " + oracle::dec(v); });
  s.nontrivial(v * 31 + type);
  if (type < NT) by_type(type, v, fill, 1); else flt(gen::from_bits(v), type - NT, fill, 1);
}
SWEEP(small_values, 65536) {
  u64 v = s.draw(65536);
  for (u64 t = 0; t < NT; t++) by_type(t, v, static_cast<unsigned char>(v * 7 + t), t % 3);
  s.enumerated(NT); s.evaluated(NT - 1);
}
SWEEP(extremes, 64 * 9) {
  u64 i = s.draw(64 * 9), v = (u64(1) << (i / 9)) + i % 9 - 4;
  for (u64 t = 0; t < NT; t++) for (int fill : {0, 48, 57, 255}) { by_type(t, v, static_cast<unsigned char>(fill), 0); by_type(t, 0 - v, static_cast<unsigned char>(fill), 0); }
  s.enumerated(2 * NT); s.evaluated(8 * NT - 1);
}
SWEEP(exponents, 4096) {
  u64 e = s.draw(4096), n = 0;
  for (u64 i = 0; i < 60; i++) for (u64 m : {i, (u64(1) << 52) - 1 - i, s.bits() >> 12}) { flt(gen::from_bits(e << 52 | m), i % 3, static_cast<unsigned char>(n * 5), n % 3); n++; }
  s.enumerated(n); s.evaluated(n - 1);
}
SWEEP(decimal_exponents, 640 * 17) {    // every number of digits at every decimal exponent, on digits as old contents
  u64 i = s.draw(640 * 17);
  long k = long(i % 640) - 330; u64 n = i / 640 + 1;
  std::string t = std::string("12345678912345678").substr(0, n) + "e" + std::to_string(k - long(n) + 1);
  double v = strtod(t.c_str(), nullptr);
  for (int fill : {0, int('0'), int('9'), int('e'), 255}) { flt(v, 0, static_cast<unsigned char>(fill), 0); flt(-v, 0, static_cast<unsigned char>(fill), 0); }
  s.enumerated(2); s.evaluated(9);
}
