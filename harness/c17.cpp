// C17: no input makes the library touch memory outside its buffers or run into UB.
// (Built with AddressSanitizer and UndefinedBehaviorSanitizer.)
#include "calls.hpp"
#include "places.hpp"
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/dtoa.hpp>
#include <lexi/detail/fmt.hpp>
#include <lexi/detail/itoa.hpp>
#include <lexi/detail/pow.hpp>
#include <lexi/detail/string.hpp>
#include <memory>
using namespace pbt;
using namespace calls;

// A heap block of exactly n bytes, filled; its end is the end of the block.
struct Block {
  char *p; size_t n; char fill;
#ifdef MEMCHECK
  Block(size_t n_, char f) : p(static_cast<char *>(malloc(n_))), n(n_), fill(f) {}      // undefined on purpose
#else
  Block(size_t n_, char f) : p(static_cast<char *>(malloc(n_))), n(n_), fill(f) { memset(p, f, n); }
#endif
  ~Block() { free(p); }
};
// Decides on every byte, so that valgrind sees undefined ones.
static volatile unsigned sink;
static void read_all(const char *p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] == 0x7f) sink = sink + 1; }
static void read_all(const std::string &s) { read_all(s.data(), s.size()); }
static void buffer_float(double v, char fill) {
  if (!std::isfinite(v)) return;
  Block b(lexi::detail::FLOAT_SIZE, fill);
  char *e = lexi::detail::dtoa(v, b.p);
  CHECK(e > b.p && e < b.p + b.n, "dtoa writes " + std::to_string(e - b.p) + " characters");
  read_all(b.p, size_t(e - b.p));
}
static void buffer_int(u64 v, char fill) {
  Block b(lexi::detail::INTEGER_SIZE, fill);
  CHECK(lexi::detail::u64toa(v, b.p) < b.p + b.n, "u64toa leaves no room for the terminator");
  CHECK(lexi::detail::i64toa(i64(v), b.p) < b.p + b.n, "i64toa leaves no room for the terminator");
  CHECK(lexi::detail::u32toa(u32(v), b.p) < b.p + b.n, "u32toa leaves no room for the terminator");
  CHECK(lexi::detail::i32toa(int32_t(v), b.p) < b.p + b.n, "i32toa leaves no room for the terminator");
}
template <class F, class T> static void object(T v, char fill) {
  Block b(sizeof(F), fill);
  F *f = new (b.p) F(v);
  size_t n = f->size();
  CHECK(n <= 32, "size() is " + oracle::dec(n));
  read_all(f->data(), n + 1); read_all(f->c_str(), n + 1);
  read_all(f->string() + f->escape() + f->jsonify() + std::string(*f));
  f->~F();
}
static void number(u64 v, char fill) {
  double d = gen::from_bits(v);
  buffer_float(d, fill); buffer_int(v, fill);
  object<lexi::FormatInt, unsigned long long>(v, fill);
  object<lexi::FormatInt, long long>((long long)v, fill);
  object<lexi::FormatInt, int>(int(v), fill);
  object<lexi::FormatInt, signed char>((signed char)v, fill);
  object<lexi::FormatFloat, double>(d, fill);
  object<lexi::FormatFloat, float>(float(d), fill);
  object<lexi::FormatFloat, long double>((long double)d, fill);
  object<lexi::FormatChar, char>(char(v), fill);
  object<lexi::FormatBool, bool>(v & 1, fill);
  object<lexi::FormatEnum, ES>(ES((signed char)v), fill);
}
// Texts that end where their memory ends.
static void texts(const std::string &t) {
  std::string x(t);
  x.shrink_to_fit();                                    // beyond 15 bytes: a block of size + 1
  std::string e = lexi::escape(x), j = lexi::jsonify(x);
  CHECK(e.size() >= x.size() && e.size() <= 2 * x.size() && j.size() >= x.size() + 2 && j.size() <= 6 * x.size() + 2, "sizes of the escaped forms");
  Call c; c.text = x;
  read_all(e); read_all(j);
  for (c.kind = FORMATS; c.kind < KINDS; c.kind++) read_all(perform(c));
  size_t n = std::min(x.find('\0'), x.size());
  Block b(n + 1, 'z');
  memcpy(b.p, x.data(), n); b.p[n] = 0;
  const char *p = b.p;
  lexi::escape(p); lexi::jsonify(p); lexi::lexi(p); lexi::string(p);
  lexi::lexi<double>(p); lexi::lexi<float>(p); lexi::lexi<long double>(p); lexi::lexi<int>(p); lexi::lexi<unsigned long long>(p);
  try { lexi::lexi<bool>(p); } catch (const std::runtime_error &) {}
  try { lexi::lexi<std::nullptr_t>(p); } catch (const std::runtime_error &) {}
  try { lexi::lexi<char>(p); } catch (const std::runtime_error &) {}
  u64 h = hash_str(x);
  if (h & 1) return;
  places::Under place(h >> 1, false);                   // where numbers are read in another way
  for (c.kind = FORMATS + TEXTS; c.kind < KINDS; c.kind++) read_all(perform(c));
  lexi::lexi<double>(p); lexi::lexi<float>(p); lexi::lexi<long double>(p);
}
static std::string numeral(Src &s) {                    // long numerals, no terminator in sight
  std::string t = s.flip() ? "-" : "";
  u64 n = s.draw(3) ? s.draw(40) : s.draw(500);
  for (; n; n--) t += char('0' + s.draw(10));
  if (s.flip()) { t += '.'; for (u64 k = s.draw(60); k; k--) t += char('0' + s.draw(10)); }
  if (s.flip()) { t += 'e'; if (s.flip()) t += '-'; for (u64 k = s.draw(12); k; k--) t += char('0' + s.draw(10)); }
  return t;
}
PROP(numbers, 1200000, 40000000) {
  u64 v = s.draw(3) ? gen::to_bits(gen::anydouble(s)) : gen::uinteger(s);
  s.desc([&] { return oracle::showd(gen::from_bits(v)) + ", integer " + oracle::dec(v); });
  s.nontrivial(v);
  number(v, char(s.draw(256)));
}
PROP(raw_numbers, 600000, 20000000) {
  u64 v = s.bits();
  s.desc([&] { return oracle::showd(gen::from_bits(v)) + ", integer " + oracle::dec(v); });
  s.nontrivial(v);
  number(v, 'x');
}
PROP(any_text, 300000, 10000000) {
  std::string t = s.flip() ? gen::bytes(s) : numeral(s);
  s.desc([&] { return show(t); });
  if (t.size() > 1) s.nontrivial(hash_str(t));
  texts(t);
}
PROP(raw_text, 200000, 8000000) {
  std::string t;
  while (!s.exhausted() && t.size() < 64 && (s.mode == Src::BYTES || s.draw(30))) t += char(s.draw(256));
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  texts(t);
}
PROP_NOFUZZ(long_texts, 800, 30000) {
  u64 n = 1000 + s.draw(100000);
  std::string t(n, s.flip() ? '9' : char(s.draw(256)));
  for (u64 k = s.draw(5); k; k--) t[s.draw(n)] = char(s.draw(256));
  s.desc([&] { return show(t, 40); });
  s.nontrivial(hash_str(t));
  texts(t);
}
SWEEP(exponents, 4096) {
  u64 e = s.draw(4096), n = 0;
  for (u64 i = 0; i < 20; i++) for (u64 m : {i, (u64(1) << 52) - 1 - i, (u64(1) << 51) + i, s.bits() >> 12}) { number(e << 52 | m, char(n)); n++; }
  s.enumerated(n - 20); s.evaluated(n - 1);
}
SWEEP(decimal_exponents, 640 * 17) {    // the longest texts: 17 digits at every decimal exponent
  u64 i = s.draw(640 * 17);
  long k = long(i % 640) - 330; u64 n = i / 640 + 1;
  for (const char *d : {"12345678912345678", "99999999999999999", "50000000000000001"}) {
    std::string t = std::string(d).substr(0, n) + "e" + std::to_string(k - long(n) + 1);
    double v = strtod(t.c_str(), nullptr);
    number(gen::to_bits(v), 'y'); number(gen::to_bits(-v), 'y');
  }
  s.enumerated(6); s.evaluated(5);
}
SWEEP(integers, 64 * 9 + 20 * 9) {
  u64 i = s.draw(64 * 9 + 20 * 9);
  u64 v = i < 576 ? (u64(1) << (i / 9)) + i % 9 - 4 : gen::pow10_table()[(i - 576) / 9] + i % 9 - 4;
  number(v, 'q'); number(0 - v, 'q');
  s.enumerated(2); s.evaluated(1);
}
SWEEP(short_texts, 65536 + 257) {
  u64 i = s.draw(65536 + 257);
  std::string t;
  if (i > 256) { t += char((i - 257) & 255); t += char((i - 257) >> 8); } else if (i) t += char(i - 1);
  texts(t);
  texts(std::string(14, t.empty() ? 'a' : t[0]) + t);
  s.enumerated(2); s.evaluated(1);
}
// Internal big integers and powers, in and beyond their capacity.
PROP(big_integers, 60000, 2000000) {
  using lexi::detail::BigInteger;
  std::unique_ptr<BigInteger> a(new BigInteger(s.bits())), b(new BigInteger(s.bits()));
  u64 n = 0;
  while (n++ < 24 && s.more(8)) {
    try {
      switch (s.draw(9)) {
        case 0: *a += s.bits(); break;
        case 1: *a *= s.bits(); break;
        case 2: *a *= u32(s.bits()); break;
        case 3: *a <<= s.draw(3) ? s.draw(200) : s.draw(40000); break;
        case 4: a->mulPow5(unsigned(s.draw(3) ? s.draw(60) : s.draw(12000))); break;
        case 5: { std::string d; for (u64 k = 1 + s.draw(s.flip() ? 40 : 1200); k; k--) d += char('0' + s.draw(10));
                  Block t(d.size(), 0); memcpy(t.p, d.data(), d.size()); b.reset(new BigInteger(t.p, d.size())); break; }
        case 6: { BigInteger c(uint64_t(0)); a->difference(*b, &c); break; }
        case 7: std::swap(a, b); break;
        default: *a = *b; (void)(a->compare(*b)); (void)(*a == *b);
      }
    } catch (const std::runtime_error &) {}
  }
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
}
SWEEP(powers, 309) { int n = int(s.draw(309)); CHECK(lexi::detail::pow10(n) > 0, "pow10"); s.enumerated(1); }
