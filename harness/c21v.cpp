// One build of the library, behind a table of functions.  Compiled with
// -Dlexi=<a name of its own>, so that several builds fit in one program.
#include "c21api.hpp"
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/dtoa.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/itoa.hpp>
#include <lexi/detail/pow.hpp>
#include <memory>
#include <cstring>
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace {
using namespace c21;
namespace L = ::lexi;           // the build
namespace D = ::lexi::detail;
enum class E8 : signed char {}; enum class EU8 : unsigned char {}; enum class EI : int {}; enum class EULL : unsigned long long {};

template <class T> std::string forms(const T &v) {
  auto f = L::Format()(v);
  return std::string(f.data(), f.size()) + "|" + f.escape() + "|" + f.jsonify() + "|" + L::string(v);
}
std::string integer(unsigned k, uint64_t v) {
  switch (k) {
    case 0: return forms((signed char)v);
    case 1: return forms((unsigned char)v);
    case 2: return forms((short)v);
    case 3: return forms((unsigned short)v);
    case 4: return forms((int)v);
    case 5: return forms((unsigned)v);
    case 6: return forms((long)v);
    case 7: return forms((unsigned long)v);
    case 8: return forms((long long)v);
    default: return forms((unsigned long long)v);
  }
}
std::string floating(unsigned k, long double v) {
  switch (k) { case 0: return forms((float)v); case 1: return forms((double)v); default: return forms(v); }
}
std::string other(unsigned k, uint64_t v) {
  switch (k) {
    case 0: return forms((char)v);
    case 1: return forms(bool(v & 1));
    case 2: return forms(nullptr);
    case 3: return forms(E8((signed char)v));
    case 4: return forms(EU8((unsigned char)v));
    case 5: return forms(EI((int)v));
    default: return forms(EULL(v));
  }
}
std::string text(unsigned k, const std::string &t) { return k == 0 ? L::escape(t) : k == 1 ? L::jsonify(t) : L::string(t); }
template <class T> std::string bytes(T v, size_t n) {
  unsigned char b[16] = {0};
  memcpy(b, &v, n);
  std::string o;
  for (size_t i = n; i-- > 0;) { o += "0123456789abcdef"[b[i] >> 4]; o += "0123456789abcdef"[b[i] & 15]; }
  return o;
}
std::string extract(unsigned k, const std::string &t) {
  try {
    switch (k) {
      case 0: { auto v = (signed char)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 1: { auto v = (unsigned char)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 2: { auto v = (short)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 3: { auto v = (unsigned short)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 4: { auto v = (int)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 5: { auto v = (unsigned)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 6: { auto v = (long long)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 7: { auto v = (unsigned long long)L::ExtractInt(t); return bytes(v, sizeof v); }
      case 8: { auto v = (double)L::ExtractFloat(t); if (v != v) return "nan"; return bytes(v, 8); }
      case 9: { auto v = (float)L::ExtractFloat(t); if (v != v) return "nan"; return bytes(v, 4); }
      case 10: { auto v = (long double)L::ExtractFloat(t); if (v != v) return "nan"; return bytes(v, 10); }
      case 11: return bool(L::ExtractBool(t)) ? "true" : "false";
      case 12: return bytes(char(L::ExtractChar(t)), 1);
      default: L::ExtractNull n(t); return "null";
    }
  } catch (const std::exception &) { return "throws"; }
}
std::string buffer(unsigned k, uint64_t v) {
  char b[64];
  memset(b, 'Z', sizeof b);
  char *e; double d;
  switch (k) {
    case 0: e = D::u32toa((uint32_t)v, b); break;
    case 1: e = D::i32toa((int32_t)v, b); break;
    case 2: e = D::u64toa(v, b); break;
    case 3: e = D::i64toa((int64_t)v, b); break;
    default: memcpy(&d, &v, 8); e = D::dtoa(d, b);
  }
  return std::string(b, size_t(e - b));
}
Fp out(const D::DiyFp &d) { return Fp{d.f, d.e}; }
D::DiyFp in(Fp a) { return D::DiyFp(a.f, a.e); }
Fp decompose(double v) { return out(D::DiyFp(v)); }
Fp product(Fp a, Fp b) { return out(in(a) * in(b)); }
Fp minus(Fp a, Fp b) { return out(in(a) - in(b)); }
Fp normalize(Fp a) { return out(in(a).normalize()); }
Fp normalize_boundary(Fp a) { return out(in(a).normalizeBoundary()); }
void boundaries(Fp a, Fp *lo, Fp *hi) { D::DiyFp x, y; in(a).normalizedBoundaries(&x, &y); *lo = out(x); *hi = out(y); }
std::string bigint(const std::vector<Op> &ops) {
  D::BigInteger a(uint64_t(1)), b(uint64_t(0));
  std::string o;
  for (auto &x : ops) {
    try {
      switch (x.kind) {
        case 0: a += x.arg; break;
        case 1: a *= x.arg; break;
        case 2: a *= uint32_t(x.arg); break;
        case 3: a <<= size_t(x.arg % 300); break;
        case 4: a.mulPow5(unsigned(x.arg % 120)); break;
        case 5: a = D::BigInteger(x.text.data(), x.text.size()); break;
        case 6: { D::BigInteger c(uint64_t(0)); o += a.difference(b, &c) ? '<' : '>'; a = c; break; }
        case 7: { D::BigInteger c(a); a = b; b = c; break; }
        case 8: { int c = a.compare(b); o += c < 0 ? 'l' : c > 0 ? 'g' : 'e'; o += a == b ? '=' : '!'; break; }
        default: b = x.arg;
      }
    } catch (const std::exception &) { o += "!throws"; return o; }
  }
  for (const D::BigInteger *p : {&a, &b}) {
    size_t n = p->count();
    while (n > 1 && p->digit(n - 1) == 0) n--;
    for (size_t i = 0; i < n; i++) o += " " + bytes(p->digit(i), 8);
    o += p->isZero() ? "z" : ";";
  }
  return o;
}
unsigned classify(double v) {
  return unsigned(D::isNan(v)) | unsigned(D::isInf(v)) << 1 | unsigned(D::isInfinity(v)) << 2 | unsigned(D::isNegativeInfinity(v)) << 3 | unsigned(D::isFinite(v)) << 4 |
         unsigned(D::isZero(v)) << 5 | unsigned(D::isPositive(v)) << 6;
}
double power(int n) { return D::pow10(n); }
}
extern const c21::Api CAT(api_, BUILD);
const c21::Api CAT(api_, BUILD) = {BUILD_NAME, LONG32, integer, floating, other, text, extract, buffer, decompose, product, minus, normalize, normalize_boundary, boundaries, bigint, classify, power};
