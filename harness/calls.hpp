// One call of the library, as data: what to call, with which bits and text.
#pragma once
#include "gen.hpp"
#include "oracle.hpp"
#include <cerrno>
#include <ios>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/pow.hpp>
#include <sys/socket.h>

namespace calls {
using namespace pbt;

enum class ES : signed char {}; enum class EU : unsigned long long {};

struct Call { u64 kind = 0, bits = 0; std::string text; };
constexpr u64 FORMATS = 17, TEXTS = 3, EXTRACTS = 16, KINDS = FORMATS + TEXTS + EXTRACTS;

template <class T> std::string num(T v) {
  if (std::is_floating_point<T>::value) {
    long double l = (long double)v;                     // its bytes: printf would follow the locale
    if (l != l) return "nan";
    unsigned char b[10]; memcpy(b, &l, 10);
    std::string o = "bits ";
    for (int i = 9; i >= 0; i--) { o += "0123456789abcdef"[b[i] >> 4]; o += "0123456789abcdef"[b[i] & 15]; }
    return o;
  }
  return v < 0 ? oracle::dec_signed(i64(v)) : oracle::dec(u64(v));
}
template <class T> std::string all_forms(const T &v) {
  auto f = lexi::Format()(v);
  return lexi::lexi(v) + "|" + lexi::string(v) + "|" + lexi::escape(v) + "|" + lexi::jsonify(v) + "|" + std::string(f.data(), f.size());
}
// Big-integer and extended-precision arithmetic on numbers derived from v.
inline std::string big(u64 v) {
  using lexi::detail::BigInteger;
  using lexi::detail::DiyFp;
  std::string t = oracle::dec(mix(v)) + oracle::dec(v) + oracle::dec(mix(v + 1)), o;
  BigInteger a(v), b(t.data(), t.size()), c(u64(0));
  ((a *= v | 1) <<= v % 200) += mix(v);
  a.mulPow5(unsigned(v >> 8) % 90) *= uint32_t(v);
  b *= mix(v + 2);
  o = a.compare(b) < 0 ? "<" : ">";
  if (a.compare(b) != 0) { a.difference(b, &c); a = c; }
  static const char *X = "0123456789abcdef";
  for (size_t i = 0; i < a.count(); i++) { o += ' '; for (int k = 60; k >= 0; k -= 4) o += X[a.digit(i) >> k & 15]; }
  DiyFp x = DiyFp(mix(v) | u64(1) << 63, 0) * DiyFp(mix(v + 3), -3), m, q;
  double d = gen::from_bits((v & ~(u64(0x7ff) << 52)) | (1 + (v >> 52) % 2046) << 52);
  DiyFp(d).normalizedBoundaries(&m, &q);
  return o + " " + oracle::dec(x.f) + " " + oracle::dec_signed(x.e) + " " + oracle::dec(m.f) + " " + oracle::dec(q.f) + " " + oracle::dec_signed(q.e) + " " + num(lexi::detail::pow10(int(v % 309)));
}
// Performs the call and describes the outcome, exceptions included.
inline std::string perform(const Call &c) {
  u64 k = c.kind, v = c.bits;
  double d = gen::from_bits(v);
  const std::string &t = c.text;
  try {
    switch (k) {
      case 0: return all_forms((signed char)v);
      case 1: return all_forms((unsigned char)v);
      case 2: return all_forms((short)v);
      case 3: return all_forms((unsigned short)v);
      case 4: return all_forms((int)v);
      case 5: return all_forms((unsigned)v);
      case 6: return all_forms((long)v);
      case 7: return all_forms((unsigned long)v);
      case 8: return all_forms((long long)v);
      case 9: return all_forms(d);
      case 10: return all_forms(float(d));
      case 11: return all_forms((long double)d * (1.0L + std::ldexp((long double)(v & 255), -62)));
      case 12: return all_forms(char(v));
      case 13: return v & 1 ? all_forms(bool(v & 2)) : all_forms(nullptr);
      case 14: return v & 1 ? all_forms(ES((signed char)(v >> 1))) : all_forms(EU(v));
      case 15: return all_forms(std::streampos(std::streamoff(v)));
      case 16: return big(v);
      case 17: return lexi::escape(t);
      case 18: return lexi::jsonify(t);
      case 19: return lexi::lexi(t) + lexi::string(t.c_str());
      case 20: return num(int(lexi::lexi<signed char>(t)));
      case 21: return num(int(lexi::lexi<unsigned char>(t)));
      case 22: return num(lexi::lexi<short>(t));
      case 23: return num(lexi::lexi<unsigned short>(t));
      case 24: return num(lexi::lexi<int>(t));
      case 25: return num(lexi::lexi<unsigned>(t));
      case 26: return num(lexi::lexi<long>(t));
      case 27: return num(lexi::lexi<unsigned long>(t));
      case 28: return num(lexi::lexi<long long>(t));
      case 29: return num(lexi::lexi<unsigned long long>(t));
      case 30: return num(lexi::lexi<double>(t));
      case 31: return num(lexi::lexi<float>(t));
      case 32: return num(lexi::lexi<long double>(t));
      case 33: return lexi::lexi<bool>(t) ? "true" : "false";
      case 34: return std::string(1, lexi::lexi<char>(t));
      default: return lexi::lexi<std::nullptr_t>(t) == nullptr ? "null" : "not null";
    }
  } catch (const std::exception &e) {
    return std::string("throws ") + e.what();
  } catch (...) {
    return "throws something";
  }
}
inline std::string describe(const Call &c) {
  return "call kind " + oracle::dec(c.kind) + " bits " + oracle::dec(c.bits) + " text " + show(c.text, 80);
}

// A process that forks before this one ever calls the library.  It performs
// each call it is given in a new process of its own: the result of a call that
// has no history.
class Zygote {
  int fd = -1;
  static bool put(int f, const void *p, size_t n) { const char *c = static_cast<const char *>(p); while (n) { ssize_t k = write(f, c, n); if (k <= 0) return false; c += k; n -= size_t(k); } return true; }
  static bool get(int f, void *p, size_t n) { char *c = static_cast<char *>(p); while (n) { ssize_t k = read(f, c, n); if (k <= 0) return false; c += k; n -= size_t(k); } return true; }
  static void put_str(int f, const std::string &s) { u64 n = s.size(); if (!put(f, &n, 8) || !put(f, s.data(), n)) _exit(0); }
  static std::string get_str(int f) { u64 n; if (!get(f, &n, 8)) _exit(0); std::string s(n, '\0'); if (n && !get(f, &s[0], n)) _exit(0); return s; }
public:
  pid_t owner = 0;
  Zygote() {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) { perror("socketpair"); _exit(3); }
    owner = getpid();
    pid_t p = fork();
    if (p == 0) {
      close(sv[0]);
      for (;;) {
        Call c;
        if (!get(sv[1], &c.kind, 8) || !get(sv[1], &c.bits, 8)) _exit(0);
        c.text = get_str(sv[1]);
        pid_t q = fork();
        if (q == 0) { put_str(sv[1], perform(c)); _exit(0); }
        int st;
        waitpid(q, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) put_str(sv[1], "crashes");
      }
    }
    close(sv[1]);
    fd = sv[0];
  }
  std::string ask(const Call &c) {
    if (!put(fd, &c.kind, 8) || !put(fd, &c.bits, 8)) _exit(3);
    put_str(fd, c.text);
    return get_str(fd);
  }
};
// one per process: a forked process that inherits it makes its own
inline Zygote &zygote() {
  static Zygote *z = nullptr;
  if (!z || z->owner != getpid()) z = new Zygote();
  return *z;
}

inline std::string text(Src &s, u64 kind) {
  if (kind < FORMATS) return "";
  if (kind < FORMATS + TEXTS) { std::string t = gen::bytes(s); if (t.size() > 300) t.resize(300); return t; }
  std::string t;
  switch (s.draw(8)) {
    case 0: t = oracle::dec_signed(i64(gen::uinteger(s))); break;
    case 1: t = oracle::dec(gen::uinteger(s)); break;
    case 2: { char b[64]; snprintf(b, 64, "%.*g", int(1 + s.draw(20)), gen::finite(s)); t = b; break; }
    case 3: { static const char *W[] = {"true", "false", "null", "NaN", "Infinity", "-Infinity", "", "True", "x", "1e999", "-1e999", "1e-999", "99999999999999999999999", "-99999999999999999999999", "0x1p3", "  7", "--1"}; t = s.pick(W); break; }
    case 4: for (u64 n = s.draw(30); n; n--) t += char('0' + s.draw(10)); break;
    case 5: t = gen::bytes(s); if (t.size() > 100) t.resize(100); break;
    default: { char b[64]; snprintf(b, 64, "%llu.%llue%d", (unsigned long long)s.draw(1000), (unsigned long long)s.draw(1000000), int(s.range(-60, 60))); t = b; }
  }
  return t;
}
inline Call call(Src &s) {
  Call c;
  c.kind = s.draw(KINDS);
  if (c.kind < FORMATS) c.bits = (c.kind >= 9 && c.kind <= 11) ? gen::to_bits(gen::anydouble(s)) : (s.flip() ? gen::uinteger(s) : 0 - gen::uinteger(s));
  c.text = text(s, c.kind);
  return c;
}
// A handful of related calls: equal kinds, values that differ little.
inline std::vector<Call> pool(Src &s) {
  std::vector<Call> p;
  u64 n = 2 + s.draw(8);
  for (u64 i = 0; i < n; i++) {
    if (p.empty() || s.draw(3) == 0) { p.push_back(call(s)); continue; }
    Call c = s.pick(p);
    switch (s.draw(6)) {
      case 0: c.bits ^= u64(1) << s.draw(64); break;                    // one bit off
      case 1: c.bits ^= u64(1) << 63; break;
      case 2: if (c.kind < FORMATS) c.kind = s.draw(FORMATS); else if (c.kind >= FORMATS + TEXTS) c.kind = FORMATS + TEXTS + s.draw(EXTRACTS); else c.kind = FORMATS + s.draw(TEXTS); break;
      case 3: if (!c.text.empty()) c.text[s.draw(c.text.size())] ^= char(1 << s.draw(7)); else c.bits++; break;
      case 4: if (!c.text.empty()) c.text.pop_back(); else c.bits = (c.bits << 32) | (c.bits >> 32); break;
      default: if (c.kind >= FORMATS) c.text += char('0' + s.draw(10)); else c.bits += u64(1) << 32;
    }
    p.push_back(c);
  }
  return p;
}

}  // namespace calls
