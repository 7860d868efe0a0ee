// C19: configured literals are used exactly as configured.  The configuration
// reaches the library as macros; this program is told the same texts in its
// environment (in hexadecimal), so that it knows them from elsewhere.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

static std::string text_of(const char *name) {
  const char *h = getenv(name);
  if (!h) { fprintf(stderr, "%s is not set\n", name); _exit(3); }
  std::string o;
  for (int part = 2; h; h = getenv((std::string(name) + "_" + std::to_string(part++)).c_str())) for (; h[0] && h[1]; h += 2) { char b[3] = {h[0], h[1], 0}; o += char(strtoul(b, nullptr, 16)); }
  return o;
}
static const std::string T = text_of("C19_TRUE"), F = text_of("C19_FALSE"), N = text_of("C19_NULL"), NAN_ = text_of("C19_NAN"),
                         INF = text_of("C19_INFINITY"), NINF = text_of("C19_NEGATIVE_INFINITY");
static const std::string LITERALS[] = {T, F, N, NAN_, INF, NINF};

template <class X> static void views(const X &f, const std::string &want, const char *what) {
  std::string w = what;
  CHECK(f.size() == want.size() && f.length() == want.size(), w + ": size() is " + oracle::dec(f.size()) + " for " + show(want));
  std::string d(f.data(), f.size());
  CHECK(d == want, w + ": data() shows " + show(d) + ", not " + show(want));
  CHECK(strlen(f.c_str()) == want.size() && f.c_str()[want.size()] == 0, w + ": c_str() is not terminated after " + show(want));
  CHECK(f.string() == want, w + ": string() gives " + show(f.string()) + ", not " + show(want));
  CHECK(std::string(f) == want, w + ": conversion gives " + show(std::string(f)) + ", not " + show(want));
  bool plain = true;
  for (unsigned char c : want) plain = plain && isalnum(c);
  if (plain) CHECK(f.escape() == want && f.jsonify() == want, w + ": escape() or jsonify() is not " + show(want));
}
template <class X, class V> static void object(Src &s, V v, const std::string &want, const char *what) {
  char mem[sizeof(X) + 32];
  memset(mem, int(s.draw(256)), sizeof mem);
  X *f = new (mem + 16 - reinterpret_cast<uintptr_t>(mem) % 16) X(v);
  views(*f, want, what);
  X g(*f);
  views(g, want, what);
  X h(std::move(g));
  views(h, want, what);
  f->~X();
  views(h, want, what);
  auto a = lexi::Format()(v);
  views(a, want, what);
  CHECK(lexi::lexi(v) == want, std::string(what) + ": lexi() gives " + show(lexi::lexi(v)) + ", not " + show(want));
  CHECK(lexi::string(v) == want, std::string(what) + ": string() gives " + show(lexi::string(v)) + ", not " + show(want));
}
PROP(formats, 6000, 60000) {
  u64 k = s.draw(7), b = s.bits();
  double nan = gen::from_bits((b | gen::INF_BITS) | 1), inf = HUGE_VAL;
  s.nontrivial(k);
  s.desc([&] { return "literals " + show(T) + " " + show(F) + " " + show(N) + " " + show(NAN_) + " " + show(INF) + " " + show(NINF); });
  switch (k) {
    case 0: object<lexi::FormatBool>(s, true, T, "true"); break;
    case 1: object<lexi::FormatBool>(s, false, F, "false"); break;
    case 2: object<lexi::FormatNull>(s, nullptr, N, "null"); views(lexi::FormatNull(), N, "null"); break;
    case 3: object<lexi::FormatFloat>(s, nan, NAN_, "NaN"); object<lexi::FormatFloat>(s, float(nan), NAN_, "NaN"); object<lexi::FormatFloat>(s, (long double)nan, NAN_, "NaN"); break;
    case 4: object<lexi::FormatFloat>(s, inf, INF, "Infinity"); object<lexi::FormatFloat>(s, float(inf), INF, "Infinity"); break;
    case 5: object<lexi::FormatFloat>(s, -inf, NINF, "-Infinity"); object<lexi::FormatFloat>(s, -(long double)inf, NINF, "-Infinity"); break;
    default: {                                  // assigned over each other
      lexi::FormatFloat f(nan), g(inf), h(-inf), i(1.5);
      f = h; views(f, NINF, "assigned"); f = g; views(f, INF, "assigned"); g = i; views(g, "1.5", "assigned"); i = lexi::FormatFloat(nan); views(i, NAN_, "assigned");
      lexi::FormatBool t(true), u(false); t = u; views(t, F, "assigned"); u = lexi::FormatBool(true); views(u, T, "assigned");
    }
  }
}
// 1 true, 0 false, -1 refused, -2 another exception
static int read_bool(const std::string &t) { try { return lexi::lexi<bool>(t) ? 1 : 0; } catch (const std::runtime_error &) { return -1; } catch (...) { return -2; } }
static int read_null(const std::string &t) { try { return lexi::lexi<std::nullptr_t>(t) == nullptr ? 1 : 0; } catch (const std::runtime_error &) { return -1; } catch (...) { return -2; } }
static void one(const std::string &t) {
  int b = read_bool(t), n = read_null(t), wb = t == T ? 1 : t == F ? 0 : -1, wn = t == N ? 1 : -1;
  CHECK(b == wb, "with true " + show(T) + " and false " + show(F) + ", extracting a boolean from " + show(t) + " gives " + oracle::dec_signed(b));
  CHECK(n == wn, "with null " + show(N) + ", extracting null from " + show(t) + " gives " + oracle::dec_signed(n));
  if (t.find('\0') == std::string::npos) {
    const char *c = t.c_str();
    try { CHECK(lexi::lexi<bool>(c) == (wb == 1) && wb >= 0, "a boolean is extracted from the C string " + show(t)); } catch (const std::runtime_error &) { CHECK(wb < 0, "no boolean is extracted from the C string " + show(t)); }
  }
}
PROP(extracts, 40000, 400000) {
  static const char *DEFAULTS[] = {"true", "false", "null", "NaN", "Infinity", "-Infinity", "True", "FALSE", "1", "0", ""};
  std::string t = s.chance(1, 5) ? s.pick(DEFAULTS) : LITERALS[s.draw(3)];
  if (s.chance(1, 8)) t = LITERALS[s.draw(6)];
  for (u64 n = s.draw(3); n; n--) {
    size_t at = s.draw(t.size() + 1);
    switch (s.draw(8)) {
      case 0: t.insert(at, 1, char(s.draw(256))); break;
      case 1: if (at < t.size()) t.erase(at, 1); break;
      case 2: if (at < t.size()) t[at] = char(s.draw(256)); break;
      case 3: if (at < t.size()) t[at] ^= 0x20; break;
      case 4: t.resize(at); break;
      case 5: t += LITERALS[s.draw(6)]; break;
      case 6: t += std::string(1, '\0') + (s.flip() ? t : ""); break;
      default: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]);
    }
  }
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one(t);
}
SWEEP(near, 3 * 64 * 20) {                                  // every position of every literal
  u64 i = s.draw(3 * 64 * 20);
  const std::string &l = LITERALS[i % 3];
  size_t at = (i / 3) % 64; u64 how = i / 192;
  if (at > l.size()) return;
  std::string t = l;
  switch (how) {
    case 0: break;
    case 1: t.resize(at); break;
    case 2: t = l.substr(at); break;
    case 3: if (at < t.size()) t.erase(at, 1); break;
    case 4: if (at < t.size()) t[at] ^= 0x20; break;
    case 5: if (at < t.size()) t[at] = 0; break;
    case 6: t.insert(at, 1, '\0'); break;
    case 7: t.insert(at, 1, ' '); break;
    case 8: if (at < t.size()) t[at]++; break;
    case 9: if (at < t.size()) t[at]--; break;
    case 10: t.insert(at, 1, 'x'); break;
    default: if (at < t.size()) t[at] ^= char(1 << (how % 8)); else t += char('a' + how);
  }
  one(t); s.enumerated(1);
}
// Numbers do not change.
PROP(numbers, 20000, 200000) {
  double v = gen::finite(s);
  std::string t = lexi::lexi(v);
  oracle::Decimal d; bool p, e; double r;
  CHECK(oracle::parse_numeral(t, d, p, e) && oracle::layout(d) == t, oracle::showd(v) + " gives " + show(t));
  CHECK(oracle::read_double(t, r) && (v == 0 ? r == 0 : r == v), oracle::showd(v) + " gives " + show(t));
  u64 u = gen::uinteger(s);
  CHECK(lexi::lexi((unsigned long long)u) == oracle::dec(u) && lexi::lexi((long long)u) == oracle::dec_signed(i64(u)), "integers change: " + show(lexi::lexi((long long)u)));
  CHECK(lexi::lexi<double>(t) == v, show(t) + " extracts as " + oracle::showd(lexi::lexi<double>(t)));
  s.nontrivial(gen::to_bits(v));
}
