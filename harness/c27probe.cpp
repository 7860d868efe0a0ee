// C27: calls made at one stage in the life of a program.  STAGE chooses it.
// Everything is internal to the unit, so that it can be linked several times.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <ios>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>
#include <pthread.h>
#include <unistd.h>

namespace {
typedef uint64_t u64;
enum class ES : signed char {}; enum class EU : unsigned long long {};
struct Rng { u64 x; u64 next() { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } };

u64 seed() { const char *s = getenv("C27_SEED"); return s ? strtoull(s, nullptr, 10) : 0; }
template <class T> void forms(std::string &o, const T &v) {
  auto f = lexi::Format()(v);
  o += lexi::lexi(v); o += '|'; o += lexi::escape(v); o += '|'; o += lexi::jsonify(v); o += '|'; o.append(f.data(), f.size()); o += '\n';
}
void hex(std::string &o, const void *p, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char c = static_cast<const unsigned char *>(p)[i]; o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } o += '\n'; }
template <class T> void reads(std::string &o, const std::string &t) {
  try { T v = lexi::lexi<T>(t); size_t n = sizeof v; if (n == 16) n = 10; if (v != v) o += "nan\n"; else hex(o, &v, n); } catch (const std::exception &e) { o += e.what(); o += '\n'; }
}
u64 shaped(Rng &r) { u64 k = r.next(), v = r.next(); return k & 1 ? v >> (k >> 1) % 64 : k & 2 ? u64(0) - (v >> (k >> 2) % 64) : v; }
// Every kind of call, on values that follow from the seed.
std::string calls() {
  Rng r{seed()};
  std::string o;
  for (int i = 0; i < 6; i++) {
    u64 v = shaped(r);
    double d; u64 b = r.next(); if (i % 2) b = (b & ~(0x7ffULL << 52)) | (1023 + (b >> 52) % 100 - 50) << 52; memcpy(&d, &b, 8);
    forms(o, (signed char)v); forms(o, (unsigned char)v); forms(o, (short)v); forms(o, (unsigned short)v); forms(o, (int)v); forms(o, (unsigned)v);
    forms(o, (long)v); forms(o, (unsigned long)v); forms(o, (long long)v); forms(o, d); forms(o, float(d)); forms(o, (long double)d);
    forms(o, char(v)); forms(o, bool(v & 1)); forms(o, nullptr); forms(o, ES((signed char)v)); forms(o, EU(v)); forms(o, std::streampos(std::streamoff(v)));
  }
  double inf = 1e308 * 10;
  forms(o, inf); forms(o, -inf); forms(o, inf - inf); forms(o, 0.0); forms(o, true); forms(o, false); forms(o, 1e21); forms(o, 1e-7); forms(o, 123456.0);
  std::string t;
  for (u64 n = r.next() % 40; n; n--) t += char(r.next());
  o += lexi::escape(t) + lexi::jsonify(t) + lexi::string(t) + lexi::lexi(t.c_str()) + lexi::jsonify("\"\\\n\x01/") + '\n';
  static const char *const W[] = {"true", "false", "null", "NaN", "-Infinity", "", " 12", "-7.25e3x", "1e-5", "99999999999999999999", "0.1", "x", "123456789.123456789"};
  for (const char *w : W) {
    std::string x = w;
    reads<int>(o, x); reads<unsigned char>(o, x); reads<long long>(o, x); reads<unsigned long long>(o, x); reads<double>(o, x); reads<float>(o, x); reads<long double>(o, x); reads<bool>(o, x); reads<char>(o, x);
    reads<std::nullptr_t>(o, x);
  }
  lexi::detail::BigInteger a(r.next()), c("98765432109876543210", 20), e(u64(0));
  ((a *= r.next()) <<= 77) += u64(5);
  a.mulPow5(30 + unsigned(r.next() % 20));
  a.difference(c, &e);
  for (size_t i = 0; i < e.count(); i++) { auto w = e.digit(i); hex(o, &w, sizeof w); }
  lexi::detail::DiyFp x(1.0 / 3), m, q;
  x.normalizedBoundaries(&m, &q);
  hex(o, &m.f, 8); hex(o, &q.f, 8);
  for (int i = 0; i <= 308; i += 22) { double p = lexi::detail::pow10(i); hex(o, &p, 8); }
  return o;
}
void say(const char *stage, const std::string &t) {
  std::string o = std::string(stage) + " ";
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : t) { h ^= c; h *= 1099511628211ULL; }
  hex(o, &h, 8);
  if (getenv("C27_VERBOSE")) o += t + "----\n";
  if (write(1, o.data(), o.size()) < 0) _exit(9);
}
void at(const char *stage) { try { say(stage, calls()); } catch (const std::exception &e) { say(stage, std::string("throws ") + e.what()); } }
// Objects that live from one stage to another.
struct Kept {
  lexi::FormatBool b{true}; lexi::FormatNull n; lexi::FormatInt i{-1234567890123456789LL}; lexi::FormatFloat f{-0.1}; lexi::FormatFloat g{1e300 * 1e300}; lexi::FormatChar c{'x'};
  lexi::ExtractFloat x{std::string("123.5e-1")}; lexi::ExtractInt y{std::string("-77")};
  bool good() const {
    return b.string() == "true" && n.string() == "null" && i.string() == "-1234567890123456789" && f.string() == "-0.1" && g.string() == "Infinity" && c.string() == "x" &&
           static_cast<double>(x) == 12.35 && static_cast<int>(y) == -77;
  }
};
struct Object {
  Kept *k;
  const char *out;
  Object(const char *in, const char *o) : k(new Kept), out(o) { at(in); }
  ~Object() { at(out); if (!k->good()) say(out, "objects made before have changed"); delete k; }
};
void *in_thread(void *name) {
  static thread_local Object o("thread_local made", "thread_local gone");
  (void)o;
  at(static_cast<const char *>(name));
  return nullptr;
}
void thread(const char *name) { pthread_t t; if (pthread_create(&t, nullptr, in_thread, const_cast<char *>(name)) == 0) pthread_join(t, nullptr); }

#if STAGE == 0
Object object("static object made", "static object gone");
#elif STAGE == 1
__attribute__((init_priority(101))) Object object("first static object made", "first static object gone");
#elif STAGE == 2
__attribute__((init_priority(65000))) Object object("late static object made", "late static object gone");
#elif STAGE == 3
__attribute__((constructor(101))) void in() { at("first constructor"); }
__attribute__((destructor(101))) void out() { at("last destructor"); }
#elif STAGE == 4
__attribute__((constructor)) void in() { at("constructor"); }
__attribute__((destructor)) void out() { at("destructor"); }
#elif STAGE == 5
void handler() { at("exit handler set before main"); }
__attribute__((constructor)) void in() { atexit(handler); }
#elif STAGE == 6
struct Early { Early() { thread("thread before main"); } ~Early() { thread("thread after main"); } } early;
#elif STAGE == 7
Object &local() { static Object o("local static made", "local static gone"); return o; }
struct Uses { Uses() { local(); } } uses;
#elif STAGE == 8
std::string text = lexi::lexi(12.5) + lexi::string(true) + lexi::jsonify('"') + lexi::lexi(nullptr);       // as programs do
struct Later { Later() { if (text != "12.5true\"\\\"\"null") say("static text", text); else at("after a static text"); } } later;
#endif
}  // namespace

#if STAGE == 99                         // the program itself
#include <dlfcn.h>
int main(int argc, char **argv) {
  at("main");
  static Object o("static of main made", "static of main gone");
  struct H { static void h() { at("exit handler"); } static void q() { at("quick exit handler"); _exit(0); } };
  thread("thread");
  for (int i = 2; i < argc; i++)        // plug-ins
    for (int k = 0; k < 2; k++) {
      void *p = dlopen(argv[i], RTLD_NOW);
      if (!p) { say("dlopen", dlerror()); break; }
      at("main with a plug-in");
      dlclose(p);
    }
  int how = argc > 1 ? atoi(argv[1]) : 0;
  if (how == 2) { at_quick_exit(H::q); quick_exit(0); }
  atexit(H::h);
  if (how == 1) exit(0);
  if (how == 3) pthread_exit(nullptr);
  return 0;
}
#endif
