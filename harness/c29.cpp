// C29: calls that interrupt calls.  A call is run one instruction at a time (the
// trap flag of the processor), and a signal handler makes other calls in between.
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <malloc.h>
#include <stdlib.h>
#include <sys/mman.h>

// Memory that may be asked for in a handler while a request is under way: in the
// window, blocks come from an arena and go back to it in stack order.
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace arena {
static volatile bool on = false;
static char *base, *limit;
static char *top;
inline bool inside(const void *p) { return p >= base && p < limit; }
inline void *take(size_t n) {
  n = (n + 15) / 16 * 16 + 16;
  char *p = __atomic_fetch_add(&top, n, __ATOMIC_SEQ_CST);
  if (p + n > limit) abort();
  memcpy(p, &n, sizeof n);
  return p + 16;
}
inline size_t size(void *p) { size_t n; memcpy(&n, static_cast<char *>(p) - 16, sizeof n); return n - 16; }
inline void give(void *p) {
  char *b = static_cast<char *>(p) - 16, *want = b + size(p) + 16;
  __atomic_compare_exchange_n(&top, &want, b, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
inline void open() {
  size_t n = size_t(16) << 30;
  base = static_cast<char *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (base == MAP_FAILED) abort();
  limit = base + n;
  top = base;
}
}  // namespace arena
extern "C" {
void *malloc(size_t n) noexcept { return arena::on ? arena::take(n) : __libc_malloc(n); }
void *calloc(size_t n, size_t m) noexcept { if (!arena::on) return __libc_calloc(n, m); void *p = arena::take(n * m); memset(p, 0, n * m); return p; }
void free(void *p) noexcept { if (arena::inside(p)) arena::give(p); else if (!arena::on) __libc_free(p); }   // in the window, what came before is left to leak
void *realloc(void *p, size_t n) noexcept {
  if (!arena::on && !arena::inside(p)) return __libc_realloc(p, n);
  void *q = malloc(n);
  if (p) { size_t k = arena::inside(p) ? arena::size(p) : malloc_usable_size(p); memcpy(q, p, k < n ? k : n); free(p); }
  return q;
}
void *memalign(size_t a, size_t n) noexcept {
  if (!arena::on) return __libc_memalign(a, n);
  uintptr_t p = reinterpret_cast<uintptr_t>(arena::take(n + 2 * a + 32));
  uintptr_t q = (p + 16 + a - 1) / a * a;
  size_t k = (n + 15) / 16 * 16 + 16;                   // its size, for those who ask; it is not given back
  memcpy(reinterpret_cast<void *>(q - 16), &k, sizeof k);
  return reinterpret_cast<void *>(q);
}
void *aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) noexcept { *p = memalign(a, n); return *p ? 0 : 12; }
}

#include "gen.hpp"
#include "oracle.hpp"
#include "places.hpp"
#include <cerrno>
#include <ios>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/pow.hpp>
using namespace pbt;

enum class ES : signed char {}; enum class EU : unsigned long long {};
// What a call came to, in memory of its own.
struct Out {
  static constexpr size_t CAP = 1400;
  size_t n = 0;
  char b[CAP];
  void put(const char *p, size_t k) { if (k > CAP - n) k = CAP - n; memcpy(b + n, p, k); n += k; }
  template <class T> void raw(T v, size_t k = sizeof(T)) { if (v != v) put("nan", 3); else put(reinterpret_cast<const char *>(&v), k); }
  bool operator==(const Out &o) const { return n == o.n && memcmp(b, o.b, n) == 0; }
};
struct Op { u64 kind = 0, way = 0, bits = 0; std::string text; };
template <class T> static void form(Out &o, T v, u64 way) {
  switch (way) {
    case 0: { auto f = lexi::Format()(v); o.put(f.data(), f.size()); break; }
    case 1: { auto f = lexi::Format()(v); auto g = f; o.put(g.c_str(), g.length()); g = f; o.put(g.data(), g.size()); break; }
    case 2: { std::string t = lexi::lexi(v); o.put(t.data(), t.size()); break; }
    case 3: { std::string t = lexi::escape(v); o.put(t.data(), t.size()); break; }
    default: { std::string t = lexi::jsonify(v); o.put(t.data(), t.size()); }
  }
}
template <class T> static void read(Out &o, const std::string &t) { T v = lexi::lexi<T>(t); o.raw(v, sizeof v == 16 ? 10 : sizeof v); }
constexpr u64 KINDS = 31;
static void run(const Op &c, Out &o) {
  o.n = 0;
  u64 v = c.bits, w = c.way;
  double d = gen::from_bits(v);
  const std::string &t = c.text;
  switch (c.kind) {
    case 0: form(o, (signed char)v, w); break;
    case 1: form(o, (unsigned short)v, w); break;
    case 2: form(o, (int)v, w); break;
    case 3: form(o, (unsigned)v, w); break;
    case 4: form(o, (long)v, w); break;
    case 5: form(o, (unsigned long)v, w); break;
    case 6: form(o, (long long)v, w); break;
    case 7: form(o, (unsigned long long)v, w); break;
    case 8: case 9: form(o, d, w); break;
    case 10: form(o, float(d), w); break;
    case 11: form(o, (long double)d, w); break;
    case 12: form(o, char(v), w); break;
    case 13: form(o, bool(v & 1), w); break;
    case 14: form(o, nullptr, w); break;
    case 15: if (v & 1) form(o, ES((signed char)(v >> 1)), w); else form(o, EU(v), w); break;
    case 16: form(o, std::streampos(std::streamoff(v)), w); break;
    case 17: { std::string r = lexi::escape(t); o.put(r.data(), r.size()); break; }
    case 18: { std::string r = lexi::jsonify(t); o.put(r.data(), r.size()); break; }
    case 19: { std::string r = lexi::lexi(t.c_str()); o.put(r.data(), r.size()); break; }
    case 20: read<signed char>(o, t); break;
    case 21: read<unsigned short>(o, t); break;
    case 22: read<int>(o, t); break;
    case 23: read<long long>(o, t); break;
    case 24: read<unsigned long long>(o, t); break;
    case 25: read<double>(o, t); break;
    case 26: read<float>(o, t); break;
    case 27: read<long double>(o, t); break;
    case 28: read<char>(o, t.empty() ? std::string("x") : t.substr(0, 1)); break;
    case 29: read<bool>(o, v & 1 ? "true" : "false"); if (lexi::lexi<std::nullptr_t>("null") == nullptr) o.put("n", 1); break;
    default: {
      lexi::detail::BigInteger a(v), b(v >> 3), e(u64(0));
      ((a *= v | 1) <<= v % 100) += mix(v);
      a.mulPow5(unsigned(v >> 8) % 40);
      b *= uint32_t(mix(v));
      a.difference(b, &e);
      for (size_t i = 0; i < e.count(); i++) o.raw(e.digit(i));
      lexi::detail::DiyFp x = lexi::detail::DiyFp(mix(v) | u64(1) << 63, 0) * lexi::detail::DiyFp(mix(v + 3), -3), m, q;
      lexi::detail::DiyFp(gen::from_bits((v & ~(u64(0x7ff) << 52)) | (1 + (v >> 52) % 2046) << 52)).normalizedBoundaries(&m, &q);
      o.raw(x.f); o.raw(m.f); o.raw(q.f); o.raw(lexi::detail::pow10(int(v % 309)));
    }
  }
}
static std::string describe(const Op &c) {
  static const char *K[] = {"signed char", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "double", "double", "float", "long double", "char", "bool", "null",
                            "an enumeration", "a stream position"};
  static const char *E[] = {"signed char", "unsigned short", "int", "long long", "unsigned long long", "double", "float", "long double", "char"};
  static const char *W[] = {"formatting", "copying a formatter of", "lexi of", "escape of", "jsonify of"};
  if (c.kind < 17) return std::string(W[c.way]) + " " + K[c.kind] + " from bits " + oracle::dec(c.bits);
  if (c.kind < 20) return std::string(c.kind == 17 ? "escape of " : c.kind == 18 ? "jsonify of " : "lexi of ") + show(c.text, 60);
  if (c.kind < 29) return std::string("extracting ") + E[c.kind - 20] + " from " + show(c.text, 60);
  return c.kind == 29 ? "extracting bool and null" : "big integers from bits " + oracle::dec(c.bits);
}
static std::string show_out(const Out &o) { return show(std::string(o.b, o.n), 80); }

// The handler and what it is to do.
struct Plan { const Op *op[4]; const Out *want[4]; u64 n, mode, at, steps, made; bool bad; u64 bad_step, bad_op; Out got; };
static Plan plan;
static void on_trap(int) {
  int e = errno;
  Plan &p = plan;
  u64 k = p.steps++;
  if (!p.bad && (p.mode == 0 || (p.mode == 1 ? k == p.at : (mix(k ^ p.at) & 7) == 0))) {
    u64 i = p.made++ % p.n;
    static Out o;
    run(*p.op[i], o);
    if (!(o == *p.want[i])) { p.bad = true; p.bad_step = k; p.bad_op = i; p.got = o; }
  }
  errno = e;
}
static inline __attribute__((always_inline)) void stepping(bool yes) {
  u64 f = __builtin_ia32_readeflags_u64();
  __builtin_ia32_writeeflags_u64(yes ? f | 0x100 : f & ~u64(0x100));
}
static __attribute__((noinline)) void interrupted(const Op &c, Out &o) {
  arena::on = true;
  stepping(true);
  run(c, o);
  stepping(false);
  arena::on = false;
}
static Op op(Src &s) {
  Op c;
  c.kind = s.draw(KINDS);
  c.way = s.draw(5);
  c.bits = (c.kind >= 8 && c.kind <= 11) ? gen::to_bits(gen::anydouble(s)) : s.flip() ? gen::uinteger(s) : 0 - gen::uinteger(s);
  if (c.kind >= 17 && c.kind < 29) {
    switch (s.draw(4)) {
      case 0: c.text = oracle::dec_signed(i64(gen::uinteger(s))); break;
      case 1: { char b[64]; snprintf(b, 64, "%.*g", int(1 + s.draw(20)), gen::finite(s)); c.text = b; break; }
      case 2: for (u64 n = s.draw(40); n; n--) c.text += char(s.draw(256)); break;
      default: { static const char *W[] = {"", "1e999", "0.1", " -12x", "+7", "\"a\\\n\x01", "123456789012345678901234567890", "1e-320", "~/", "-0"}; c.text = s.pick(W); }
    }
    if (c.kind == 19) c.text = c.text.c_str();
  }
  return c;
}
static void one(Src &s, u64 mode) {
  static bool ready = [] { arena::open(); struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_trap; sigaction(SIGTRAP, &a, nullptr); return true; }();
  (void)ready;
  Op outer = op(s), inner[4];
  u64 n = 1 + s.draw(4), at = s.draw(4000);
  static Out want_outer, want[4], got;
  for (u64 i = 0; i < n; i++) inner[i] = op(s);
  if (s.flip()) { u64 w = inner[0].way; inner[0] = outer; inner[0].way = w; inner[0].bits ^= u64(1) << s.draw(64); if (!inner[0].text.empty()) inner[0].text[s.draw(inner[0].text.size())] = s.flip() ? char('1' + s.draw(9)) : char(1 + s.draw(255)); }        // of the same kind
  s.desc([&] { std::string o = describe(outer) + ", interrupted by"; for (u64 i = 0; i < n; i++) o += (i ? "; " : " ") + describe(inner[i]); return o; });
  u64 h = hash_str(outer.text, outer.kind * 7 + outer.bits);
  for (u64 i = 0; i < n; i++) h = hash_str(inner[i].text, h * 31 + inner[i].kind * 7 + inner[i].bits);
  s.nontrivial(h ^ mode);
  places::Under place(s.flip() ? 0 : s.draw(places::all().size()), false);
  for (int k = 0; k < 2; k++) {                         // twice: what is set up once is set up now
    run(outer, want_outer);
    for (u64 i = 0; i < n; i++) run(inner[i], want[i]);
  }
  u64 steps = 0;
  for (int round = mode == 1 ? 0 : 1; round < 2; round++) {         // to interrupt once, first count the steps
    plan = Plan();
    for (u64 i = 0; i < n; i++) { plan.op[i] = &inner[i]; plan.want[i] = &want[i]; }
    plan.n = n;
    plan.mode = mode == 1 && round == 0 ? 3 : mode;
    plan.at = mode == 1 ? (round == 0 ? ~u64(0) : at % (steps ? steps : 1)) : at;
    if (plan.mode == 3) plan.mode = 1;
    interrupted(outer, got);
    steps = plan.steps;
  }
  s.evaluated(plan.made);
  if (steps < 30) { s.cls("no steps: the processor does not step here"); return; }
  std::string where = describe(outer) + ", interrupted ";
  if (plan.bad) fail(describe(inner[plan.bad_op]) + " gives " + show_out(want[plan.bad_op]) + ", but " + show_out(plan.got) + " when it interrupts " + describe(outer) + " after instruction " + oracle::dec(plan.bad_step));
  CHECK(got == want_outer, describe(outer) + " gives " + show_out(want_outer) + ", but " + show_out(got) + " when it is interrupted by " + describe(inner[0]) + (n > 1 ? " and others" : ""));
  Out again;
  run(outer, again);
  CHECK(again == want_outer, describe(outer) + " gives " + show_out(want_outer) + ", but " + show_out(again) + " after an interruption");
}
PROP_NOFUZZ(at_every_instruction, 12000, 1000000) { one(s, 0); }
PROP_NOFUZZ(at_some_instructions, 12000, 1000000) { one(s, 2); }
PROP_NOFUZZ(at_one_instruction, 12000, 1000000) { one(s, 1); }
