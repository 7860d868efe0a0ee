// C16: results depend on the arguments only.
#include "calls.hpp"
#include "places.hpp"
#include <pthread.h>
#include <thread>
using namespace pbt;
using namespace calls;

// Calls from a small pool, in any order and number, with objects kept alive and
// errno left in any state: every result equals that of the same call made alone
// in a new process.
static void run_history(Src &s, u64 maxlen) {
  std::vector<Call> p = pool(s);
  std::vector<std::string> want;
  Zygote &z = zygote();
  for (auto &c : p) want.push_back(z.ask(c));
  std::vector<std::pair<lexi::FormatInt, std::string>> ints;
  std::vector<std::pair<lexi::FormatFloat, std::string>> floats;
  u64 n = 0;
  places::Under place(s.flip() ? 0 : s.draw(places::all().size()), false);
  while (n < maxlen && s.more(60)) {
    n++;
    u64 i = s.draw(p.size());
    switch (s.draw(12)) {
      case 0: errno = int(s.draw(40)); break;
      case 1: if (ints.size() < 10) { u64 v = p[i].bits; ints.emplace_back(lexi::FormatInt((unsigned long long)v), oracle::dec(v)); } break;
      case 2: if (floats.size() < 10) { lexi::FormatFloat f(gen::from_bits(p[i].bits)); floats.emplace_back(f, f.string()); } break;
      default: ;
    }
    std::string got = perform(p[i]);
    CHECK(got == want[i], "after " + oracle::dec(n - 1) + " other calls, " + describe(p[i]) + " gives " + show(got) + "; made alone it gives " + show(want[i]));
    for (auto &o : ints) CHECK(o.first.string() == o.second, "an integer formatter made earlier now shows " + show(o.first.string()) + ", not " + show(o.second));
    for (auto &o : floats) CHECK(o.first.string() == o.second, "a float formatter made earlier now shows " + show(o.first.string()) + ", not " + show(o.second));
  }
  s.desc([&] { return oracle::dec(n) + " calls of " + oracle::dec(p.size()) + " kinds, first: " + describe(p[0]); });
  if (n > 1) s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  s.evaluated(n ? n - 1 : 0);
}
#ifndef TSAN
PROP_NOFUZZ(short_histories, 16000, 600000) { run_history(s, 200); }

// One pool, called very many times: counters and caches overflow, if there are any.
PROP_NOFUZZ(long_histories, 48, 1500) {
  std::vector<Call> p = pool(s);
  std::vector<std::string> want;
  Zygote &z = zygote();
  for (auto &c : p) want.push_back(z.ask(c));
  u64 salt = s.bits(), n = 300000;
  for (u64 k = 0; k < n; k++) {
    u64 i = mix(salt ^ k) % p.size();
    std::string got = perform(p[i]);
    if (got != want[i]) fail("call number " + oracle::dec(k) + ", " + describe(p[i]) + ", gives " + show(got) + "; made alone it gives " + show(want[i]));
  }
  s.desc([&] { return "300000 calls of " + oracle::dec(p.size()) + " kinds, first: " + describe(p[0]); });
  s.nontrivial(salt);
  s.evaluated(n - 1);
}
// Calls of one kind, millions of times: a few arguments, all results as at first.
template <class C> static void again(Src &s, u64 n, const char *what, u64 m, C call) {
  std::vector<std::string> first;
  std::string got;
  for (u64 i = 0; i < m; i++) { call(i, got); first.push_back(got); }
  u64 i = 0;
  for (u64 k = 0; k < n; k++) {
    call(i, got);
    if (got.size() != first[i].size() || memcmp(got.data(), first[i].data(), got.size()) != 0)
      fail(std::string(what) + ", argument " + oracle::dec(i) + ": call number " + oracle::dec(k + m) + " gives " + show(got) + ", the first gave " + show(first[i]));
    if (++i == m) i = 0;
    if ((k & 0xfffff) == 0) s.tick();
  }
  s.desc([&] { return oracle::dec(n) + " calls: " + what; });
  s.nontrivial(n); s.evaluated(n - 1);
}
template <class F, class T> static void put(std::string &o, const T &v) { F f(v); o.assign(f.data(), f.size()); }
template <class T> static void raw(std::string &o, const T &v) { o.assign(reinterpret_cast<const char *>(&v), sizeof(T)); }
static const u64 VERY = 20;
static void very_many(Src &s, u64 i, u64 n) {
  static const u64 V[] = {0, 7, 42, 123456789012345678ULL, ~u64(0), 0x8000000000000000ULL, 99999999, 4294967296ULL};
  static const double D[] = {0.1, -5e-324, 1e23, 1.7976931348623157e308, 3.0, -0.0, 123456.789};
  static const std::string T[] = {"0", "-1", "4294967296", "18446744073709551615", "99999999999999999999", "x", " 12 "};
  static const std::string R[] = {"0.1", "-5e-324", "1e23", "1e999", "x", "123456789012345678901234567890", "-0.0"};
  static const std::string E[] = {"a", std::string("\0\x1f", 2), "plain text", "\"quoted\" \\", "\x7f\x80", "{\"a\":1}"};
  static const std::string B[] = {"true", "false", "True", ""};
  switch (i) {
    case 0: again(s, n, "FormatInt(int)", 8, [](u64 a, std::string &o) { put<lexi::FormatInt>(o, int(V[a])); }); break;
    case 1: again(s, n, "FormatInt(unsigned long long)", 8, [](u64 a, std::string &o) { put<lexi::FormatInt>(o, (unsigned long long)(V[a])); }); break;
    case 2: again(s, n, "FormatInt(long long)", 8, [](u64 a, std::string &o) { put<lexi::FormatInt>(o, (long long)(V[a])); }); break;
    case 3: again(s, n, "FormatInt(short)", 8, [](u64 a, std::string &o) { put<lexi::FormatInt>(o, short(V[a])); }); break;
    case 4: again(s, n / 2, "FormatFloat(double)", 7, [](u64 a, std::string &o) { put<lexi::FormatFloat>(o, D[a]); }); break;
    case 5: again(s, n / 2, "FormatFloat(float)", 7, [](u64 a, std::string &o) { put<lexi::FormatFloat>(o, float(D[a])); }); break;
    case 6: again(s, n, "FormatChar", 8, [](u64 a, std::string &o) { put<lexi::FormatChar>(o, char(V[a])); }); break;
    case 7: again(s, n, "FormatBool", 2, [](u64 a, std::string &o) { put<lexi::FormatBool>(o, a == 1); }); break;
    case 8: again(s, n, "FormatNull", 1, [](u64, std::string &o) { put<lexi::FormatNull>(o, nullptr); }); break;
    case 9: again(s, n, "FormatEnum", 8, [](u64 a, std::string &o) { put<lexi::FormatEnum>(o, EU(V[a])); }); break;
    case 10: again(s, n / 2, "escape", 6, [](u64 a, std::string &o) { o = lexi::escape(E[a]); }); break;
    case 11: again(s, n / 2, "jsonify", 6, [](u64 a, std::string &o) { o = lexi::jsonify(E[a]); }); break;
    case 12: again(s, n, "extract int", 7, [](u64 a, std::string &o) { raw(o, lexi::lexi<int>(T[a])); }); break;
    case 13: again(s, n, "extract unsigned long", 7, [](u64 a, std::string &o) { raw(o, lexi::lexi<unsigned long>(T[a])); }); break;
    case 14: again(s, n / 2, "extract double", 7, [](u64 a, std::string &o) { raw(o, lexi::lexi<double>(R[a])); }); break;
    case 15: again(s, n / 2, "extract float", 7, [](u64 a, std::string &o) { raw(o, lexi::lexi<float>(R[a])); }); break;
    case 16: again(s, n, "extract char", 6, [](u64 a, std::string &o) { raw(o, lexi::lexi<char>(E[a])); }); break;
    case 17: again(s, n, "extract bool", 2, [](u64 a, std::string &o) { raw(o, lexi::lexi<bool>(B[a])); }); break;
    case 18: again(s, n / 8, "extract bool and null from other texts", 4, [](u64 a, std::string &o) { Call c{a & 1 ? u64(33) : u64(35), 0, B[a]}; o = perform(c); }); break;
    default: again(s, n / 8, "big integers", 8, [](u64 a, std::string &o) { o = big(V[a]); });
  }
}
SWEEP(very_many_calls, VERY) { very_many(s, s.draw(VERY), 6000000); }
SWEEP_T(most_calls, VERY) { very_many(s, s.draw(VERY), (u64(1) << 32) + 1000); }
// Many different arguments in one process, remembered and asked again.
PROP_NOFUZZ(repeated_arguments, 1500, 60000) {
  u64 salt = s.bits(), kind = s.draw(FORMATS);
  static const u64 MASKS[] = {~u64(0), 0xffff, 0xffff0000ffffULL, 0xfff0000000000fffULL, 0xff00ff00ff00ffULL};
  u64 mask = s.pick(MASKS);
  std::vector<std::string> first;
  for (int round = 0; round < 3; round++)
    for (u64 k = 0; k < 1500; k++) {
      u64 j = round == 1 ? 1499 - k : k;
      Call c{kind, mix(salt + j) & mask, ""};
      std::string got = perform(c);
      if (round == 0) first.push_back(got);
      else if (got != first[j]) fail(describe(c) + " gave " + show(first[j]) + " and later " + show(got));
    }
  Call c{kind, mix(salt) & mask, ""};
  std::string alone = zygote().ask(c);
  CHECK(first[0] == alone, describe(c) + " gave " + show(first[0]) + "; made alone it gives " + show(alone));
  s.nontrivial(salt); s.evaluated(4499);
  s.desc([&] { return "3 rounds of 1500 values of kind " + oracle::dec(kind); });
}
#endif
// Objects that several threads use at the same time, through their const functions.
struct Objects {
  lexi::FormatInt i; lexi::FormatFloat f; lexi::FormatChar c; lexi::FormatBool b; lexi::FormatNull n; lexi::FormatEnum e;
  lexi::ExtractInt xi; lexi::ExtractFloat xf; lexi::ExtractChar xc; lexi::detail::BigInteger g, h;
  Objects(u64 v, const std::string &t) : i((unsigned long long)v), f(gen::from_bits(v)), c(char(v)), b(v & 1), n(nullptr), e(EU(v)), xi(t), xf(t), xc(t + "x"), g(v | 1), h(t.size()) { (g <<= v % 300) *= v | 1; }
  template <class F> static void forms(std::string &o, const F &x) { o += x.string() + "|" + x.escape() + "|" + x.jsonify() + "|" + std::string(x) + "|" + std::string(x.data(), x.length()) + "|" + std::string(x.c_str(), x.size()) + "|"; }
  std::string use() const {
    std::string o;
    forms(o, i); forms(o, f); forms(o, c); forms(o, b); forms(o, n); forms(o, e);
    o += num(int(xi)) + " " + num((unsigned long long)(xi)) + " " + num(double(xf)) + " " + num(float(xf)) + " " + num((long double)(xf)) + " " + char(xc);
    o += num(g.compare(h)) + num(int(g == h)) + num(int(g.isZero())) + num(u64(g.count())) + num(g.digit(g.count() - 1));
    lexi::detail::BigInteger d(u64(0));
    if (g.compare(h) != 0) { g.difference(h, &d); o += num(d.digit(0)); }
    return o;
  }
};
// Threads that call at the same time, in a process that has not called before.
static pthread_barrier_t barrier;
static void threads(Src &s) {
  zygote();
  std::vector<Call> p = pool(s);
  std::vector<std::string> want;
  for (auto &c : p) want.push_back(zygote().ask(c));
  u64 n = 2 + s.draw(5), salt = s.bits(), len = 5 + s.draw(60);
  bool objects = s.chance(1, 3);        // the same objects are used in all
  bool share = s.flip();                // all call the same, or each what it likes
  u64 place = s.flip() ? 0 : s.draw(places::all().size());
  s.desc([&] { return oracle::dec(n) + " threads, " + oracle::dec(len) + " calls each, of " + oracle::dec(p.size()) + " kinds, first: " + describe(p[0]); });
  char *res = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    places::Under under(place, true);
    std::vector<std::thread> t;
    std::atomic<int> bad{-1};
    std::string got[8];
    std::string expect = Objects(p[0].bits, p.back().text).use();
    const Objects shared(p[0].bits, p.back().text);
    pthread_barrier_init(&barrier, nullptr, unsigned(n));
    for (u64 w = 0; w < n; w++)
      t.emplace_back([&, w] {
        pthread_barrier_wait(&barrier);
        for (u64 k = 0; k < len; k++) {
          u64 i = mix(salt ^ (share ? k : k * 64 + w)) % p.size();
          int none = -1;
          if (objects) {
            std::string g = shared.use();
            if (g != expect && bad.compare_exchange_strong(none, int(w * 1000 + 999))) { got[w] = g; return; }
            if (mix(k + w) & 1) continue;
          }
          std::string g = perform(p[i]);
          if (g != want[i] && bad.compare_exchange_strong(none, int(w * 1000 + i))) { got[w] = g; return; }
        }
      });
    for (auto &x : t) x.join();
    if (bad >= 0 && bad % 1000 == 999) {
      snprintf(res, 4000, "objects used in %d threads show %s, not %s", int(n), show(got[bad / 1000], 1500).c_str(), show(expect, 1500).c_str());
      _exit(42);
    }
    if (bad >= 0) {
      snprintf(res, 4000, "%s in one of %d threads gives %s; made alone it gives %s", describe(p[size_t(bad % 1000)]).c_str(), int(n),
               show(got[bad / 1000]).c_str(), show(want[size_t(bad % 1000)]).c_str());
      _exit(42);
    }
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  std::string m = res;
  munmap(res, 4096);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { s.nontrivial(hash_bytes(s.rec, *s.nrec * 8)); s.evaluated(n * len - 1); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) fail(m);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 79) fail("ThreadSanitizer reports a data race with " + oracle::dec(n) + " threads, first " + describe(p[0]));
  if (WIFSIGNALED(st) && WTERMSIG(st) == 9) throw Discard();
  fail("a process with " + oracle::dec(n) + " threads ends with " + (WIFSIGNALED(st) ? "signal " + oracle::dec(u64(WTERMSIG(st))) : "status " + oracle::dec(u64(WEXITSTATUS(st)))));
}
#ifdef TSAN
PROP_NOFUZZ(threads_tsan, 3000, 100000) { threads(s); }
#else
PROP_NOFUZZ(threads_plain, 6000, 200000) { threads(s); }
#endif
