// Texts of more than 2^31 bytes, where a counter of type int or unsigned wraps.
// Run in a process of its own, and left out where time or memory is short: that
// says nothing about the library.
#pragma once
#include "gen.hpp"
#include "oracle.hpp"

namespace huge {
using namespace pbt;

// f runs in a process of its own and throws Failure, or std::bad_alloc.
template <class F> void apart(Src &s, const std::string &what, F f) {
  char *res = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    try { f(); } catch (const std::bad_alloc &) { _exit(7); } catch (const Failure &x) { snprintf(res, 4096, "%s", x.msg.c_str()); _exit(42); }
    _exit(0);
  }
  int st = 0;
  auto t0 = std::chrono::steady_clock::now();
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(16)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(5000);
  }
  std::string m = res;
  munmap(res, 4096);
  s.desc([&] { return what; });
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { s.cls("compared in full"); s.enumerated(1); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) fail(m);
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGBUS)) fail("a call with " + what + " crashes");
  s.cls("left out: time or memory is short");
}
// Letters, but for a few bytes; f converts it, enc gives the form of one byte.
template <class F, class E> void text(Src &s, u64 n, const std::string &quote, F f, E enc) {
  std::vector<u64> at;
  for (u64 p = 17; p < n; p += p < 5000 ? 991 : p / 3) at.push_back(p);
  for (u64 p : {n - 4099, n - 4098, n - 2, n - 1}) if (p > at.back()) at.push_back(p);
  apart(s, "a text of " + oracle::dec(n) + " bytes", [&] {
    std::string t(n, 'a');
    for (u64 p : at) t[p] = "\n\"\\\t\x01.\x1f/"[p % 8];
    std::string g = f(t);
    u64 gp = 0, tp = 0;
    auto bad = [&](u64 where) { fail("the form of a text of " + oracle::dec(n) + " bytes is wrong from its byte " + oracle::dec(where) + " on: " + show(g.substr(std::min<u64>(g.size(), gp), 40))); };
    auto piece = [&](const char *p, u64 len) { if (g.size() - gp < len || memcmp(g.data() + gp, p, len)) bad(tp); gp += len; };
    piece(quote.data(), quote.size());
    for (u64 p : at) {
      piece(t.data() + tp, p - tp);
      tp = p;
      std::string e = enc(t[p]);
      piece(e.data(), e.size());
      tp++;
    }
    piece(t.data() + tp, n - tp);
    piece(quote.data(), quote.size());
    if (gp != g.size()) bad(n);
  });
}
}
