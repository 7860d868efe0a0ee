// C11: escaping puts a backslash before every ASCII non-alphanumeric byte.
#include "gen.hpp"
#include "huge.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
#include <memory>
using namespace pbt;

struct Derived : std::string { using std::string::string; Derived(const std::string &s) : std::string(s) {} };

static void one(const std::string &t) {
  std::string want = oracle::escape(t);
  std::string g = lexi::escape(t);
  CHECK(g == want, "escape of " + show(t) + " gives " + show(g) + ", not " + show(want));
  // dropping the backslashes restores the text
  std::string back;
  for (size_t i = 0; i < g.size(); i++) { if (g[i] == '\\') { i++; CHECK(i < g.size(), "a trailing backslash in " + show(g)); } back += g[i]; }
  CHECK(back == t, "the escaped form " + show(g) + " does not lead back to " + show(t));
}
static void full(const std::string &t) {
  one(t);
  std::string want = oracle::escape(t);
  CHECK(lexi::escape(Derived(t)) == want, "escape of a class derived from std::string differs for " + show(t));
  std::string c = t.substr(0, t.find('\0'));
  std::string wc = oracle::escape(c);
  const char *p = c.c_str();
  CHECK(lexi::escape(p) == wc, "escape(const char*) of " + show(c) + " gives " + show(lexi::escape(p)));
  std::unique_ptr<char[]> m(new char[c.size() + 1]);
  memcpy(m.get(), c.c_str(), c.size() + 1);
  char *q = m.get();
  CHECK(lexi::escape(q) == wc, "escape(char*) of " + show(c) + " gives " + show(lexi::escape(q)));
  if (t.size() == 1) {
    CHECK(lexi::escape(t[0]) == want, "escape of the character " + show(t) + " gives " + show(lexi::escape(t[0])));
    CHECK(lexi::FormatChar(t[0]).escape() == want, "FormatChar::escape of " + show(t));
    CHECK(lexi::FormatChar((unsigned char)t[0]).escape() == want, "FormatChar::escape of unsigned " + show(t));
  }
}
PROP(any_text, 4500000, 160000000) {
  std::string t = gen::bytes(s);
  s.desc([&] { return show(t); });
  if (t.size() > 1) s.nontrivial(hash_str(t));
  if (oracle::escape(t) != t) s.cls("something to escape");
  if (t.size() > 64) s.cls("longer than 64");
  full(t);
}
PROP(raw_text, 3000000, 100000000) {
  std::string t;
  while (!s.exhausted() && t.size() < 48 && (s.mode == Src::BYTES || s.draw(24))) t += char(s.draw(256));
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  full(t);
}
// very long texts, single odd byte inside
PROP_NOFUZZ(long_texts, 6000, 200000) {
  u64 n = s.draw(4) ? s.draw(20000) : s.draw(300000);
  std::string t(n, char(s.draw(256)));
  for (u64 k = s.draw(6); k && n; k--) t[s.draw(n)] = char(s.draw(256));
  s.desc([&] { return show(t, 60); });
  s.nontrivial(hash_str(t));
  one(t);
}
SWEEP(bytes_and_pairs, 65536 + 256) {
  u64 i = s.draw(65536 + 256);
  std::string t;
  if (i < 256) t = std::string(1, char(i)); else { t += char((i - 256) & 255); t += char((i - 256) >> 8); }
  full(t);
  s.enumerated(1);
}
SWEEP(triples, 65536) {
  u64 i = s.draw(65536);
  std::string t("..."); t[0] = char(i & 255); t[1] = char(i >> 8);
  for (int c = 0; c < 256; c++) { t[2] = char(c); one(t); }
  s.enumerated(256); s.evaluated(255);
}
SWEEP(positions, 300) {                 // every byte at the end, start and middle of texts of every length up to 300
  u64 n = s.draw(300) + 1;
  for (int c = 0; c < 256; c++) for (u64 p : {u64(0), n / 2, n - 1}) { std::string t(n, 'a'); t[p] = char(c); one(t); one(std::string(n, char(c))); }
  s.enumerated(768); s.evaluated(1535);
}
// lengths next to powers of two, up to megabytes
static std::string varied(u64 n, u64 salt) {
  std::string t(n, '\0');
  for (u64 i = 0; i < n; i++) { u64 m = mix(salt + i / 8) >> i % 8 * 8 & 255; t[i] = char(salt % 3 == 0 ? m : salt % 3 == 1 ? (m < 250 ? 'a' + m % 26 : m) : 32 + m % 96); }
  return t;
}
SWEEP(big_texts, 17 * 9 + 6) {
  u64 i = s.draw(17 * 9 + 6), n;
  if (i < 17 * 9) n = (u64(1) << (4 + i / 9)) + i % 3 - 1;
  else { static const u64 N[] = {100000, 999999, 1000000, 3000001, (1 << 24) + 1, 10000000}; n = N[i - 17 * 9]; }
  std::string t = varied(n, i / 3);
  s.desc([&] { return show(t, 60) + " (" + oracle::dec(n) + " bytes)"; });
  one(t);
  s.enumerated(1);
}
SWEEP(huge_text, 1) {
  s.draw(1);
  huge::text(s, (u64(1) << 31) + 5000, "", [](const std::string &t) { return lexi::escape(t); }, [](char c) { return oracle::escape(std::string(1, c)); });
}
SWEEP_T(huger_text, 1) {
  s.draw(1);
  huge::text(s, (u64(1) << 32) + 5000, "", [](const std::string &t) { return lexi::escape(t); }, [](char c) { return oracle::escape(std::string(1, c)); });
}
