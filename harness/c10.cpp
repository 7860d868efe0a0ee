// C10: booleans and null are extracted from their exact literals only.
#include "gen.hpp"
#include "huge.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
using namespace pbt;

enum Got { TRUE_, FALSE_, NULL_, THROWN, OTHER };
template <class F> static int outcome(F f) {
  try { return f(); } catch (const std::runtime_error &) { return THROWN; } catch (...) { return OTHER; }
}
static const char *nm(int g) {
  switch (g) { case TRUE_: return "true"; case FALSE_: return "false"; case NULL_: return "null"; case THROWN: return "std::runtime_error"; default: return "another exception"; }
}
static void one(const std::string &t) {
  int want = t == "true" ? TRUE_ : t == "false" ? FALSE_ : THROWN;
  auto say = [&](const char *how, int g, int w) { return std::string(how) + " of " + show(t) + " gives " + nm(g) + ", not " + nm(w); };
  int g = outcome([&] { return lexi::lexi<bool>(t) ? TRUE_ : FALSE_; });
  CHECK(g == want, say("lexi<bool>", g, want));
  g = outcome([&] { return lexi::Extract<bool>()(t) ? TRUE_ : FALSE_; });
  CHECK(g == want, say("Extract<bool>", g, want));
  g = outcome([&] { return bool(lexi::ExtractBool(t)) ? TRUE_ : FALSE_; });
  CHECK(g == want, say("ExtractBool", g, want));
  want = t == "null" ? NULL_ : THROWN;
  g = outcome([&] { return lexi::lexi<std::nullptr_t>(t) == nullptr ? NULL_ : OTHER; });
  CHECK(g == want, say("lexi<nullptr_t>", g, want));
  g = outcome([&] { return lexi::Extract<std::nullptr_t>()(t) == nullptr ? NULL_ : OTHER; });
  CHECK(g == want, say("Extract<nullptr_t>", g, want));
  g = outcome([&] { return lexi::ExtractNull(t).null() == nullptr ? NULL_ : OTHER; });
  CHECK(g == want, say("ExtractNull", g, want));
  // from a C string only the part before the first null byte counts
  if (t.find('\0') == std::string::npos) {
    g = outcome([&] { return lexi::lexi<bool>(t.c_str()) ? TRUE_ : FALSE_; });
    want = t == "true" ? TRUE_ : t == "false" ? FALSE_ : THROWN;
    CHECK(g == want, say("lexi<bool>(const char*)", g, want));
    g = outcome([&] { return lexi::lexi<std::nullptr_t>(t.c_str()) == nullptr ? NULL_ : OTHER; });
    want = t == "null" ? NULL_ : THROWN;
    CHECK(g == want, say("lexi<nullptr_t>(const char*)", g, want));
  }
  // characters
  int c = outcome([&] { return 256 + (unsigned char)lexi::lexi<char>(t); });
  int cw = t.empty() ? THROWN : 256 + (unsigned char)t[0];
  auto sayc = [&](const char *how) { return std::string(how) + " of " + show(t) + " gives " + (c < 256 ? nm(c) : oracle::dec(u64(c - 256)).c_str()); };
  CHECK(c == cw, sayc("lexi<char>"));
  c = outcome([&] { return 256 + (unsigned char)lexi::Extract<char>()(t); });
  CHECK(c == cw, sayc("Extract<char>"));
  c = outcome([&] { return 256 + (unsigned char)char(lexi::ExtractChar(t)); });
  CHECK(c == cw, sayc("ExtractChar"));
  c = outcome([&] { return 256 + int((unsigned char)(lexi::ExtractChar(t))); });
  CHECK(c == cw, sayc("ExtractChar, as unsigned char,"));
}
static const std::string LIT[] = {"true", "false", "null"};

// one to three edits of a literal
PROP(edited_literals, 7000000, 300000000) {
  std::string t = s.pick(LIT);
  static const char HOT[] = " \t\n\r\v\f\0truefalsnTRUEFALSN01\"'-+.;,";
  u64 n = s.draw(4);
  for (u64 i = 0; i < n; i++) {
    char c = s.flip() ? HOT[s.draw(sizeof HOT)] : char(s.draw(256));
    u64 p = s.draw(t.size() + 1);
    switch (s.draw(6)) {
      case 0: t.insert(p, 1, c); break;
      case 1: if (p < t.size()) t.erase(p, 1); break;
      case 2: if (p < t.size()) t[p] = c; break;
      case 3: t += t.substr(p); break;
      case 4: t += s.pick(LIT); break;
      default: if (p < t.size()) { char &x = t[p]; if ((x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z')) x ^= 32; }
    }
  }
  s.desc([&] { return show(t); });
  bool lit = t == "true" || t == "false" || t == "null";
  if (!lit) s.nontrivial(hash_str(t));
  if (lit) s.cls("a literal");
  one(t);
}
PROP(raw_text, 1500000, 100000000) {
  std::string t;
  for (u64 n = s.draw(12); n; n--) t += char(s.draw(256));
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one(t);
}
PROP(long_texts, 300000, 10000000) {
  std::string t = s.flip() ? gen::bytes(s) : s.pick(LIT) + gen::bytes(s);
  if (s.flip()) t = gen::bytes(s) + t;
  s.desc([&] { return show(t); });
  s.nontrivial(hash_str(t));
  one(t);
}
// all texts at edit distance one from a literal, all prefixes and suffixes
SWEEP(distance_one, 3 * 256) {
  u64 i = s.draw(3 * 256), n = 0;
  const std::string &l = LIT[i / 256];
  char c = char(i % 256);
  for (size_t p = 0; p <= l.size(); p++) {
    std::string t = l; t.insert(p, 1, c); one(t); n++;
    if (p < l.size()) { t = l; t[p] = c; one(t); n++; t = l; t.erase(p, 1); one(t); n++; }
    one(l.substr(0, p)); one(l.substr(p)); n += 2;
    for (size_t q = 0; q <= l.size(); q++) { t = l; t.insert(p, 1, c); t.insert(q, 1, c); one(t); n++; }
  }
  s.enumerated(n); s.evaluated(n - 1);
}
SWEEP(case_masks, 3 * 32) {             // all ways to change case
  u64 i = s.draw(3 * 32);
  std::string t = LIT[i / 32];
  for (size_t k = 0; k < t.size(); k++) if (i >> k & 1) t[k] ^= 32;
  one(t); one(t + " "); one(" " + t); one(t + std::string(1, '\0')); one(t + t);
  s.enumerated(5); s.evaluated(4);
}
SWEEP(two_bytes, 65536 + 257) {
  u64 i = s.draw(65536 + 257);
  std::string t;
  if (i > 256) { t += char((i - 257) & 255); t += char((i - 257) >> 8); } else if (i) t += char(i - 1);
  one(t);
  s.enumerated(1);
}
SWEEP(four_letters, 12 * 12 * 12 * 12) {        // all four- and five-letter words over the letters of the literals
  u64 i = s.draw(12 * 12 * 12 * 12);
  static const char L[] = "truefalsnTFN";
  std::string t;
  for (int k = 0; k < 4; k++) { t += L[i % 12]; i /= 12; }
  one(t);
  for (int k = 0; k < 12; k++) one(t + L[k]);
  s.enumerated(13); s.evaluated(12);
}

// A literal, and so much behind it that the length is that of the literal in 32 bits.
SWEEP(huge_texts, 1) {
  s.draw(1);
  huge::apart(s, "texts of 2^32 and a few bytes", [] {
    std::string t((u64(1) << 32) + 5, '\0');
    for (int k = 0; k < 3; k++) {
      t.resize((u64(1) << 32) + LIT[k].size());
      memcpy(&t[0], LIT[k].data(), LIT[k].size());
      for (int how = 0; how < 2; how++) {
        std::string got = "refused";
        try { if (how) got = lexi::lexi<std::nullptr_t>(t) == nullptr ? "null" : "not null"; else got = lexi::lexi<bool>(t) ? "true" : "false"; } catch (const std::runtime_error &) {}
        CHECK(got == "refused", "a text of 2^32 + " + oracle::dec(LIT[k].size()) + " bytes that begins with " + LIT[k] + " is taken for " + got);
      }
      CHECK(lexi::lexi<char>(t) == LIT[k][0], "the first character of a text of more than 2^32 bytes");
    }
  });
}
