// C24: results do not depend on the process locale or the rounding mode.
#include "calls.hpp"
#include "locales.hpp"
#include <thread>
using namespace pbt;
using namespace calls;
using namespace locales;

static std::string under(const Call &c, u64 how, u64 which, u64 rounding, std::string &what) {
  Scope sc(how, which, rounding);
  what = sc.what;
  return perform(c);
}
static void compare(const Call &c, const std::string &want, u64 how, u64 which, u64 rounding) {
  std::string what, got = under(c, how, which, rounding, what);
  CHECK(got == want, describe(c) + " gives " + show(want) + " in the C locale and " + show(got) + " with " + what);
}
// Formatting numbers: any locale and rounding mode.
PROP(formatting, 1200000, 40000000) {
  Call c = call(s);
  if (c.kind >= FORMATS) { c.kind = s.draw(3) ? 9 : s.draw(9); c.bits = c.kind == 9 ? gen::to_bits(gen::anydouble(s)) : gen::uinteger(s); c.text = ""; }
  bool exact = c.kind != 10 && c.kind != 11;            // made by a conversion that would round
  u64 how = s.draw(6), which = s.draw(640), r = exact ? s.draw(4) : 0;
  std::string want = perform(c);
  s.desc([&] { return describe(c) + " -> " + show(want); });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  compare(c, want, how, which, r);
}
// Extracting, escaping: any locale.
PROP(texts, 1200000, 40000000) {
  Call c = call(s);
  if (c.kind < FORMATS) { c.kind = FORMATS + s.draw(TEXTS + EXTRACTS); c.text = text(s, c.kind); }
  static const char *BITS[] = {",", ".", "'", "\xc2\xa0", "\xe2\x80\xaf", "\xd9\xab", "\xd9\xac", " ", "1", "e", "-", "_", "\xa0", "\x85"};
  for (u64 n = s.draw(3); n; n--) c.text.insert(s.draw(c.text.size() + 1), s.pick(BITS));
  u64 how = s.draw(6), which = s.draw(640);
  std::string want = perform(c);
  s.desc([&] { return describe(c) + " -> " + show(want); });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  compare(c, want, how, which, 0);
}
// Numbers with a fraction, and what follows them.
PROP(fractions, 1200000, 40000000) {
  static const char *RADIX[] = {".", ".", ".", ",", "\xd9\xab", "..", ".,", ",.", "'", "/"};
  std::string t = s.flip() ? "-" : "";
  for (u64 n = s.draw(12); n; n--) t += char('0' + s.draw(10));
  for (u64 k = 1 + s.draw(2); k; k--) { t += s.pick(RADIX); for (u64 n = s.draw(12); n; n--) t += char('0' + s.draw(10)); }
  if (s.flip()) { t += 'e'; if (s.flip()) t += '-'; t += oracle::dec(s.draw(40)); }
  if (s.draw(3) == 0) t.insert(s.draw(t.size() + 1), s.pick(RADIX));
  Call c; c.kind = FORMATS + TEXTS + 10 + s.draw(3); c.text = t;
  std::string want = perform(c);
  s.desc([&] { return describe(c) + " -> " + show(want); });
  s.nontrivial(hash_str(t, c.kind));
  compare(c, want, s.draw(6), s.draw(640), 0);
}
// Written in one locale, read in another.
PROP(across, 600000, 20000000) {
  double v = gen::finite(s);
  u64 h1 = s.draw(6), w1 = s.draw(640), h2 = s.draw(6), w2 = s.draw(640);
  std::string t, a, b; double r;
  { Scope sc(h1, w1, s.draw(4)); a = sc.what; t = lexi::lexi(v); }
  { Scope sc(h2, w2, 0); b = sc.what; r = lexi::lexi<double>(t); }
  s.desc([&] { return oracle::showd(v) + " with " + a + " and " + b; });
  s.nontrivial(gen::to_bits(v));
  CHECK(r == v, oracle::showd(v) + " written with " + a + " as " + show(t) + " reads as " + oracle::showd(r) + " with " + b);
}
// Every byte in front of, behind and inside numbers, in every locale.
SWEEP(bytes, 256 * 64) {
  u64 i = s.draw(256 * 64);
  std::string x(1, char(i % 256));
  u64 which = i / 256;
  if (which >= names().size()) return;
  const std::string T[] = {x, x + "12", "12" + x + "34", "1" + x + "5e1", x + "1.5", "1.5" + x + "5", "1.5e" + x + "1", "-" + x + "2", x + x + "7", "true" + x, "1." + x + "5"};
  u64 n = 0;
  for (u64 k = FORMATS; k < KINDS; k++)
    for (auto &t : T) { Call c; c.kind = k; c.text = t; std::string want = perform(c); compare(c, want, 0, which, 0); compare(c, want, 4, i * 2654435761u >> 5, 0); n += 2; }
  s.enumerated(n); s.evaluated(n - 1);
}
// Every character and small number in every locale.
SWEEP(values, 256 * 64) {
  u64 i = s.draw(256 * 64), n = 0;
  u64 which = i / 256;
  if (which >= names().size()) return;
  for (u64 k = 0; k < FORMATS; k++)
    for (u64 how = 0; how < 6; how++) {
      Call c; c.kind = k; c.bits = k >= 9 && k <= 11 ? gen::to_bits(double(i % 256) * 1234.5678) : (i % 256) * 0x0101010101010101ULL;
      compare(c, perform(c), how, which, 0); n++;
      if (k != 10 && k != 11) { compare(c, perform(c), how, which, 1 + n % 3); n++; }
    }
  s.enumerated(n); s.evaluated(n - 1);
}
// Numbers of any length, in every locale.
SWEEP(lengths, 17 * 12) {
  u64 i = s.draw(17 * 12), n = u64(1) << (6 + i / 12), form = i % 12, ops = 0;
  for (long off : {-9L, -1L, 0L, 1L, 6L}) {
    if (n > 100000 && off < 0) continue;
    u64 m = u64(long(n) + off);
    std::string t;
    switch (form) {
      case 0: t = std::string(m, ' ') + "-12.75e1"; break;
      case 1: t = std::string(m, '0') + "12.75"; break;
      case 2: t = "12." + std::string(m, '0') + "75e" + oracle::dec(m); break;
      case 3: t = "0." + std::string(m, '0') + "1275e" + oracle::dec(m + 3); break;
      case 4: t = "1275" + std::string(m, '0') + ".5e-" + oracle::dec(m + 2); break;
      case 5: t = "9007199254740993." + std::string(m, '0') + "1"; break;
      case 6: t = "1.5" + std::string(m, 'x'); break;
      case 7: t = std::string(m, ' ') + "1,5"; break;
      case 8: t = "16777217." + std::string(m, '0') + "," + std::string(m, '9'); break;
      case 9: t = "1.5e" + std::string(m, '0') + "12"; break;
      case 10: t = "0." + std::string(m, '3'); break;
      default: t = "1.25," + std::string(m, '7') + "." + std::string(m, '7');
    }
    for (u64 k = FORMATS + TEXTS; k < KINDS; k++) {
      Call c; c.kind = k; c.text = t;
      std::string want = perform(c);
      if (n > 20000) { static const u64 HOW[] = {0, 1, 3}; compare(c, want, HOW[(i + k) % 3], i * 7 + k + u64(off), 0); ops++; continue; }
      for (u64 which = 0; which < names().size(); which++) { compare(c, want, (which + k) & 1 ? 0 : 3, which, 0); ops++; }
    }
  }
  s.enumerated(ops); s.evaluated(ops - 1);
}
