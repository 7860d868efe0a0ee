// C20: big-integer arithmetic is exact or refuses.
#include "gen.hpp"
#include "oracle.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <lexi/detail/bigint.hpp>
#include <memory>
#include <stdexcept>
using namespace pbt;
using lexi::detail::BigInteger;
using big = boost::multiprecision::cpp_int;

constexpr unsigned BITS = 3328;
static unsigned bits(const big &v) { return v == 0 ? 0 : unsigned(msb(v)) + 1; }
static std::string name(const big &v) {
  if (bits(v) <= 200) return v.str();
  std::string t = v.str(0, std::ios_base::hex);
  return "0x" + t.substr(0, 300) + (t.size() > 300 ? "... (" + std::to_string(bits(v)) + " bits)" : "");
}
static std::vector<u64> words(const big &v) {
  std::vector<u64> w;
  if (v == 0) { w.push_back(0); return w; }
  export_bits(v, std::back_inserter(w), 64, false);
  return w;
}
static big from_words(const std::vector<u64> &w) { big v = 0; for (size_t i = w.size(); i-- > 0;) { v <<= 64; v |= w[i]; } return v; }
static void same(const BigInteger &a, const big &m, const std::string &what) {
  std::vector<u64> w = words(m);
  size_t n = a.count();
  bool ok = true;
  for (size_t i = 0; i < n || i < w.size(); i++) ok = ok && (i < n ? a.digit(i) : 0) == (i < w.size() ? w[i] : 0);
  if (!ok) {
    std::vector<u64> g;
    for (size_t i = 0; i < n; i++) g.push_back(a.digit(i));
    fail(what + " gives " + name(from_words(g)) + ", not " + name(m));
  }
  CHECK(a.isZero() == (m == 0), what + ": isZero() is " + (a.isZero() ? "true" : "false") + " for " + name(m));
  if (m <= UINT64_MAX) CHECK(a == u64(m), what + " is not equal to " + name(m));
}
// Words with structure: carries and borrows have somewhere to go.
static u64 word(Src &s) {
  switch (s.draw(7)) {
    case 6: return gen::const_int(s);
    case 0: return 0;
    case 1: return ~u64(0);
    case 2: return u64(1) << s.draw(64);
    case 3: return ~(u64(1) << s.draw(64));
    case 4: return s.flip() ? 0xffffffffULL << (32 * s.draw(2)) : s.draw(4);
    default: return s.bits();
  }
}
static big value(Src &s, unsigned max_words) {
  std::vector<u64> w;
  u64 n = 1 + s.draw(s.draw(3) ? std::min(6u, max_words) : max_words), left = 0, x = 0;
  bool runs = s.flip();
  for (u64 i = 0; i < n; i++) {
    if (!runs) { w.push_back(word(s)); continue; }
    if (!left) { left = 1 + s.draw(8); x = word(s); }
    left--; w.push_back(x);
  }
  return from_words(w);
}
// A BigInteger of this value, made from its decimals or word by word.
static BigInteger make(const big &v, bool decimals) {
  if (decimals) { std::string t = v.str(); return BigInteger(t.data(), t.size()); }
  std::vector<u64> w = words(v);
  BigInteger b(w.back());
  for (size_t i = w.size() - 1; i-- > 0;) { b <<= 64; b += w[i]; }
  return b;
}
static u64 factor(Src &s) {
  switch (s.draw(4)) { case 0: return s.draw(20); case 1: return word(s); case 2: return gen::uinteger(s); default: return s.bits(); }
}

PROP(histories, 1200000, 24000000) {
  std::unique_ptr<BigInteger> r[3];
  big m[3];
  for (int i = 0; i < 3; i++) { m[i] = i == 0 ? value(s, 6) : big(word(s)); r[i].reset(new BigInteger(make(m[i], s.flip()))); same(*r[i], m[i], "construction"); }
  u64 n = 0;
  std::string log;
  while (n < 40 && s.more(12)) {
    n++;
    size_t a = s.draw(3), b = s.draw(3);
    big want = m[a];
    std::string what;
    bool thrown = false, must = false;          // must throw
    u64 op = s.draw(11);
    try {
      switch (op) {
        case 0: { u64 d = factor(s); what = "+= " + oracle::dec(d); want += d; *r[a] += d; break; }
        case 1: { u64 d = factor(s); what = "*= (64 bits) " + oracle::dec(d); want *= d; *r[a] *= d; break; }
        case 2: { u32 d = u32(factor(s)); what = "*= (32 bits) " + oracle::dec(d); want *= d; *r[a] *= d; break; }
        case 3: { size_t k = s.draw(3) ? s.draw(200) : s.draw(4) ? 64 * s.draw(12) : s.draw(s.draw(4) ? 3000 : 30000); what = "<<= " + oracle::dec(k); want <<= unsigned(k); *r[a] <<= k; break; }
        case 4: { unsigned k = unsigned(s.draw(3) ? s.draw(60) : s.draw(s.draw(4) ? 1400 : 6000)); what = "mulPow5 " + oracle::dec(k); want *= pow(big(5), k); r[a]->mulPow5(k); break; }
        case 5: { u64 d = word(s); what = "= " + oracle::dec(d); want = d; *r[a] = d; break; }
        case 6: { what = "= another"; want = m[b]; *r[a] = *r[b]; break; }
        case 7: {
          what = "difference with " + name(m[b]);
          if (a == b || m[a] == m[b]) must = true;
          BigInteger out = s.flip() ? BigInteger(word(s)) : *r[s.draw(3)];
          u64 into = s.draw(3);                 // a result of its own, or an operand, as the result
          if (into) {
            BigInteger x = *r[a], y = *r[b];
            bool less = x.difference(y, into == 1 ? &x : &y);
            if (must) break;
            CHECK(less == (m[a] < m[b]), "difference of " + name(m[a]) + " and " + name(m[b]) + " returns " + (less ? "true" : "false"));
            same(into == 1 ? x : y, m[a] < m[b] ? m[b] - m[a] : m[a] - m[b], "the difference of " + name(m[a]) + " and " + name(m[b]) + ", put in an operand");
            same(into == 1 ? y : x, into == 1 ? m[b] : m[a], "the other operand of difference");
          }
          bool less = r[a]->difference(*r[b], &out);
          if (must) break;
          CHECK(less == (m[a] < m[b]), "difference of " + name(m[a]) + " and " + name(m[b]) + " returns " + (less ? "true" : "false"));
          same(*r[a], m[a], "the first operand of difference"); same(*r[b], m[b], "the second operand of difference");
          want = m[a] < m[b] ? m[b] - m[a] : m[a] - m[b];
          *r[a] = out;
          break;
        }
        case 8: {
          what = "comparison with " + name(m[b]);
          int c = r[a]->compare(*r[b]), w = m[a] < m[b] ? -1 : m[a] > m[b] ? 1 : 0;
          CHECK((c > 0) - (c < 0) == w, "comparing " + name(m[a]) + " with " + name(m[b]) + " gives " + oracle::dec_signed(c));
          CHECK((*r[a] == *r[b]) == (w == 0), "equality of " + name(m[a]) + " and " + name(m[b]));
          break;
        }
        case 9: { what = "copy"; BigInteger c(*r[a]); same(c, want, "a copy"); *r[a] += 1; same(c, want, "a copy, after its source changed"); *r[a] = c; BigInteger &self = *r[a]; *r[a] = self; break; }
        default: {
          u64 d = factor(s);
          CHECK((*r[a] == d) == (m[a] == d), "equality of " + name(m[a]) + " with " + oracle::dec(d));
          if (m[a] <= UINT64_MAX) CHECK(*r[a] == u64(m[a]), "equality of " + name(m[a]) + " with itself");
          what = "equality";
        }
      }
    } catch (const std::runtime_error &) { thrown = true; }
    if (must) CHECK(thrown, "the difference of equal values " + name(m[a]) + " does not throw");
    if (thrown) {
      CHECK(must || bits(want) > BITS, name(m[a]) + " " + what + " throws, the result has " + std::to_string(bits(want)) + " bits");
      if (!must) s.cls("refused");
      m[a] = value(s, 6); r[a].reset(new BigInteger(make(m[a], s.flip())));       // its value is not specified now
      continue;
    }
    same(*r[a], want, name(m[a]) + " " + what);
    m[a] = want;
    if (bits(want) > BITS) s.cls("exact beyond 3328 bits");
    if (bits(want) > 12000) { m[a] = word(s); *r[a] = u64(m[a]); }
  }
  for (int i = 0; i < 3; i++) same(*r[i], m[i], "an operand, at the end");
  s.desc([&] { return oracle::dec(n) + " operations, ending with " + name(m[0]); });
  if (n > 0) s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
}
// Where the library begins to refuse, wherever that is: an operation is exact or throws.
PROP(near_refusal, 60000, 1500000) {
  static const unsigned LIMIT = [] {            // bits of the largest power of two it makes
    unsigned lo = BITS, hi = 1 << 20;
    while (hi - lo > 1) {
      unsigned mid = lo + (hi - lo) / 2;
      std::unique_ptr<BigInteger> b(new BigInteger(u64(1)));
      try { *b <<= size_t(mid); (b->digit(b->count() - 1) ? lo : hi) = mid; } catch (const std::runtime_error &) { hi = mid; }
    }
    return lo;
  }();
  std::unique_ptr<BigInteger> b(new BigInteger(u64(0))), c(new BigInteger(u64(0)));
  big m = value(s, 6);
  if (m == 0) m = 1;
  *b = make(m, false);
  long k = long(LIMIT) - long(bits(m)) + s.range(-200, 70);
  if (k < 0) throw Discard();
  try { *b <<= size_t(k); } catch (const std::runtime_error &) {
    CHECK(bits(m) + unsigned(k) > BITS, "shifting " + name(m) + " by " + oracle::dec(u64(k)) + " throws");
    s.cls("refused at once");
    return;
  }
  m <<= unsigned(k);
  same(*b, m, "a shift by " + oracle::dec(u64(k)));
  if (s.flip()) {                               // digits below the top
    u64 d = word(s);
    *b += d; m += d;
    same(*b, m, "and a sum");
  }
  u64 n = 0;
  while (n < 12 && s.more(6)) {
    n++;
    big want = m;
    std::string what;
    try {
      switch (s.draw(6)) {
        case 0: { u64 d = factor(s); what = "+= " + oracle::dec(d); want += d; *b += d; break; }
        case 1: { u64 d = s.flip() ? factor(s) : 1 + s.draw(3); what = "*= (64 bits) " + oracle::dec(d); want *= d; *b *= d; break; }
        case 2: { u32 d = u32(s.flip() ? factor(s) : 1 + s.draw(3)); what = "*= (32 bits) " + oracle::dec(d); want *= d; *b *= d; break; }
        case 3: { size_t d = s.draw(s.flip() ? 3 : 130); what = "<<= " + oracle::dec(d); want <<= unsigned(d); *b <<= d; break; }
        case 4: { unsigned d = unsigned(s.draw(30)); what = "mulPow5 " + oracle::dec(d); want *= pow(big(5), d); b->mulPow5(d); break; }
        default: {                              // all bits below the top one
          what = "difference with 1";
          BigInteger one(u64(1));
          if (m == 1 || m == 0) break;
          b->difference(one, c.get()); want -= 1; *b = *c;
        }
      }
    } catch (const std::runtime_error &) {
      CHECK(bits(want) > BITS, name(m) + " " + what + " throws");
      s.cls("refused");
      break;
    }
    same(*b, want, "a number of " + oracle::dec(u64(bits(m))) + " bits " + what);
    m = want;
    if (bits(m) > 100000) break;
  }
  s.desc([&] { return oracle::dec(n) + " operations, ending with " + name(m); });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
}
// Amounts far beyond any capacity, up to the ends of their types.
SWEEP(huge_amounts, 64) {
  u64 k = s.draw(64);
  static const u64 OFF[] = {0, 1, 3, 31, 32, 63, 64, 65, 127, 128, 4096};
  for (u64 j = 0; j < 22; j++) {
    u64 a = j < 11 ? (u64(1) << k) + OFF[j] : (u64(1) << k) - OFF[j - 11];
    for (u64 d : {u64(0), u64(1), ~u64(0)}) {
      std::unique_ptr<BigInteger> b(new BigInteger(d));
      try {
        *b <<= size_t(a);
        if (d == 0) same(*b, big(0), "0 <<= " + oracle::dec(a));
        else { CHECK(a < 1000000, oracle::dec(d) + " <<= " + oracle::dec(a) + " does not throw"); same(*b, big(d) << unsigned(a), oracle::dec(d) + " <<= " + oracle::dec(a)); }
      } catch (const std::runtime_error &) { CHECK(d != 0 && a > BITS - 64, oracle::dec(d) + " <<= " + oracle::dec(a) + " throws"); }
      if (d == 0 && (j > 0 || a >> 24)) continue;         // counts down, one multiplication at a time
      std::unique_ptr<BigInteger> c(new BigInteger(d));
      unsigned e = unsigned(a);
      try {
        c->mulPow5(e);
        if (d == 0) same(*c, big(0), "0 mulPow5 " + oracle::dec(u64(e)));
        else { CHECK(e < 1000000, oracle::dec(d) + " mulPow5 " + oracle::dec(u64(e)) + " does not throw"); same(*c, big(d) * pow(big(5), e), oracle::dec(d) + " mulPow5 " + oracle::dec(u64(e))); }
      } catch (const std::runtime_error &) { CHECK(d != 0 && e > 1000, oracle::dec(d) + " mulPow5 " + oracle::dec(u64(e)) + " throws"); }
    }
  }
  // a decimal with so many zeros before it, or a letter so far out
  u64 z = (u64(1) << (k % 24)) - 1 + k / 24;
  for (const char *end : {"1", "99999999999999999999", "12x", ""}) {
    std::string t = std::string(z, '0') + end;
    bool bad = t.find('x') != std::string::npos;
    try {
      BigInteger b(t.data(), t.size());
      CHECK(!bad, oracle::dec(z) + " zeros and " + end + " are taken for a number");
      same(b, *end ? big(end) : big(0), oracle::dec(z) + " zeros and " + end);
    } catch (const std::runtime_error &) { CHECK(bad, oracle::dec(z) + " zeros and " + end + " are refused"); }
  }
  s.enumerated(150); s.evaluated(149);
}
static void check_difference(const big &x, const big &y, bool da, bool db) {
  BigInteger a = make(x, da), b = make(y, db), out(u64(7));
  int w = x < y ? -1 : x > y;
  int c = a.compare(b), d = b.compare(a);
  CHECK((c > 0) - (c < 0) == w && (d > 0) - (d < 0) == -w, "comparing " + name(x) + " with " + name(y) + " gives " + oracle::dec_signed(c) + " and " + oracle::dec_signed(d));
  CHECK((a == b) == (w == 0), "equality of " + name(x) + " and " + name(y));
  if (w == 0) {
    try { a.difference(b, &out); fail("the difference of equal values " + name(x) + " does not throw"); } catch (const std::runtime_error &) {}
    return;
  }
  bool less = a.difference(b, &out);
  CHECK(less == (w < 0), "difference returns " + oracle::dec(less));
  same(out, w < 0 ? y - x : x - y, "the difference of " + name(x) + " and " + name(y));
  b.difference(a, &out);
  same(out, w < 0 ? y - x : x - y, "the difference of " + name(y) + " and " + name(x));
  out = a;
  a.difference(b, &a);
  same(a, w < 0 ? y - x : x - y, "the difference of " + name(x) + " and " + name(y) + ", put in the first");
  out.difference(b, &b);
  same(b, w < 0 ? y - x : x - y, "the difference of " + name(x) + " and " + name(y) + ", put in the second");
  same(out, x, "the first operand of difference");
}
PROP(differences, 2000000, 40000000) {
  big x = value(s, 52), y;
  switch (s.draw(5)) {
    case 0: y = value(s, 52); break;
    case 1: { std::vector<u64> w = words(x); w[s.draw(w.size())] = word(s); y = from_words(w); break; }
    case 2: y = x ^ (big(1) << unsigned(s.draw(bits(x) + 1))); break;
    case 3: { std::vector<u64> w = words(x); for (auto &d : w) if (s.flip()) d = word(s); y = from_words(w); break; }
    default: y = x + (big(word(s)) << unsigned(64 * s.draw(6)));
  }
  s.desc([&] { return name(x) + " and " + name(y); });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  if (bits(x) > BITS || bits(y) > BITS) throw Discard();
  check_difference(x, y, false, false);
}
// all sequences of five words from {0, 1, ~0, ~0 - 1}, against each other
SWEEP(small_differences, 1024) {
  static const u64 W[] = {0, 1, ~u64(0), ~u64(0) - 1};
  u64 i = s.draw(1024);
  auto of = [&](u64 k) { std::vector<u64> w; for (int j = 0; j < 5; j++, k /= 4) w.push_back(W[k % 4]); return from_words(w); };
  big x = of(i);
  for (u64 j = 0; j < 1024; j += 1) check_difference(x, of(j), false, false);
  s.enumerated(1024); s.evaluated(1023);
}
PROP(decimals, 600000, 12000000) {
  u64 len;
  switch (s.draw(4)) { case 0: len = s.draw(80); break; case 1: len = 19 * s.draw(20) + s.draw(3); break; case 2: len = s.draw(1001); break; default: len = s.draw(s.draw(8) ? 200 : 9000); }
  std::string t;
  u64 style = s.draw(4);
  u64 salt = s.bits();
  for (u64 i = 0; i < len; i++) {
    u64 x = mix(salt + i);
    char c = char('0' + x % 10);
    if (style == 1) c = '9';
    if (style == 2) c = (x >> 32) % 8 ? '0' : c;
    if (style == 3) c = i < len / 2 ? '0' : c;
    t += c;
  }
  bool bad = len && s.chance(1, 6);
  if (bad) { static const char C[] = "/:+-. ,eE\0aA\xff\xb0\x80"; t[s.draw(len)] = C[s.draw(sizeof C - 1)]; }
  s.desc([&] { return show(t, 120); });
  if (len > 1) s.nontrivial(hash_str(t));
  std::unique_ptr<char[]> heap(new char[len ? len : 1]);
  memcpy(heap.get(), t.data(), len);
  big want = 0;
  if (!bad) { size_t z = t.find_first_not_of('0'); want = z == std::string::npos ? big(0) : big(t.substr(z)); }
  try {
    BigInteger b(heap.get(), len);
    CHECK(!bad, show(t) + " is taken for a number");
    same(b, want, "the number " + show(t, 200));
  } catch (const std::runtime_error &) {
    CHECK(bad || bits(want) > BITS, "the number " + show(t, 200) + " is refused");
  }
}
PROP(shifts, 1500000, 30000000) {
  big x = value(s, 20);
  u64 k = s.draw(2) ? 64 * s.draw(30) + (s.draw(3) ? s.draw(64) : 0) : s.draw(3328);
  if (bits(x) + k > BITS) k = BITS - bits(x);
  BigInteger b = make(x, false);
  b <<= size_t(k);
  s.desc([&] { return name(x) + " << " + oracle::dec(k); });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  same(b, x << unsigned(k), name(x) + " <<= " + oracle::dec(k));
}
SWEEP(powers_of_five, 1434) {
  u64 k = s.draw(1434);
  static const u64 START[] = {1, 2, 3, 0xffffffff, ~u64(0), 0};
  for (u64 v : START) {
    BigInteger b(v);
    big w = big(v) * pow(big(5), unsigned(k));
    if (bits(w) > BITS) continue;
    b.mulPow5(unsigned(k));
    same(b, w, oracle::dec(v) + " mulPow5 " + oracle::dec(k));
  }
  // split in two steps, the same
  BigInteger c(u64(1)); c.mulPow5(unsigned(k / 3)); c.mulPow5(unsigned(k - k / 3));
  same(c, pow(big(5), unsigned(k)), "mulPow5 in two steps of " + oracle::dec(k));
  s.enumerated(6); s.evaluated(6);
}
SWEEP(powers_of_two, 3328) {
  u64 k = s.draw(3328);
  for (u64 d : {u64(1), u64(3), ~u64(0)}) {
    if (k + 64 > BITS && d != 1) continue;
    BigInteger b(d);
    b <<= size_t(k);
    same(b, big(d) << unsigned(k), oracle::dec(d) + " <<= " + oracle::dec(k));
    b += ~u64(0); same(b, (big(d) << unsigned(k)) + ~u64(0), "sum");
    b += 1; same(b, (big(d) << unsigned(k)) + (big(1) << 64), "sum");
  }
  BigInteger o(u64(1)), one(u64(1)), out(u64(0));
  o <<= size_t(k);
  if (k) { o.difference(one, &out); same(out, (big(1) << unsigned(k)) - 1, "2^" + oracle::dec(k) + " - 1");
           out += 1; same(out, big(1) << unsigned(k), "2^" + oracle::dec(k)); }
  s.enumerated(1); s.evaluated(8);
}
PROP(products, 1500000, 30000000) {
  big x = value(s, 20);
  BigInteger b = make(x, false), c = b;
  u64 f = factor(s);
  b *= f;
  same(b, x * f, name(x) + " *= (64 bits) " + oracle::dec(f));
  c *= u32(f);
  same(c, x * u32(f), name(x) + " *= (32 bits) " + oracle::dec(u32(f)));
  b += f;
  same(b, x * f + f, name(x) + " *= += " + oracle::dec(f));
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  s.desc([&] { return name(x) + " * " + oracle::dec(f); });
}
