// C21: all platform-specific code paths give the same results.
#include "c21api.hpp"
#include "calls.hpp"
using namespace pbt;
using namespace c21;
#define BUILD(n) extern const c21::Api api_##n;
#include BUILDS_FILE
#undef BUILD
static const Api *const A[] = {
#define BUILD(n) &api_##n,
#include BUILDS_FILE
#undef BUILD
};
constexpr size_t N = sizeof A / sizeof *A;

static std::string name(Fp d) { return oracle::dec(d.f) + " * 2^" + oracle::dec_signed(d.e); }
static void same_fp(Fp a, Fp b, size_t i, const std::string &what) {
  if (a.f != b.f || a.e != b.e) fail(what + " is " + name(a) + " in the build " + A[0]->name + " and " + name(b) + " in the build " + A[i]->name);
}
template <class F> static void same(F f, const std::string &what, bool no_long32 = false) {
  std::string want = f(*A[0]);
  for (size_t i = 1; i < N; i++) {
    if (no_long32 && A[i]->long32) continue;
    std::string got = f(*A[i]);
    if (got != want) fail(what + " is " + show(want) + " in the build " + A[0]->name + " and " + show(got) + " in the build " + A[i]->name);
  }
}
static void double_case(u64 u) {
  double v = gen::from_bits(u);
  std::string w = oracle::showd(v);
  same([&](const Api &a) { return a.floating(1, v); }, "the text of " + w);
  unsigned c = A[0]->classify(v);
  for (size_t i = 1; i < N; i++) if (A[i]->classify(v) != c) fail("the class of " + w + " differs in the build " + A[i]->name);
  if ((u & gen::INF_BITS) == gen::INF_BITS) return;
  same([&](const Api &a) { return a.buffer(4, u); }, "dtoa of " + w);
  Fp d = A[0]->decompose(v), lo, hi, l, h;
  if (d.f) A[0]->boundaries(d, &lo, &hi);
  for (size_t i = 1; i < N; i++) {
    same_fp(d, A[i]->decompose(v), i, "the decomposition of " + w);
    if (!d.f) continue;
    A[i]->boundaries(d, &l, &h);
    same_fp(lo, l, i, "the lower boundary of " + w); same_fp(hi, h, i, "the upper boundary of " + w);
    same_fp(A[0]->normalize(d), A[i]->normalize(d), i, "the normal form of " + w);
    same_fp(A[0]->normalize_boundary(d), A[i]->normalize_boundary(d), i, "the normal boundary of " + w);
  }
}
PROP(doubles, 300000, 12000000) { double v = gen::anydouble(s); s.desc([&] { return oracle::showd(v); }); s.nontrivial(gen::to_bits(v)); double_case(gen::to_bits(v)); }
PROP(raw_doubles, 200000, 8000000) { u64 u = s.bits(); s.desc([&] { return oracle::showd(gen::from_bits(u)); }); s.nontrivial(u); double_case(u); }
PROP(other_floats, 150000, 6000000) {
  double v = gen::anydouble(s);
  long double l = (long double)v * (1.0L + std::ldexp((long double)(s.bits() >> 1), -63 - int(s.draw(60))));
  s.nontrivial(gen::to_bits(v));
  same([&](const Api &a) { return a.floating(0, v); }, "the text of the float " + oracle::showd(v));
  same([&](const Api &a) { return a.floating(2, l); }, "the text of the long double near " + oracle::showd(v));
}
PROP(integers, 500000, 20000000) {
  u64 v = gen::uinteger(s);
  if (s.flip()) v = 0 - v;
  unsigned k = unsigned(s.draw(10));
  s.desc([&] { return "integer kind " + oracle::dec(k) + " bits " + oracle::dec(v); });
  s.nontrivial(mix(v) ^ k);
  bool wide = k == 6 ? i64(v) != i64(int32_t(v)) : k == 7 && v != u32(v);     // a long that a 32-bit long cannot hold
  same([&](const Api &a) { return a.integer(k, v); }, "the text of integer kind " + oracle::dec(k) + " bits " + oracle::dec(v), wide);
  for (unsigned j = 0; j < 4; j++) same([&](const Api &a) { return a.buffer(j, v); }, "itoa kind " + oracle::dec(j) + " of " + oracle::dec(v));
  unsigned o = unsigned(s.draw(7));
  same([&](const Api &a) { return a.other(o, v); }, "the text of kind " + oracle::dec(o) + " bits " + oracle::dec(v));
}
PROP(texts, 200000, 8000000) {
  unsigned k = unsigned(s.draw(17));
  std::string t = calls::text(s, k < 3 ? calls::FORMATS + k : calls::FORMATS + calls::TEXTS);
  s.desc([&] { return "kind " + oracle::dec(k) + " of " + show(t, 100); });
  s.nontrivial(hash_str(t, k));
  if (k < 3) same([&](const Api &a) { return a.text(k, t); }, "the form " + oracle::dec(k) + " of " + show(t));
  else same([&](const Api &a) { return a.extract(k - 3, t); }, "the value of kind " + oracle::dec(k - 3) + " of " + show(t));
}
static u64 word(Src &s) {
  switch (s.draw(7)) {
    case 0: return s.flip() ? u64(0) - s.draw(5) : s.draw(5);
    case 1: return u64(1) << s.draw(64);
    case 2: return ~(u64(1) << s.draw(64));
    case 3: return (u64(1) << s.draw(64)) - 1;
    case 4: return (s.flip() ? 0xffffffffULL : s.draw(0x100000000ULL)) << 32 | (s.flip() ? 0xffffffffULL : s.flip() ? 0x80000000ULL : s.draw(0x100000000ULL));
    case 5: return s.bits() | u64(1) << 63;
    default: return s.bits();
  }
}
PROP(products, 3000000, 120000000) {
  Fp a{word(s), int(s.range(-1200, 1200))}, b{word(s), int(s.range(-1200, 1200))};
  if (s.draw(4) == 0) {                         // the low half at or next to the middle
    u64 x = b.f | 1, inv = x;
    for (int i = 0; i < 6; i++) inv *= 2 - x * inv;
    b.f = x; a.f = inv * ((u64(1) << 63) + u64(s.range(-3, 3)));
  }
  s.desc([&] { return name(a) + " times " + name(b); });
  s.nontrivial(mix(a.f) ^ b.f);
  Fp p = A[0]->product(a, b);
  for (size_t i = 1; i < N; i++) same_fp(p, A[i]->product(a, b), i, "the product of " + name(a) + " and " + name(b));
  Fp c{a.f >> (11 + s.draw(50)), a.e};
  if (c.f) {
    Fp n = A[0]->normalize(c), m = A[0]->normalize_boundary(c);
    for (size_t i = 1; i < N; i++) { same_fp(n, A[i]->normalize(c), i, "the normal form of " + name(c)); same_fp(m, A[i]->normalize_boundary(c), i, "the normal boundary of " + name(c)); }
  }
  Fp d{std::max(a.f, b.f), a.e}, e{std::min(a.f, b.f), a.e};
  for (size_t i = 1; i < N; i++) same_fp(A[0]->minus(d, e), A[i]->minus(d, e), i, "a difference");
}
PROP(big_integers, 120000, 5000000) {
  std::vector<Op> ops;
  std::string w;
  do {
    Op o{unsigned(s.draw(10)), word(s), ""};
    if (o.kind == 5) for (u64 n = 1 + s.draw(60); n; n--) o.text += char('0' + s.draw(10));
    w += " " + oracle::dec(o.kind) + ":" + (o.kind == 5 ? o.text : oracle::dec(o.arg));
    ops.push_back(o);
  } while (ops.size() < 25 && s.more(10));
  s.desc([&] { return "operations" + w; });
  s.nontrivial(hash_str(w));
  same([&](const Api &a) { return a.bigint(ops); }, "the big integers after the operations" + w);
}
SWEEP(powers, 309) {
  int n = int(s.draw(309));
  double p = A[0]->power(n);
  for (size_t i = 1; i < N; i++) if (A[i]->power(n) != p) fail("pow10(" + oracle::dec_signed(n) + ") differs in the build " + A[i]->name);
  s.enumerated(1);
}
SWEEP(exponents, 2048) {
  u64 e = s.draw(2048) << 52, n = 0;
  for (u64 m : {u64(0), u64(1), u64(2), u64(3), (u64(1) << 52) - 1, (u64(1) << 52) - 2, u64(1) << 51, (u64(1) << 51) - 1, (u64(1) << 51) + 1, s.bits() >> 12, s.bits() >> 12}) { double_case(e | m); double_case(u64(1) << 63 | e | m); n += 2; }
  s.enumerated(n); s.evaluated(n - 1);
}
SWEEP(small_values, 65536) {
  u64 v = s.draw(65536);
  for (unsigned k = 0; k < 10; k++) { same([&](const Api &a) { return a.integer(k, v); }, "the text of integer kind " + oracle::dec(k) + " bits " + oracle::dec(v)); }
  for (unsigned k = 0; k < 7; k++) same([&](const Api &a) { return a.other(k, v); }, "the text of kind " + oracle::dec(k) + " bits " + oracle::dec(v));
  std::string t{char(v), char(v >> 8)};
  for (unsigned k = 0; k < 3; k++) same([&](const Api &a) { return a.text(k, t); }, "the form " + oracle::dec(k) + " of " + show(t));
  s.enumerated(20); s.evaluated(19);
}
