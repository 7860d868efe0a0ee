// C15: formatter objects are values: copies are independent of their source.
#include "gen.hpp"
#include "oracle.hpp"
#include <lexi/lexi.hpp>
#include <memory>
#include <new>
#include <utility>
#include <vector>
using namespace pbt;

// Storage whose contents are overwritten when the object in it is destroyed.
template <class F> struct Box {
  typename std::aligned_storage<sizeof(F), alignof(F)>::type *mem;
  F *f;
  template <class... A> explicit Box(A &&...a) {
    mem = static_cast<decltype(mem)>(::operator new(sizeof(F)));
    memset(static_cast<void *>(mem), 0x5c, sizeof(F));
    asm volatile("" : : "r"(mem) : "memory");
    f = new (mem) F(std::forward<A>(a)...);
  }
  Box(const Box &) = delete;
  Box &operator=(const Box &) = delete;
  ~Box() {
    f->~F();
    memset(static_cast<void *>(mem), 0xa7, sizeof(F));
    asm volatile("" : : "r"(mem) : "memory");
    ::operator delete(mem);
  }
};
struct Live {                           // an object and what it has to show
  virtual ~Live() {}
  std::string text, esc, json;
  virtual void look(const char *op, size_t i) = 0;
};
template <class F> struct Obj : Live {
  Box<F> box;
  template <class A> Obj(A &&a, std::string t, std::string e, std::string j) : box(std::forward<A>(a)) { text = std::move(t); esc = std::move(e); json = std::move(j); }
  void look(const char *op, size_t i) override {
    const F &f = *box.f;
    std::string what = std::string("after ") + op + ", object " + oracle::dec(i);
    CHECK(f.size() == text.size() && f.length() == text.size(), what + " has size " + oracle::dec(f.size()) + ", not that of " + show(text));
    std::string d(f.data(), f.size());
    CHECK(d == text, what + " shows " + show(d) + ", not " + show(text));
    CHECK(f.data()[text.size()] == '\0' && f.data() == f.c_str(), what + ": c_str() is not the terminated text");
    CHECK(f.string() == text && std::string(f) == text, what + " has string " + show(f.string()) + ", not " + show(text));
    CHECK(f.escape() == esc && f.jsonify() == json, what + " has other escaped or JSON forms than before");
  }
};
template <class F> struct Value { std::string t, e, j; };

enum class E8 : signed char {}; enum class E64 : unsigned long long {};

// -- per type: a new object with a generated value and its model texts
static std::unique_ptr<Obj<lexi::FormatInt>> fresh(Src &s, lexi::FormatInt *) {
  u64 v = gen::uinteger(s);
  std::string t;
  switch (s.draw(4)) {
    case 0: t = oracle::dec(v); return std::unique_ptr<Obj<lexi::FormatInt>>(new Obj<lexi::FormatInt>((unsigned long long)v, t, t, t));
    case 1: t = oracle::dec_signed(i64(v)); return std::unique_ptr<Obj<lexi::FormatInt>>(new Obj<lexi::FormatInt>((long long)v, t, t, t));
    case 2: t = oracle::dec_signed(int(v)); return std::unique_ptr<Obj<lexi::FormatInt>>(new Obj<lexi::FormatInt>(int(v), t, t, t));
    default: t = oracle::dec_signed((signed char)v); return std::unique_ptr<Obj<lexi::FormatInt>>(new Obj<lexi::FormatInt>((signed char)v, t, t, t));
  }
}
static std::unique_ptr<Obj<lexi::FormatEnum>> fresh(Src &s, lexi::FormatEnum *) {
  u64 v = gen::uinteger(s);
  if (s.flip()) { std::string t = oracle::dec_signed((signed char)v); return std::unique_ptr<Obj<lexi::FormatEnum>>(new Obj<lexi::FormatEnum>(E8((signed char)v), t, t, t)); }
  std::string t = oracle::dec(v);
  return std::unique_ptr<Obj<lexi::FormatEnum>>(new Obj<lexi::FormatEnum>(E64(v), t, t, t));
}
static std::unique_ptr<Obj<lexi::FormatFloat>> fresh(Src &s, lexi::FormatFloat *) {
  double v = gen::anydouble(s);
  std::string t = lexi::lexi(v);        // the text itself is judged by C04 to C06
  return std::unique_ptr<Obj<lexi::FormatFloat>>(new Obj<lexi::FormatFloat>(v, t, t, t));
}
static std::unique_ptr<Obj<lexi::FormatBool>> fresh(Src &s, lexi::FormatBool *) {
  bool b = s.flip();
  std::string t = b ? "true" : "false";
  return std::unique_ptr<Obj<lexi::FormatBool>>(new Obj<lexi::FormatBool>(b, t, t, t));
}
static std::unique_ptr<Obj<lexi::FormatChar>> fresh(Src &s, lexi::FormatChar *) {
  char c = char(s.draw(256));
  std::string t(1, c);
  return std::unique_ptr<Obj<lexi::FormatChar>>(new Obj<lexi::FormatChar>(c, t, oracle::escape(t), "\"" + oracle::json_body(t) + "\""));
}
static std::unique_ptr<Obj<lexi::FormatNull>> fresh(Src &, lexi::FormatNull *) {
  return std::unique_ptr<Obj<lexi::FormatNull>>(new Obj<lexi::FormatNull>(nullptr, "null", "null", "null"));
}
template <class F> static F by_value(F f) { return f; }
template <class F> static F pick_one(bool c, const F &a, const F &b) { if (c) return a; return b; }
struct Holder { int before; lexi::FormatInt i; lexi::FormatFloat f; int after; };

template <class F> static void history(Src &s, u64 kind) {
  std::vector<std::unique_ptr<Obj<F>>> v;
  std::vector<F> vec; std::vector<std::string> vect;
  u64 ops = 0, copies = 0;
  auto check = [&](const char *op) {
    for (size_t i = 0; i < v.size(); i++) v[i]->look(op, i);
    CHECK(vec.size() == vect.size(), "vector");
    for (size_t i = 0; i < vec.size(); i++) {
      std::string d(vec[i].data(), vec[i].size());
      CHECK(d == vect[i] && vec[i].string() == vect[i] && vec[i].data()[d.size()] == 0, std::string("after ") + op + ", element " + oracle::dec(i) + " of a vector shows " + show(d) + ", not " + show(vect[i]));
    }
  };
  auto model = [&](size_t to, size_t from) { v[to]->text = v[from]->text; v[to]->esc = v[from]->esc; v[to]->json = v[from]->json; };
  auto add = [&](auto &&src, size_t from) {
    auto o = std::unique_ptr<Obj<F>>(new Obj<F>(std::forward<decltype(src)>(src), v[from]->text, v[from]->esc, v[from]->json));
    v.push_back(std::move(o));
  };
  v.push_back(fresh(s, static_cast<F *>(nullptr)));
  check("construction");
  while (ops < 40 && s.more(12)) {
    ops++;
    size_t a = v.empty() ? 0 : s.draw(v.size()), b = v.empty() ? 0 : s.draw(v.size());
    u64 op = v.empty() ? 0 : s.draw(14);
    const char *what = "";
    switch (op) {
      case 0: case 1: if (v.size() < 7) v.push_back(fresh(s, static_cast<F *>(nullptr))); what = "construction"; break;
      case 2: if (v.size() < 7) { add(*v[a]->box.f, a); copies++; } what = "copy construction"; break;
      case 3: if (v.size() < 7) { add(std::move(*v[a]->box.f), a); v.erase(v.begin() + long(a)); copies++; } what = "move construction"; break;
      case 4: *v[a]->box.f = static_cast<const F &>(*v[b]->box.f); model(a, b); copies++; what = "assignment"; break;
      case 5: if (a != b) { *v[a]->box.f = std::move(*v[b]->box.f); model(a, b); v.erase(v.begin() + long(b)); copies++; } what = "move assignment"; break;
      case 6: { F &r = *v[a]->box.f; r = r; what = "self-assignment"; break; }
      case 7: { std::swap(*v[a]->box.f, *v[b]->box.f); if (a != b) { std::swap(v[a]->text, v[b]->text); std::swap(v[a]->esc, v[b]->esc); std::swap(v[a]->json, v[b]->json); } copies++; what = "swap"; break; }
      case 8: v.erase(v.begin() + long(a)); what = "destruction"; break;
      case 9: if (vec.size() < 20) { vec.push_back(*v[a]->box.f); vect.push_back(v[a]->text); copies++; } what = "push into a vector"; break;
      case 10: if (!vec.empty()) { size_t i = s.draw(vec.size()); vec.erase(vec.begin() + long(i)); vect.erase(vect.begin() + long(i)); copies++; } what = "erase from a vector"; break;
      case 11: { auto n = fresh(s, static_cast<F *>(nullptr)); *v[a]->box.f = by_value(*n->box.f); v[a]->text = n->text; v[a]->esc = n->esc; v[a]->json = n->json; copies++; what = "assignment from a temporary"; break; }
      case 12: if (v.size() < 7) { bool c = s.flip(); size_t from = c ? a : b; F t = pick_one(c, *v[a]->box.f, *v[b]->box.f); add(by_value(t), from); copies++; } what = "return by value"; break;
      default: { std::vector<F> w(vec); vec = w; vec.shrink_to_fit(); std::vector<F> x(std::move(w)); vec.swap(x); copies++; what = "copying a vector"; }
    }
    check(what);
  }
  if (copies) s.nontrivial(hash_bytes(s.rec, *s.nrec * 8) + kind);
  if (copies) s.cls("with copies");
}
// FormatEnum is a FormatInt: assignments through the base, and slices
static void base_history(Src &s) {
  std::vector<std::unique_ptr<Obj<lexi::FormatEnum>>> e;
  std::vector<std::unique_ptr<Obj<lexi::FormatInt>>> i;
  e.push_back(fresh(s, (lexi::FormatEnum *)nullptr));
  i.push_back(fresh(s, (lexi::FormatInt *)nullptr));
  u64 n = 0;
  auto model = [](Live &to, Live &from) { to.text = from.text; to.esc = from.esc; to.json = from.json; };
  while (n++ < 30 && s.more(10)) {
    size_t a = s.draw(e.size()), b = s.draw(i.size());
    switch (s.draw(6)) {
      case 0: if (e.size() < 5) e.push_back(fresh(s, (lexi::FormatEnum *)nullptr)); break;
      case 1: if (i.size() < 5) i.push_back(fresh(s, (lexi::FormatInt *)nullptr)); break;
      case 2: { lexi::FormatInt &r = *e[a]->box.f; r = *i[b]->box.f; model(*e[a], *i[b]); break; }
      case 3: { *i[b]->box.f = *e[a]->box.f; model(*i[b], *e[a]); break; }
      case 4: if (i.size() < 5) i.push_back(std::unique_ptr<Obj<lexi::FormatInt>>(new Obj<lexi::FormatInt>(static_cast<const lexi::FormatInt &>(*e[a]->box.f), e[a]->text, e[a]->esc, e[a]->json))); break;
      default: if (s.flip()) { if (e.size() > 1) e.erase(e.begin() + long(a)); } else if (i.size() > 1) i.erase(i.begin() + long(b));
    }
    for (size_t k = 0; k < e.size(); k++) e[k]->look("a step with enum and integer formatters", k);
    for (size_t k = 0; k < i.size(); k++) i[k]->look("a step with enum and integer formatters", k);
  }
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8) + 99);
}
// aggregates that contain formatters
static void holder_history(Src &s) {
  auto a = fresh(s, (lexi::FormatInt *)nullptr); auto b = fresh(s, (lexi::FormatFloat *)nullptr);
  auto c = fresh(s, (lexi::FormatInt *)nullptr); auto d = fresh(s, (lexi::FormatFloat *)nullptr);
  std::unique_ptr<Holder> x(new Holder{1, *a->box.f, *b->box.f, 2}), y(new Holder{3, *c->box.f, *d->box.f, 4});
  std::string xi = a->text, xf = b->text, yi = c->text, yf = d->text;
  a.reset(); b.reset(); c.reset(); d.reset();
  u64 n = 0;
  while (n++ < 12 && s.more(5)) {
    switch (s.draw(4)) {
      case 0: *x = *y; xi = yi; xf = yf; break;
      case 1: std::swap(*x, *y); std::swap(xi, yi); std::swap(xf, yf); break;
      case 2: { std::unique_ptr<Holder> z(new Holder(*x)); x = std::move(z); break; }
      default: { Holder t = *y; *y = t; }
    }
    CHECK(x->i.string() == xi && x->f.string() == xf && y->i.string() == yi && y->f.string() == yf,
          "members of copied structs show " + show(x->i.string()) + " " + show(x->f.string()) + " " + show(y->i.string()) + " " + show(y->f.string()) +
          ", not " + show(xi) + " " + show(xf) + " " + show(yi) + " " + show(yf));
  }
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8) + 98);
}
// Extractors keep their value when the text they were made from is gone.
template <class X, class T> static void extractor(Src &s, const std::string &t1, const std::string &t2, const char *name) {
  T w1 = T(X(t1)), w2 = T(X(t2));
  auto same = [](T a, T b) { return a == b || (a != a && b != b); };
  std::unique_ptr<std::string> p(new std::string(t1)), q(new std::string(t2));
  X a(*p), b(*q);
  if (s.flip()) { p->assign(p->size(), '7'); q->assign(q->size(), 'x'); }
  p.reset(); q.reset();
  X c(a), d(std::move(b));
  std::string what = std::string(name) + " of " + show(t1) + " and " + show(t2);
  CHECK(same(T(c), w1) && same(T(a), w1) && same(T(d), w2), what + ": a copy has another value");
  a = d;
  CHECK(same(T(a), w2) && same(T(c), w1), what + ": assignment");
  std::swap(a, c);
  CHECK(same(T(a), w1) && same(T(c), w2), what + ": swap");
  a = static_cast<X &>(a);
  CHECK(same(T(a), w1) && same(T(a), w1), what + ": self-assignment, or converting twice");
}
static std::string num(Src &s) {
  std::string t = s.flip() ? "-" : "";
  for (u64 n = 1 + s.draw(s.flip() ? 6 : 40); n; n--) t += char('0' + s.draw(10));
  if (s.flip()) { t += "."; for (u64 n = 1 + s.draw(20); n; n--) t += char('0' + s.draw(10)); }
  return t;
}
PROP(int_objects, 1000000, 12000000) { history<lexi::FormatInt>(s, 1); }
PROP(float_objects, 1000000, 12000000) { history<lexi::FormatFloat>(s, 2); }
PROP(enum_objects, 600000, 8000000) { history<lexi::FormatEnum>(s, 3); }
PROP(char_objects, 200000, 8000000) { history<lexi::FormatChar>(s, 4); }
PROP(bool_objects, 200000, 5000000) { history<lexi::FormatBool>(s, 5); }
PROP(null_objects, 60000, 2000000) { history<lexi::FormatNull>(s, 6); }
PROP(base_objects, 200000, 8000000) { base_history(s); }
PROP(members, 200000, 8000000) { holder_history(s); }
PROP(extractors, 500000, 15000000) {
  std::string a = num(s), b = num(s);
  s.desc([&] { return show(a) + " " + show(b); });
  s.nontrivial(hash_str(a + " " + b));
  extractor<lexi::ExtractFloat, double>(s, a, b, "ExtractFloat as double");
  extractor<lexi::ExtractFloat, float>(s, a, b, "ExtractFloat as float");
  extractor<lexi::ExtractFloat, long double>(s, a, b, "ExtractFloat as long double");
  extractor<lexi::ExtractInt, long long>(s, a, b, "ExtractInt");
  extractor<lexi::ExtractInt, unsigned char>(s, a, b, "ExtractInt as unsigned char");
  extractor<lexi::ExtractChar, char>(s, a, b, "ExtractChar");
  extractor<lexi::ExtractBool, bool>(s, s.flip() ? "true" : "false", s.flip() ? "true" : "false", "ExtractBool");
}
// Many copies of one object, alive at the same time or one after another.
template <class F, class A> static void crowd(Src &s, size_t n, const A &x, const A &y, const char *what) {
  F a(x), b(y);
  const std::string ta(a.data(), a.size()), tb(b.data(), b.size());
  auto is = [&](const F &f, const std::string &t, const char *when, size_t i) {
    if (f.size() != t.size() || memcmp(f.data(), t.data(), t.size() + 1) != 0)
      fail(std::string(what) + " " + show(ta) + ", " + oracle::dec(n) + " copies: copy " + oracle::dec(i) + " shows " + show(std::string(f.data(), f.size())) + " " + when);
  };
  u64 keep = s.draw(n);
  {
    std::vector<F> v(n, a);
    a = b;
    for (size_t i = 0; i < n; i++) is(v[i], ta, "after its source changed", i);
    for (size_t i = 0; i < n; i += 2) v[i] = b;
    for (size_t i = 0; i < n; i++) is(v[i], i % 2 ? ta : tb, "after every other one changed", i);
    v[keep] = F(x);
    F k(v[keep]), e(std::move(v[keep]));
    v.clear(); v.shrink_to_fit();
    is(k, ta, "after the others are gone", keep); is(e, ta, "after the others are gone", keep);
  }
  {
    std::unique_ptr<F> p(new F(x));
    for (size_t i = 0; i < n; i++) { std::unique_ptr<F> q(new F(*p)); p = std::move(q); }
    is(*p, ta, "at the end of a chain of copies", n);
    F r(b);
    for (size_t i = 0; i < n; i++) { if (i % 2) r = *p; else { F t(r); r = t; } }
    is(r, ta, "after many assignments", n);
  }
  {
    std::vector<F> w;
    for (size_t i = 0; i < n; i++) w.push_back(i % 3 ? b : F(x));
    for (size_t i = 0; i < n; i++) is(w[i], i % 3 ? tb : ta, "in a vector that grew", i);
    while (w.size() > 7) { w.erase(w.begin(), w.begin() + long(w.size() / 2)); }
    for (size_t i = 0; i < w.size(); i++) is(w[i], (n - w.size() + i) % 3 ? tb : ta, "in a vector that shrank", i);
  }
}
template <class X, class T> static void extractors_crowd(size_t n, const std::string &x, const std::string &y, const char *what) {
  X a(x), b(y);
  const T tx = T(a), ty = T(b);
  std::vector<X> v(n, a);
  a = b;
  for (size_t i = 0; i < n; i += 2) v[i] = a;
  for (size_t i = 0; i < n; i++) if (!(T(v[i]) == (i % 2 ? tx : ty))) fail(std::string(what) + ", " + oracle::dec(n) + " copies of one from " + show(x) + ": another value");
  X k(v[n / 2 | 1]);
  v.clear(); v.shrink_to_fit();
  CHECK(T(k) == tx, std::string(what) + ": another value when the other copies are gone");
}
static const size_t CROWDS[] = {127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 65539, 200000};
SWEEP(crowds, 20 * 8) {
  u64 i = s.draw(20 * 8);
  size_t n = CROWDS[i / 8];
  switch (i % 8) {
    case 0: crowd<lexi::FormatInt>(s, n, -1234567890123456789LL, 7LL, "FormatInt"); break;
    case 1: crowd<lexi::FormatFloat>(s, n, -1.2345678901234567e-300, 0.5, "FormatFloat"); break;
    case 2: crowd<lexi::FormatChar>(s, n, 'x', '\0', "FormatChar"); break;
    case 3: crowd<lexi::FormatBool>(s, n, true, false, "FormatBool"); break;
    case 4: crowd<lexi::FormatNull>(s, n, nullptr, nullptr, "FormatNull"); break;
    case 5: crowd<lexi::FormatEnum>(s, n, E64(18446744073709551615ULL), E64(3), "FormatEnum"); break;
    case 6:
      extractors_crowd<lexi::ExtractInt, long long>(n, "-9007199254740993", "12", "ExtractInt");
      extractors_crowd<lexi::ExtractFloat, double>(n, "-90071992547409.9312345e-12345678901234567890123456789", "1.5", "ExtractFloat");
      extractors_crowd<lexi::ExtractFloat, float>(n, "3.4", "1.5e3", "ExtractFloat");
      break;
    default:
      extractors_crowd<lexi::ExtractChar, char>(n, "abc", "d", "ExtractChar");
      extractors_crowd<lexi::ExtractBool, bool>(n, "true", "false", "ExtractBool");
  }
  s.enumerated(1); s.evaluated(n - 1);
}
