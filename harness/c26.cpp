// C26: a call that runs out of memory throws std::bad_alloc and leaves no trace.
#include "alloc.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include <clocale>
#include <functional>
#include <ios>
#include <lexi/lexi.hpp>
#include <new>
#include <stdexcept>
using namespace pbt;

enum class ES : signed char {}; enum class EU : unsigned long long {};
struct Derived : std::string { using std::string::string; Derived(const std::string &s) : std::string(s) {} };

// What a call came to: made without memory of its own inside the window.
struct Result {
  enum { NOTHING, TEXT, NUMBER, BAD_ALLOC, RUNTIME, OTHER } kind = NOTHING;
  std::string text;
  long double number = 0;
  long long whole = 0;
  void put(std::string &&t) { kind = TEXT; text = std::move(t); }
  template <class T> void num(T v) { kind = NUMBER; number = (long double)v; whole = v == v && std::fabs((long double)v) < 9e18L ? (long long)v : 0; }
  bool same(const Result &o) const {
    if (kind != o.kind) return false;
    if (kind == TEXT) return text == o.text;
    if (kind == NUMBER) return whole == o.whole && (number == o.number || (number != number && o.number != o.number));
    return true;
  }
  std::string str() const {
    switch (kind) {
      case TEXT: return show(text, 120);
      case NUMBER: { char b[60]; snprintf(b, sizeof b, "%.21Lg", number); return b; }
      case BAD_ALLOC: return "std::bad_alloc";
      case RUNTIME: return "std::runtime_error";
      case OTHER: return "another exception";
      default: return "nothing";
    }
  }
};
using Call = std::function<void(Result &)>;

// Runs the call with the k-th request refused (-1: none).
static Result attempt(const Call &f, long k, bool persistent, alloc::State &st) {
  Result r;
  alloc::start(k, persistent);
  try {
    f(r);
  } catch (const std::bad_alloc &) {
    r.kind = Result::BAD_ALLOC;
  } catch (const std::runtime_error &) {
    r.kind = Result::RUNTIME;
  } catch (...) {
    r.kind = Result::OTHER;
  }
  if (r.kind != Result::TEXT) { std::string none; r.text.swap(none); }
  st = alloc::stop();
  return r;
}
static long owned(const Result &r) { return r.text.capacity() > 15 ? 1 : 0; }    // blocks the result holds
static void no_faults(const std::string &what, const Call &f, const Result &want) {
  alloc::State st;
  Result r = attempt(f, -1, false, st);
  CHECK(r.same(want), what + " gives " + want.str() + " at first and then " + r.str());
  CHECK(st.blocks == owned(r), what + " keeps " + oracle::dec_signed(st.blocks - owned(r)) + " blocks of memory");
}
// The whole property for one call; unchanged: whether the arguments and other objects are as before.
static void one(Src &s, const std::string &what, const Call &f, const std::function<bool()> &unchanged) {
  alloc::State st;
  Result want = attempt(f, -1, false, st);
  want = attempt(f, -1, false, st);                     // what is set up once is set up now
  CHECK(want.kind != Result::OTHER && want.kind != Result::BAD_ALLOC, what + " throws " + want.str() + " with all memory");
  CHECK(st.blocks == owned(want), what + " keeps " + oracle::dec_signed(st.blocks - owned(want)) + " blocks of memory");
  long n = st.requests;
  if (n) s.cls("asks for memory"); else s.cls("asks for none");
  if (n > 1) s.cls("asks for memory repeatedly");
  u64 done = 0;
  for (long k = 0; k < n && k < 40; k++)
    for (int p = 0; p < 2; p++) {
      Result r = attempt(f, k, p, st);
      done++;
      std::string w = what + " with request " + oracle::dec_signed(k) + " of " + oracle::dec_signed(n) + (p ? " and all later ones" : "") + " for memory refused";
      CHECK(r.kind == Result::BAD_ALLOC || r.same(want), w + " gives " + r.str() + ", not std::bad_alloc" + (want.kind == Result::TEXT || want.kind == Result::NUMBER ? " or " + want.str() : ""));
      CHECK(st.blocks == owned(r), w + " keeps " + oracle::dec_signed(st.blocks - owned(r)) + " blocks of memory");
      CHECK(unchanged(), w + " changes its arguments or another object");
      if (r.kind == Result::BAD_ALLOC) s.cls("std::bad_alloc");
    }
  s.evaluated(done);
  no_faults(what + " after failures", f, want);
}

template <class T> static Call format_call(T v, u64 how) {
  switch (how) {
    case 0: return [v](Result &r) { r.put(lexi::lexi(v)); };
    case 1: return [v](Result &r) { r.put(lexi::string(v)); };
    case 2: return [v](Result &r) { r.put(lexi::escape(v)); };
    case 3: return [v](Result &r) { r.put(lexi::jsonify(v)); };
    case 4: return [v](Result &r) { auto f = lexi::Format()(v); auto g = f; r.put(static_cast<std::string>(g)); };
    default: return [v](Result &r) { auto f = lexi::Format()(v); r.put(f.string()); };
  }
}
static Call format_any(u64 type, u64 v, u64 how) {
  double d = gen::from_bits(v);
  switch (type) {
    case 0: return format_call((signed char)v, how);
    case 1: return format_call((unsigned char)v, how);
    case 2: return format_call((short)v, how);
    case 3: return format_call((unsigned short)v, how);
    case 4: return format_call((int)v, how);
    case 5: return format_call((unsigned)v, how);
    case 6: return format_call((long)v, how);
    case 7: return format_call((unsigned long)v, how);
    case 8: return format_call((long long)v, how);
    case 9: return format_call((unsigned long long)v, how);
    case 10: return format_call(d, how);
    case 11: return format_call(float(d), how);
    case 12: return format_call((long double)d, how);
    case 13: return format_call(char(v), how);
    case 14: return v & 1 ? format_call(true, how) : format_call(false, how);
    case 15: return format_call(nullptr, how);
    case 16: return format_call(ES((signed char)v), how);
    case 17: return format_call(EU(v), how);
    default: return format_call(std::streampos(std::streamoff(v)), how);
  }
}
template <class T> struct Put { static void put(Result &r, T v) { r.num(v); } };
template <> struct Put<std::nullptr_t> { static void put(Result &r, std::nullptr_t v) { r.num(v == nullptr); } };
template <> struct Put<std::streampos> { static void put(Result &r, std::streampos v) { r.num((long long)std::streamoff(v)); } };
template <> struct Put<ES> { static void put(Result &r, ES v) { r.num(int(v)); } };
template <> struct Put<EU> { static void put(Result &r, EU v) { r.num((unsigned long long)v); } };
template <class T> static Call extract_call(const std::string &t, u64 how) {
  const std::string *p = &t;
  switch (how) {
    case 0: return [p](Result &r) { Put<T>::put(r, lexi::lexi<T>(*p)); };
    case 1: return [p](Result &r) { Put<T>::put(r, lexi::lexi<T>(p->c_str())); };
    default: return [p](Result &r) { Put<T>::put(r, lexi::Extract<T>()(*p)); };
  }
}
static Call extract_any(u64 type, const std::string &t, u64 how) {
  switch (type) {
    case 0: return extract_call<signed char>(t, how);
    case 1: return extract_call<unsigned char>(t, how);
    case 2: return extract_call<short>(t, how);
    case 3: return extract_call<unsigned short>(t, how);
    case 4: return extract_call<int>(t, how);
    case 5: return extract_call<unsigned>(t, how);
    case 6: return extract_call<long>(t, how);
    case 7: return extract_call<unsigned long>(t, how);
    case 8: return extract_call<long long>(t, how);
    case 9: return extract_call<unsigned long long>(t, how);
    case 10: return extract_call<double>(t, how);
    case 11: return extract_call<float>(t, how);
    case 12: return extract_call<long double>(t, how);
    case 13: return extract_call<char>(t, how);
    case 14: return extract_call<bool>(t, how);
    case 15: return extract_call<std::nullptr_t>(t, how);
    case 16: return extract_call<ES>(t, how);
    case 17: return extract_call<EU>(t, how);
    default: return extract_call<std::streampos>(t, how);
  }
}
static std::string numeral(Src &s) {
  std::string t;
  switch (s.draw(8)) {
    case 0: t = oracle::dec_signed(i64(gen::uinteger(s))); break;
    case 1: { char b[64]; snprintf(b, 64, "%.*g", int(1 + s.draw(20)), gen::finite(s)); t = b; break; }
    case 2: { static const char *W[] = {"true", "false", "null", "NaN", "Infinity", "-Infinity", "", "True", "x", "1e999", "1e-999"}; t = s.pick(W); break; }
    case 3: for (u64 n = gen::length(s); n; n--) t += char('0' + s.draw(10)); break;
    case 4: t = gen::bytes(s); break;
    case 5: t = std::string(gen::length(s), s.flip() ? '0' : ' ') + oracle::dec(gen::uinteger(s)) + "." + oracle::dec(gen::uinteger(s)); break;
    case 6: t = oracle::dec(gen::uinteger(s)) + "." + std::string(gen::length(s), char('0' + s.draw(10))); break;
    default: t = oracle::dec(gen::uinteger(s)) + gen::bytes(s);
  }
  return t;
}
PROP_NOFUZZ(formatting, 2000000, 20000000) {
  u64 type = s.draw(19), v = (type >= 10 && type <= 12) ? gen::to_bits(gen::anydouble(s)) : s.flip() ? gen::uinteger(s) : 0 - gen::uinteger(s), how = s.draw(6);
  std::string what = "formatting type " + oracle::dec(type) + " from bits " + oracle::dec(v) + " by way " + oracle::dec(how);
  s.desc([&] { return what; });
  s.nontrivial(mix(v) ^ type * 31 ^ how);
  one(s, what, format_any(type, v, how), [] { return true; });
}
PROP_NOFUZZ(extracting, 3000000, 20000000) {
  u64 type = s.draw(2) ? s.draw(19) : 10 + s.draw(3), how = s.draw(3);
  std::string t = numeral(s), copy = t;
  std::string what = "extracting type " + oracle::dec(type) + " from " + show(t, 100) + " by way " + oracle::dec(how);
  s.desc([&] { return what; });
  s.nontrivial(hash_str(t, type * 31 + how));
  const char *p = t.data();
  one(s, what, extract_any(type, t, how), [&] { return t == copy && t.data() == p; });
}
PROP_NOFUZZ(texts, 2500000, 20000000) {
  std::string t = gen::bytes(s), copy = t;
  Derived d(t);
  std::vector<char> m(t.c_str(), t.c_str() + strlen(t.c_str()) + 1);
  const char *c = m.data();
  u64 how = s.draw(12);
  Call f;
  switch (how) {
    case 0: f = [&](Result &r) { r.put(lexi::escape(t)); }; break;
    case 1: f = [&](Result &r) { r.put(lexi::jsonify(t)); }; break;
    case 2: f = [&](Result &r) { r.put(lexi::lexi(t)); }; break;
    case 3: f = [&](Result &r) { r.put(lexi::string(t)); }; break;
    case 4: f = [&](Result &r) { r.put(lexi::escape(c)); }; break;
    case 5: f = [&](Result &r) { r.put(lexi::jsonify(c)); }; break;
    case 6: f = [&](Result &r) { r.put(lexi::lexi(c)); }; break;
    case 7: f = [&](Result &r) { r.put(lexi::string(c)); }; break;
    case 8: f = [&](Result &r) { r.put(lexi::escape(d)); }; break;
    case 9: f = [&](Result &r) { r.put(lexi::jsonify(d)); }; break;
    case 10: f = [&](Result &r) { r.put(lexi::FormatChar(t.empty() ? 'x' : t[0]).escape()); }; break;
    default: f = [&](Result &r) { r.put(lexi::FormatChar(t.empty() ? 'x' : t[0]).jsonify()); };
  }
  std::string what = "text function " + oracle::dec(how) + " of " + show(t, 100);
  s.desc([&] { return what; });
  s.nontrivial(hash_str(t, how));
  one(s, what, f, [&] { return t == copy && d == copy && !memcmp(m.data(), copy.c_str(), m.size()); });
}
// Objects: made, copied, assigned, viewed while memory is short.  Those that exist keep their values.
PROP_NOFUZZ(objects, 2000000, 15000000) {
  std::string ta = numeral(s), tb = numeral(s), ca = ta, cb = tb;
  u64 va = gen::to_bits(gen::anydouble(s)), vi = gen::uinteger(s);
  lexi::ExtractFloat a(ta), b(tb);
  lexi::FormatFloat ff(gen::from_bits(va));
  lexi::FormatInt fi((unsigned long long)vi);
  long double xa = static_cast<long double>(a), xb = static_cast<long double>(b);
  std::string tf = ff.string(), ti = fi.string();
  auto eq = [](long double x, long double y) { return x == y || (x != x && y != y); };
  u64 how = s.draw(9);
  Call f;
  bool assigns = false;
  switch (how) {
    case 0: f = [&](Result &r) { lexi::ExtractFloat c(a); r.num(static_cast<double>(c)); }; break;
    case 1: f = [&](Result &r) { lexi::ExtractFloat c(ta); r.num(static_cast<float>(c)); }; break;
    case 2: f = [&](Result &r) { r.num(static_cast<long double>(a)); }; break;
    case 3: assigns = true; f = [&](Result &r) { lexi::ExtractFloat keep(a); keep = b; r.num(static_cast<long double>(keep)); }; break;
    case 4: f = [&](Result &r) { lexi::FormatFloat c(ff); c = lexi::FormatFloat(c); r.put(c.jsonify()); }; break;
    case 5: f = [&](Result &r) { lexi::FormatInt c(fi); c = lexi::FormatInt(c); r.put(c.escape()); }; break;
    case 6: f = [&](Result &r) { lexi::ExtractInt c(ta); r.num(static_cast<long long>(c)); }; break;
    case 7: f = [&](Result &r) { r.put(static_cast<std::string>(ff)); }; break;
    default: f = [&](Result &r) { lexi::ExtractEnum c(ta); r.num(int(static_cast<ES>(c))); };
  }
  (void)assigns;
  std::string what = "object operation " + oracle::dec(how) + " with " + show(ta, 80) + " and " + show(tb, 80);
  s.desc([&] { return what; });
  s.nontrivial(hash_str(ta, hash_str(tb, how)));
  one(s, what, f, [&] { return ta == ca && tb == cb && ff.string() == tf && fi.string() == ti && eq(static_cast<long double>(a), xa) && eq(static_cast<long double>(b), xb); });
  // an assignment that fails leaves the object as it was
  for (long k = 0; k < 3; k++) {
    lexi::ExtractFloat c(a);
    alloc::start(k, true);
    bool threw = false;
    try { c = b; } catch (const std::bad_alloc &) { threw = true; }
    alloc::stop();
    long double x = static_cast<long double>(c);
    CHECK(eq(x, threw ? xa : xb), "an extractor assigned " + show(tb, 80) + (threw ? ", which failed for lack of memory," : "") + " no longer gives the value of " + show(threw ? ta : tb, 80));
  }
}
// Extracting where the radix of the locale is not "."
PROP_NOFUZZ(other_radix, 1500000, 5000000) {
  static std::vector<std::string> names = [] {
    std::vector<std::string> o;
    std::string l = getenv("C24_LOCALES") ? getenv("C24_LOCALES") : "";
    for (size_t i = 0; i < l.size();) { size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size(); if (j > i) o.push_back(l.substr(i, j - i)); i = j + 1; }
    return o;
  }();
  u64 which = s.draw(64), type = 10 + s.draw(3), how = s.draw(3);
  std::string t = numeral(s), copy = t;
  if (names.empty()) return;
  const std::string &n = names[which % names.size()];
  if (!setlocale(LC_NUMERIC, n.c_str())) return;
  struct Back { ~Back() { setlocale(LC_ALL, "C"); } } back;
  std::string what = "with the locale " + n + ", extracting type " + oracle::dec(type) + " from " + show(t, 100) + " by way " + oracle::dec(how);
  s.desc([&] { return what; });
  s.nontrivial(hash_str(t, type * 31 + how + which % names.size() * 1000));
  one(s, what, extract_any(type, t, how), [&] { return t == copy; });
}
// Every length: growth of a result asks for memory again and again.
SWEEP(lengths, 700) {
  u64 n = s.draw(700);
  u64 len = n < 400 ? n : (n - 400) * 37;
  for (int c : {97, 34, 10, 0, 1, 0x80, 47}) {
    std::string t(len, char(c));
    const char *p = t.c_str();
    std::string what = "a text of " + oracle::dec(len) + " times " + oracle::dec(u64(c));
    auto un = [&] { return t == std::string(len, char(c)) && t.c_str() == p; };
    one(s, "escape of " + what, [&](Result &r) { r.put(lexi::escape(t)); }, un);
    one(s, "jsonify of " + what, [&](Result &r) { r.put(lexi::jsonify(t)); }, un);
    one(s, "string of " + what, [&](Result &r) { r.put(lexi::string(t)); }, un);
    one(s, "jsonify of C string " + what, [&](Result &r) { r.put(lexi::jsonify(p)); }, un);
    one(s, "double from " + what, [&](Result &r) { r.num(lexi::lexi<double>(t)); }, un);
    one(s, "long from " + what, [&](Result &r) { r.num(lexi::lexi<long>(p)); }, un);
    one(s, "bool from " + what, [&](Result &r) { r.num(lexi::lexi<bool>(t)); }, un);
  }
  s.enumerated(49); s.evaluated(48);
}
