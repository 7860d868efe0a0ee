// Locales and rounding modes to be in force while calls are made.
#pragma once
#include "calls.hpp"
#include <cfenv>
#include <clocale>
#include <locale>
#include <map>

namespace locales {
using namespace pbt;
// Locales: compiled into LOCPATH by the check, and C++ locales of our own.
struct Punct : std::numpunct<char> {
  char point, sep; std::string group;
  Punct(char p, char s, std::string g) : point(p), sep(s), group(std::move(g)) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return group; }
  std::string do_truename() const override { return "oui"; }
  std::string do_falsename() const override { return "non"; }
};
// Characters classified at odds with the C locale: k chooses what is moved where.
struct Odd : std::ctype<char> {
  mask table_[table_size];
  static const mask *fill(mask *m, u64 k) {
    std::copy(classic_table(), classic_table() + table_size, m);
    static const mask KIND[] = {space, digit, alpha, upper, punct, xdigit, cntrl, print};
    if (k & 1) for (int i = 128; i < 256; i++) m[i] |= KIND[(k >> 1) % 8];
    else {
      u64 r = k * 0x9E3779B97F4A7C15ULL;
      for (int i = 0; i < 24; i++) { r ^= r >> 29; r *= 0xBF58476D1CE4E5B9ULL; size_t at = r % 256; mask b = KIND[r >> 32 & 7]; if (r >> 40 & 1) m[at] |= b; else m[at] &= mask(~b); }
      m['_'] |= KIND[(k >> 1) % 8];
    }
    return m;
  }
  explicit Odd(u64 k) : std::ctype<char>(fill(table_, k)) {}
  char do_toupper(char c) const override { return c == 'i' ? char(0xdd) : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { return c == 'I' ? char(0xfd) : std::ctype<char>::do_tolower(c); }
};
inline const std::vector<std::string> &names() {
  static std::vector<std::string> v = [] {
    std::vector<std::string> o;
    std::string l = getenv("C24_LOCALES") ? getenv("C24_LOCALES") : "";
    for (size_t i = 0; i < l.size();) { size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size(); if (j > i) o.push_back(l.substr(i, j - i)); i = j + 1; }
    o.push_back("C.utf8"); o.push_back("POSIX");
    std::vector<std::string> usable;
    for (auto &n : o) if (setlocale(LC_ALL, n.c_str())) usable.push_back(n);
    setlocale(LC_ALL, "C");
    return usable;
  }();
  return v;
}
// Puts a locale in force for as long as it lives.
inline std::string s_name(u64 which) { return which & 1 ? names()[which / 2 % names().size()] : std::string("C"); }
class Scope {
  std::locale old_cpp; locale_t thread = nullptr, old_thread = nullptr;
public:
  std::string what;
  Scope(u64 how, u64 which, u64 rounding) {
    const std::string &n = names()[which % names().size()];
    static const int CATS[] = {LC_ALL, LC_NUMERIC, LC_CTYPE, LC_COLLATE, LC_MONETARY};
    switch (how % 6) {
      case 0: { int c = CATS[which / 64 % 5]; setlocale(c, n.c_str()); what = "setlocale(" + n + ")"; break; }
      case 1: std::locale::global(std::locale(n.c_str())); what = "std::locale::global(" + n + ")"; break;
      case 2: {
        static const Punct P[] = {{',', '.', "\3"}, {'/', '_', "\1"}, {'.', ',', "\3\2"}, {'1', '0', "\2"}, {'e', '-', "\4"}};
        const Punct &p = P[which % 5];
        std::locale::global(std::locale(std::locale::classic(), new Punct(p.point, p.sep, p.group)));
        what = std::string("a global C++ locale with radix '") + p.point + "'";
        break;
      }
      case 3: {
        static std::map<std::string, locale_t> made;
        locale_t &l = made[n];
        if (!l) l = newlocale(LC_ALL_MASK, n.c_str(), nullptr);
        thread = l;
        if (thread) old_thread = uselocale(thread);
        what = "uselocale(" + n + ")";
        break;
      }
      case 4: std::locale::global(std::locale(std::locale(s_name(which).c_str()), new Odd(which / 2))); what = "a global C++ locale with a character classification of its own"; break;
      default: setlocale(LC_ALL, n.c_str()); std::locale::global(std::locale(std::locale(n.c_str()), new Punct(',', ' ', "\3"))); what = "setlocale and a C++ locale over " + n;
    }
    static const int R[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    if (rounding) { fesetround(R[rounding % 4]); what += rounding % 4 == 1 ? ", rounding up" : rounding % 4 == 2 ? ", rounding down" : ", rounding to zero"; }
  }
  ~Scope() {
    fesetround(FE_TONEAREST);
    if (old_thread) uselocale(old_thread);
    std::locale::global(old_cpp);
    setlocale(LC_ALL, "C");
  }
};
}  // namespace locales
