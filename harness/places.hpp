// The locales in which numbers may be read: compiled by the check (lib/c24.py), which passes their names.
#pragma once
#include <clocale>
#include <cstdlib>
#include <locale.h>
#include <string>
#include <vector>

namespace places {
struct Place { std::string name; locale_t handle; };
inline const std::vector<Place> &all() {                // the first is the C locale
  static const std::vector<Place> v = [] {
    std::vector<Place> o(1, Place{"C", newlocale(LC_ALL_MASK, "C", nullptr)});
    std::string l = getenv("C24_LOCALES") ? getenv("C24_LOCALES") : "", n;
    for (char c : l + " ") {
      if (c != ' ') { n += c; continue; }
      locale_t h = n.empty() ? nullptr : newlocale(LC_ALL_MASK, n.c_str(), nullptr);
      if (h) o.push_back(Place{n, h});
      n.clear();
    }
    return o;
  }();
  return v;
}
// In force for the thread, or for the process, as long as it lives.
class Under {
  locale_t old = nullptr;
  bool process;
public:
  std::string what;
  Under(uint64_t which, bool whole) : process(whole && which % all().size()) {
    const Place &p = all()[which % all().size()];
    if (which % all().size() == 0) return;
    if (process) { setlocale(LC_ALL, p.name.c_str()); what = " (locale " + p.name + ")"; }
    else { old = uselocale(p.handle); what = " (locale " + p.name + " in the thread)"; }
  }
  Under(const Under &) = delete;
  Under &operator=(const Under &) = delete;
  ~Under() {
    if (old) uselocale(old);
    if (process) setlocale(LC_ALL, "C");
  }
};
}  // namespace places
