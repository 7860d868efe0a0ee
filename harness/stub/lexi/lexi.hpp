// Accepts every argument: a generated program that does not compile with this
// header either is a mistake of the generator, not of the library.
#pragma once
#include <cstddef>
#include <ios>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace lexi {
template <class T> std::string lexi(const T &) { return ""; }
template <class T> std::string string(const T &) { return ""; }
template <class T> std::string escape(const T &) { return ""; }
template <class T> std::string jsonify(const T &) { return ""; }
template <class T> T lexi(const std::string &) { return T(); }
template <class T> T lexi(const char *) { return T(); }
struct Any {
  std::string string() const { return ""; }
  std::string escape() const { return ""; }
  std::string jsonify() const { return ""; }
  const char *c_str() const { return ""; }
  const char *data() const { return ""; }
  size_t size() const { return 0; }
  size_t length() const { return 0; }
  explicit operator std::string() const { return ""; }
};
struct Format { template <class T> Any operator()(const T &) { return Any(); } };
template <class T> struct Extract { T operator()(const std::string &) { return T(); } };
}
