// Oracles: independent, obviously-correct models of what Lexi promises.
#pragma once
#include "pbt.hpp"
#include <charconv>
#include <cmath>

namespace oracle {
using namespace pbt;

inline std::string dec(u64 v) {                 // naive decimal
  char b[24]; int n = 24;
  do { b[--n] = char('0' + v % 10); v /= 10; } while (v);
  return std::string(b + n, size_t(24 - n));
}
inline std::string dec_signed(i64 v) { return v < 0 ? "-" + dec(u64(0) - u64(v)) : dec(u64(v)); }
template <class T> std::string dec_of(T v) {
  if constexpr (std::is_signed<T>::value) return dec_signed(i64(v)); else return dec(u64(v));
}

// A decimal numeral taken apart: value = (-1)^neg * digits * 10^exp.
struct Decimal { bool neg = false; std::string digits; long exp = 0; };

// Numerals as JavaScript writes them, with at least one digit on both sides of
// a radix point: -? int (. digits)? (e -? digits)?  False if malformed.
inline bool parse_numeral(const std::string &t, Decimal &d, bool &has_point, bool &has_exp) {
  size_t i = 0;
  d = Decimal(); has_point = has_exp = false;
  auto digit = [&](size_t k) { return k < t.size() && t[k] >= '0' && t[k] <= '9'; };
  if (i < t.size() && t[i] == '-') { d.neg = true; i++; }
  if (!digit(i)) return false;
  if (t[i] == '0' && digit(i + 1)) return false;
  while (digit(i)) d.digits += t[i++];
  if (i < t.size() && t[i] == '.') {
    has_point = true; i++;
    if (!digit(i)) return false;
    while (digit(i)) { d.digits += t[i++]; d.exp--; }
  }
  if (i < t.size() && t[i] == 'e') {
    has_exp = true; i++;
    bool n = false;
    if (i < t.size() && t[i] == '-') { n = true; i++; }
    if (!digit(i)) return false;
    if (t[i] == '0' && digit(i + 1)) return false;
    long e = 0;
    while (digit(i)) { e = e * 10 + (t[i++] - '0'); if (e > 100000) return false; }
    d.exp += n ? -e : e;
  }
  if (i != t.size()) return false;
  size_t z = d.digits.find_first_not_of('0');
  if (z == std::string::npos) { d.digits = ""; d.exp = 0; return true; }
  d.digits.erase(0, z);
  while (d.digits.back() == '0') { d.digits.pop_back(); d.exp++; }
  return true;
}

// The text Lexi writes for significant digits and a decimal exponent: the
// JavaScript layout, with ".0" after integral values.
inline std::string layout(const Decimal &d) {
  if (d.digits.empty()) return "0.0";
  std::string o = d.neg ? "-" : "";
  long n = long(d.digits.size()), kk = n + d.exp;       // 10^(kk-1) <= v < 10^kk
  if (kk > 0 && kk <= 21) {
    if (n <= kk) return o + d.digits + std::string(size_t(kk - n), '0') + ".0";
    return o + d.digits.substr(0, size_t(kk)) + "." + d.digits.substr(size_t(kk));
  }
  if (kk > -6 && kk <= 0) return o + "0." + std::string(size_t(-kk), '0') + d.digits;
  o += d.digits[0];
  if (n > 1) o += "." + d.digits.substr(1);
  return o + "e" + dec_signed(kk - 1);
}

// Text to double with the standard library's own (not strtod) parser.
inline bool read_double(const std::string &t, double &v) {
  auto r = std::from_chars(t.data(), t.data() + t.size(), v);
  return r.ec == std::errc() && r.ptr == t.data() + t.size();
}

inline bool must_escape(unsigned char c) {
  bool alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
  return c < 0x7f && !alnum;
}
inline std::string escape(const std::string &t) {
  std::string o;
  for (unsigned char c : t) { if (must_escape(c)) o += '\\'; o += char(c); }
  return o;
}
// The JSON body of a string; hexadecimal digits are compared without case.
inline std::string json_body(const std::string &t) {
  std::string o;
  for (unsigned char c : t) {
    switch (c) {
      case 8: o += "\\b"; break;
      case 9: o += "\\t"; break;
      case 10: o += "\\n"; break;
      case 12: o += "\\f"; break;
      case 13: o += "\\r"; break;
      case 34: o += "\\\""; break;
      case 92: o += "\\\\"; break;
      default:
        if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
  }
  return o;
}
// Strict decoder of a JSON string literal, bytes above 0x7f passed through.
inline bool json_decode(const std::string &t, std::string &out) {
  out.clear();
  if (t.size() < 2 || t.front() != '"' || t.back() != '"') return false;
  size_t end = t.size() - 1;
  for (size_t i = 1; i < end; i++) {
    unsigned char c = static_cast<unsigned char>(t[i]);
    if (c < 0x20 || c == '"') return false;
    if (c != '\\') { out += char(c); continue; }
    if (++i >= end) return false;
    switch (t[i]) {
      case '"': out += '"'; break;
      case '\\': out += '\\'; break;
      case '/': out += '/'; break;
      case 'b': out += '\b'; break;
      case 'f': out += '\f'; break;
      case 'n': out += '\n'; break;
      case 'r': out += '\r'; break;
      case 't': out += '\t'; break;
      case 'u': {
        if (i + 4 >= end) return false;
        unsigned v = 0;
        for (int k = 1; k <= 4; k++) {
          char h = t[i + size_t(k)]; unsigned x;
          if (h >= '0' && h <= '9') x = unsigned(h - '0');
          else if (h >= 'a' && h <= 'f') x = unsigned(h - 'a') + 10;
          else if (h >= 'A' && h <= 'F') x = unsigned(h - 'A') + 10;
          else return false;
          v = v * 16 + x;
        }
        i += 4;
        if (v > 0x7f) return false;             // Lexi never needs those
        out += char(v);
        break;
      }
      default: return false;
    }
  }
  return true;
}
// JSON number grammar of RFC 8259.
inline bool json_number(const std::string &t) {
  size_t i = 0, n = t.size();
  auto dg = [&](size_t k) { return k < n && t[k] >= '0' && t[k] <= '9'; };
  if (i < n && t[i] == '-') i++;
  if (!dg(i)) return false;
  if (t[i] == '0') i++; else while (dg(i)) i++;
  if (i < n && t[i] == '.') { i++; if (!dg(i)) return false; while (dg(i)) i++; }
  if (i < n && (t[i] == 'e' || t[i] == 'E')) {
    i++;
    if (i < n && (t[i] == '+' || t[i] == '-')) i++;
    if (!dg(i)) return false;
    while (dg(i)) i++;
  }
  return i == n;
}

inline std::string showd(double v) {
  char b[96]; u64 u; memcpy(&u, &v, 8);
  snprintf(b, sizeof b, "%.17g (%a, bits %016llx)", v, v, (unsigned long long)u);
  return b;
}

}  // namespace oracle
