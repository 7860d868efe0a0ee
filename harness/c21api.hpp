// What one build of the library offers to the comparison.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace c21 {
struct Fp { uint64_t f; int e; };
struct Op { unsigned kind; uint64_t arg; std::string text; };
struct Api {
  const char *name;
  bool long32;                  // long is taken to have 32 bits
  std::string (*integer)(unsigned kind, uint64_t bits);
  std::string (*floating)(unsigned kind, long double v);
  std::string (*other)(unsigned kind, uint64_t bits);
  std::string (*text)(unsigned kind, const std::string &t);
  std::string (*extract)(unsigned kind, const std::string &t);
  std::string (*buffer)(unsigned kind, uint64_t bits);
  Fp (*decompose)(double v);
  Fp (*product)(Fp a, Fp b);
  Fp (*minus)(Fp a, Fp b);
  Fp (*normalize)(Fp a);
  Fp (*normalize_boundary)(Fp a);
  void (*boundaries)(Fp a, Fp *lo, Fp *hi);
  std::string (*bigint)(const std::vector<Op> &ops);
  unsigned (*classify)(double v);
  double (*power)(int n);
};
}
