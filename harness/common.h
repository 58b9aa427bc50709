// Shared helpers of the conformance drivers: token input, JSON output.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace verif {
constexpr int64_t kSentinel = int64_t{1} << 30;

struct Num {
  int64_t n = 0;
  bool exact = true;
  bool nan = false;
};
// Value in units of `scale` (mul/div), rounded to the nearest integer.
inline Num ToInt(double v, double mul, double div) {
  Num r;
  if (std::isnan(v)) {
    r.n = -kSentinel; r.exact = false; r.nan = true;
    return r;
  }
  const double x = v * div / mul;
  if (!(std::fabs(x) < static_cast<double>(kSentinel))) {
    r.n = x > 0 ? kSentinel : -kSentinel; r.exact = false;
    return r;
  }
  r.n = std::llround(x);
  r.exact = static_cast<double>(r.n) == x;
  return r;
}
struct Scale {
  double mul = 1, div = 1;
  float real(int64_t n) const { return static_cast<float>(n * mul / div); }
  Num of(double v) const { return ToInt(v, mul, div); }
};
// Is v a whole multiple of unit up to float precision?
inline bool OnGrid(float v, float unit) {
  if (!(unit > 0)) return true;
  if (!std::isfinite(v)) return false;
  const double k = std::round(static_cast<double>(v) / unit);
  return std::fabs(static_cast<double>(v) - k * static_cast<double>(unit)) <=
         std::fabs(static_cast<double>(v)) * 0x1p-22;
}
// A float as exact [mantissa, exponent]; NaN and infinities get exponent 2^20.
inline std::string ME(float v) {
  if (!std::isfinite(v)) return std::isnan(v) ? "[0,1048576]" : v > 0 ? "[1,1048576]" : "[-1,1048576]";
  if (v == 0) return "[0,0]";
  int e;
  const double m = std::frexp(static_cast<double>(v), &e);
  long long n = static_cast<long long>(std::ldexp(m, 24));
  e -= 24;
  while (n % 2 == 0) { n /= 2; ++e; }
  return "[" + std::to_string(n) + "," + std::to_string(e) + "]";
}
inline const char* B(bool b) { return b ? "true" : "false"; }
inline uint32_t Bits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
inline std::string Esc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
// 30-bit digest of a byte string (FNV-1a folded), for bit-exact comparisons.
struct Digest {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  }
  void f(float v) { if (std::isnan(v)) { i(0x7fc00000); return; } if (v == 0) v = 0; uint32_t b = Bits(v); add(&b, 4); }
  void i(int64_t v) { add(&v, 8); }
  void s(const std::string& v) { i(v.size()); add(v.data(), v.size()); }
  int get() const { return static_cast<int>((h ^ (h >> 30) ^ (h >> 60)) & 0x3fffffff); }
};
// Driver main loop: reads cases "case <id>" ... "end", calls run(id, tokens
// stream), which prints one JSON line; prints are flushed case by case so that
// a crash or hang identifies the case.  Usage: driver FILE [first case index].
template <typename F>
int Main(int argc, char** argv, F run) {
  if (argc < 2) return 2;
  std::ifstream in(argv[1]);
  const long first = argc > 2 ? std::atol(argv[2]) : 0;
  std::string line, id, body;
  long idx = -1;
  bool inside = false;
  while (std::getline(in, line)) {
    if (line.rfind("case ", 0) == 0) {
      id = line.substr(5); body.clear(); inside = true; ++idx;
    } else if (line == "end" && inside) {
      inside = false;
      if (idx < first) continue;
      std::printf("@%ld\n", idx);
      std::fflush(stdout);
      alarm(20);
      std::istringstream is(body);
      const std::string out = run(id, is);
      alarm(0);
      std::printf("=%s\n", out.c_str());
      std::fflush(stdout);
    } else if (inside) {
      body += line; body += '\n';
    }
  }
  return 0;
}
}  // namespace verif
#endif
