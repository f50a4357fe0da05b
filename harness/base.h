// Shared utilities of the runtime monitors.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
typedef __int128 I;
typedef std::vector<I> Vec;
using std::string;
using std::vector;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [a,b]
  long in(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
  template <class T> const T &pick(const vector<T> &v) { return v[in(0, (long)v.size() - 1)]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567ull) * 0xC2B2AE3D27D4EB4Full);
  r.next();
  return r.next();
}
inline uint64_t hstr(const string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

inline string istr(I v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  string r;
  while (u) { r += (char)('0' + (int)(u % 10)); u /= 10; }
  if (neg) r += '-';
  std::reverse(r.begin(), r.end());
  return r;
}
inline string vstr(const Vec &v) {
  string r = "(";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + istr(v[i]);
  return r + ")";
}
struct Overflow {};
struct Inconclusive { string why; };
struct Violation { string what; };
inline I addx(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
inline I mulx(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
inline I fdiv(I a, I b) { // floor, b > 0 or < 0
  I q = a / b, r = a % b;
  if (r != 0 && ((r < 0) != (b < 0))) --q;
  return q;
}
inline I cdiv(I a, I b) { return -fdiv(-a, b); }
inline I fmodx(I a, I b) { return a - fdiv(a, b) * b; }
inline string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
