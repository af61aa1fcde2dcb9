// Shared helpers of the native harnesses (replay search and bounded stand-ins).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <chrono>
#include <random>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <functional>
#include <Eigen/Core>

struct H {
  std::mt19937_64 rng;
  double budget;
  std::chrono::steady_clock::time_point t0;
  unsigned long evals = 0;
  std::set<uint64_t> distinct;
  int fails = 0;
  std::map<std::string, int> bykey;
  int max_fail = 5;
  H(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
    budget = argc > 2 ? atof(argv[2]) : 10;
    rng.seed(seed * 7919 + 13);
    t0 = std::chrono::steady_clock::now();
  }
  double el() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  bool more(double frac = 1.0) const { return el() < budget * frac && fails < max_fail; }
  uint64_t u(uint64_t n) { return n ? rng() % n : 0; }
  int i(int a, int b) { return a + int(u(uint64_t(b - a + 1))); }
  double r(double a, double b) { return a + (b - a) * (double(rng() >> 11) * (1.0 / 9007199254740992.0)); }
  bool coin(double p = 0.5) { return r(0, 1) < p; }
  void eval(uint64_t h) { evals++; if (distinct.size() < 2000000) distinct.insert(h); }
  void caze(const std::string& s) { printf("CASE %s\n", s.c_str()); }
  void sample(const std::string& s) { static int n = 0; if (n++ < 4) printf("SAMPLE %s\n", s.c_str()); }
  void fail(const std::string& key, const std::string& d) {
    fails++;
    if (bykey[key]++ > 1) return;
    std::string o;
    for (char c : d) { if (c == '\n') o += "\\n"; else o += c; }
    printf("FAIL key=%s :: %s\n", key.c_str(), o.c_str());
  }
  int done(const char* rule) {
    printf("RULE %s\n", rule);
    printf("STAT evals=%lu distinct=%zu\n", evals, distinct.size());
    fflush(stdout);
    _Exit(0);
  }
};
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline uint64_t hd(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
struct S {
  std::ostringstream o;
  S() { o << std::setprecision(17); }
  template <class T> S& operator<<(const T& t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
};
inline std::string vs(const Eigen::Vector4d& v) { S s; s << "(" << v[0] << "," << v[1] << "," << v[2] << "," << v[3] << ")"; return s; }
using V4 = Eigen::Vector4d;
// point clouds of assorted shapes
inline std::vector<V4> gen_cloud(H& h, int n, int shape = -1, double scale = -1) {
  if (shape < 0) shape = h.i(0, 7);
  if (scale < 0) { const double sc[] = {1.0, 10.0, 0.1, 100.0}; scale = sc[h.u(4)]; }
  std::vector<V4> p(n);
  for (int k = 0; k < n; k++) {
    double x = h.r(-1, 1), y = h.r(-1, 1), z = h.r(-1, 1);
    switch (shape) {
      case 0: break;
      case 1: z = 0; break;
      case 2: y = 0.5 * x; z = -x; break;
      case 3: x = h.i(-2, 2); y = h.i(-2, 2); z = h.i(-2, 2); break;          // lattice, many ties
      case 4: if (k % 2 && k) { x = p[k - 1][0] / scale; y = p[k - 1][1] / scale; z = p[k - 1][2] / scale; } break;  // duplicates
      case 5: x = 0.25; y = -0.25; z = 0.75; break;                         // all equal
      case 6: if (h.coin(0.1)) { x *= 50; y *= 50; } break;                 // outliers
      case 7: x = std::round(x * 4) / 4; y = 0; z = 0; break;
    }
    p[k] = V4(x * scale, y * scale, z * scale, 1.0);
  }
  return p;
}
