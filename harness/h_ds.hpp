// voxel-grid downsampling: input generation and reference grouping shared by C04, C05, C22
#pragma once
#include "common.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <array>
using V4 = Eigen::Vector4d;
using Vox = std::array<long, 3>;
struct DsIn {
  double leaf;
  std::vector<V4> pts;
  std::vector<Vox> vox;      // reference voxel of each point
  std::vector<char> ok;      // inside the supported range
  std::map<Vox, std::vector<size_t>> groups;
  std::string dump(size_t lim = 12) const {
    std::ostringstream o; o << std::setprecision(17) << "leaf=" << leaf << " n=" << pts.size() << " points:";
    for (size_t i = 0; i < pts.size() && i < lim; i++) o << " (" << pts[i][0] << "," << pts[i][1] << "," << pts[i][2] << ")[" << vox[i][0] << "," << vox[i][1] << "," << vox[i][2] << (ok[i] ? "]" : " out]");
    return o.str();
  }
};
// Points sit strictly inside their voxel (fraction in [0.01, 0.99]) or, for power-of-two leaf sizes, exactly on its lower corner, so that the reference voxel does not depend on rounding.
inline DsIn ds_gen(H& h, size_t n, int style, double p_out) {
  DsIn d;
  static const double pow2[] = {0.03125, 0.125, 0.25, 0.5, 1.0, 2.0};
  bool p2 = h.coin(0.5);
  d.leaf = p2 ? pow2[h.u(6)] : std::exp(h.r(-4, 1));
  const long lo = -1048576, hi = 1048575;
  auto extreme = [&]() -> long { switch (h.u(6)) { case 0: return lo; case 1: return hi; case 2: return lo + 1; case 3: return hi - 1; case 4: return h.coin() ? -1 : 0; default: return h.i(-3, 3); } };
  long span = style == 1 ? 1000000 : (style == 2 ? 30 : (style == 3 ? 2 : 6));
  long base[3]; for (int k = 0; k < 3; k++) base[k] = style == 4 ? extreme() : h.i(-20, 20);
  for (size_t i = 0; i < n; i++) {
    Vox v; bool out = h.coin(p_out); V4 p(0, 0, 0, 1);
    for (int k = 0; k < 3; k++) {
      if (style == 5) {           // single-bit differences around a base voxel
        v[k] = base[k]; if (h.coin(0.4)) v[k] = ((base[k] + 1048576) ^ (1l << h.u(21))) - 1048576;
      } else if (style == 4) v[k] = h.coin(0.3) ? extreme() : std::min(hi, std::max(lo, base[k] + h.i(-1, 1)));
      else v[k] = base[k] + h.i(-(int)span, (int)span);
      v[k] = std::min(hi, std::max(lo, v[k]));
    }
    if (out) { int k = h.u(3); v[k] = h.coin() ? lo - 1 - long(h.u(1000)) * h.u(1000) : hi + 1 + long(h.u(1000)) * h.u(1000); if (h.coin(0.3)) v[k] = h.coin() ? lo - 1 : hi + 1; }
    for (int k = 0; k < 3; k++) {
      double f = (p2 && h.coin(0.3)) ? 0.0 : h.r(0.01, 0.99);
      if (p2 && h.coin(0.3)) f = std::floor(f * 16) / 16;
      p[k] = (double(v[k]) + f) * d.leaf;
      if (p[k] == 0 && h.coin()) p[k] = -0.0;
    }
    bool in = true; for (int k = 0; k < 3; k++) in &= v[k] >= lo && v[k] <= hi;
    if (i > 0 && h.coin(0.05)) { size_t j = h.u(i); p = d.pts[j]; v = d.vox[j]; in = d.ok[j]; }   // duplicates
    d.pts.push_back(p); d.vox.push_back(v); d.ok.push_back(in);
    if (in) d.groups[v].push_back(i);
  }
  return d;
}
inline V4 ds_mean(const DsIn& d, const std::vector<size_t>& g) { V4 s = V4::Zero(); for (size_t i : g) s += d.pts[i]; return s / double(g.size()); }
inline double ds_tol(const DsIn& d, const Vox& v) { double m = 1; for (int k = 0; k < 3; k++) m = std::max(m, std::fabs(double(v[k])) + 1); return 1e-10 * m * d.leaf + 1e-12; }
// voxel of an output: means never come within 0.01 cells of an upper face, so values within rounding of a face belong to the cell above it
inline std::vector<Vox> ds_cells(const DsIn& d, const V4& p) {
  Vox v;
  for (int k = 0; k < 3; k++) { double x = p[k] / d.leaf; if (!(std::fabs(x) < 1e15)) return {}; v[k] = (long)std::floor(x + 1e-9 * (std::fabs(x) + 1)); }
  if (d.groups.count(v)) return {v};
  return {};
}
// exact comparison (no splits). returns "" or a description
inline std::string ds_exact(const DsIn& d, const std::vector<V4>& out) {
  std::map<Vox, int> seen; std::ostringstream o; o << std::setprecision(17);
  for (auto& p : out) {
    if (!(p[3] == 1.0)) { o << "output point (" << p.transpose() << ") has homogeneous coordinate " << p[3]; return o.str(); }
    bool hit = false;
    for (auto& v : ds_cells(d, p)) { V4 m = ds_mean(d, d.groups.at(v)); if ((m - p).cwiseAbs().maxCoeff() <= ds_tol(d, v)) { seen[v]++; hit = true; break; } }
    if (!hit) { o << "output point (" << p.transpose() << ") is not the mean of the points of any occupied voxel"; return o.str(); }
  }
  for (auto& s : seen) if (s.second > 1) { o << "voxel " << s.first[0] << "," << s.first[1] << "," << s.first[2] << " is output " << s.second << " times"; return o.str(); }
  for (auto& g : d.groups) if (!seen.count(g.first)) { o << "occupied voxel " << g.first[0] << "," << g.first[1] << "," << g.first[2] << " (" << g.second.size() << " points) has no output"; return o.str(); }
  return "";
}
