// C20: every pixel keeps at most one point that projects to it; searches return the nearest map entries of the window.
#include "common.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/projective_search.hpp>
using namespace small_gicp;
// a planar projection whose image leaves the map
struct Flat { Eigen::Vector2d operator()(const Eigen::Vector3d& p) const { return Eigen::Vector2d(p[0] + 0.5, p[1] + 0.5); } };
template <class PROJ, class BH, class BV>
void one(H& h, bool repeat, bool flat) {
  int n = h.coin(0.1) ? h.i(0, 2) : h.i(1, 60);
  auto raw = gen_cloud(h, n);
  if (flat) for (auto& p : raw) p.head<3>() /= (p.head<3>().cwiseAbs().maxCoeff() + 1e-9) * h.r(0.8, 3.0);
  for (auto& p : raw) if (h.coin(0.1)) { int m = h.i(0, 5); double d = h.r(0.5, 5);
    p = m == 0 ? V4(0, d, 0, 1) : m == 1 ? V4(0, -d, 0, 1) : m == 2 ? V4(0, 0, -d, 1) : m == 3 ? V4(-1e-17, 0, -d, 1) : m == 4 ? V4(1e-9, h.r(-1, 1), -d, 1) : V4(0, 0, 0, 1); }
  int H_ = h.coin(0.3) ? h.i(0, 2) : h.i(0, 12), V_ = h.i(0, 6);
  int w = 2 * H_ + 1 + (h.coin(0.3) ? 0 : h.i(0, 40)), hgt = h.coin(0.3) ? h.i(1, 3) : h.i(1, 30);
  auto pc = std::make_shared<PointCloud>(raw);
  struct Unsafe : UnsafeProjectiveSearch<PointCloud, PROJ, BH, BV> { using UnsafeProjectiveSearch<PointCloud, PROJ, BH, BV>::UnsafeProjectiveSearch; };
  UnsafeProjectiveSearch<PointCloud, PROJ, BH, BV> s(w, hgt, *pc);
  const ProjectiveSearch<PointCloud, PROJ, BH, BV> safe(w, hgt, pc);
  std::string ctx = S() << n << " points, map " << w << "x" << hgt << ", window " << H_ << "/" << V_ << (flat ? " planar " : " equirectangular ") << (repeat ? "repeat " : "clamp ");
  PROJ proj;
  std::vector<int> cu(n), cv(n); std::vector<char> in(n);
  for (int k = 0; k < n; k++) {
    Eigen::Vector2d uv = proj(raw[k].head<3>());
    if (!flat && !(uv[0] >= 0 && uv[0] <= 1 && uv[1] >= 0 && uv[1] <= 1)) { h.fail("range", ctx + "the projection of " + vs(raw[k]) + (S() << " is (" << uv[0] << "," << uv[1] << ")").operator std::string()); return; }
    // the documented equirectangular image coordinates, independently computed
    if (!flat && raw[k].head<3>().norm() > 0.1) {
      Eigen::Vector3d b = raw[k].head<3>(); double lat = -std::atan2(b[1], std::hypot(b[0], b[2])), lon = std::atan2(b[0], b[2]);
      if (std::abs(uv[0] - (lon / (2 * M_PI) + 0.5)) > 1e-6 || std::abs(uv[1] - (lat / M_PI + 0.5)) > 1e-6) { h.fail("projection", ctx + "the projection of " + vs(raw[k]) + (S() << " is (" << uv[0] << "," << uv[1] << ")").operator std::string()); return; }
    }
    cu[k] = uv[0] * w, cv[k] = uv[1] * hgt; in[k] = cu[k] >= 0 && cu[k] < w && cv[k] >= 0 && cv[k] < hgt;
  }
  if (s.index_map.rows() != hgt || s.index_map.cols() != w) { h.fail("shape", ctx + "the index map has the wrong shape"); return; }
  for (int v = 0; v < hgt; v++) for (int u = 0; u < w; u++) {
    uint32_t m = s.index_map(v, u); bool any = false;
    for (int k = 0; k < n; k++) any |= in[k] && cu[k] == u && cv[k] == v;
    if (m == s.invalid_index ? any : !(m < (uint32_t)n && in[m] && cu[m] == u && cv[m] == v)) { h.fail("map", ctx + (S() << "cell (" << u << "," << v << ") holds " << m << (any ? " although points project to it" : " although no point projects to it")).operator std::string()); return; }
    if (safe.search.index_map(v, u) != m) { h.fail("safe", ctx + "the owning search has a different map"); return; }
  }
  s.search_window_h = H_; s.search_window_v = V_;
  for (int t = 0; t < 6; t++) {
    V4 q = (n && h.coin(0.5)) ? raw[h.u(n)] : V4(h.r(-2, 2), h.r(-2, 2), h.r(-2, 2), 1);
    if (!flat) switch (h.i(0, 6)) { case 0: q = V4(h.r(-.01, .01), 0, -h.r(.5, 2), 1); break; case 1: q = V4(0, h.coin() ? 2 : -2, 0, 1); break; case 2: q = V4(h.coin() ? 0.0 : -0.0, 0, -1, 1); break; default: break; }
    else if (h.coin(0.5)) q = V4(h.r(-1.5, 1.5), h.r(-1.5, 1.5), h.r(-1, 1), 1);
    if (flat && repeat) q[0] = h.r(-0.5, 0.5);   // the horizontal coordinate of a query stays in [0,1] when the map wraps
    Eigen::Vector2d uv = proj(q.head<3>()); int qu = uv[0] * w, qv = uv[1] * hgt;
    std::set<int> win;
    for (int v = qv - V_; v <= qv + V_; v++) for (int u = qu - H_; u <= qu + H_; u++) {
      int uu = repeat ? (u < 0 ? u + w : u >= w ? u - w : u) : u;
      if (uu < 0 || uu >= w || v < 0 || v >= hgt) continue;
      uint32_t m = s.index_map(v, uu); if (m != s.invalid_index) win.insert(m);
    }
    std::vector<double> ds; for (int k : win) ds.push_back((raw[k] - q).squaredNorm());
    std::sort(ds.begin(), ds.end());
    auto check = [&](const char* nm, int k, size_t m, const std::vector<size_t>& I, const std::vector<double>& D) {
      std::string c2 = ctx + (S() << nm << " k=" << k << " query ").operator std::string() + vs(q) + ": ";
      if (m != std::min<size_t>(k, win.size())) { h.fail("count", c2 + (S() << "found " << m << " of " << win.size() << " points of the window").operator std::string()); return false; }
      std::set<size_t> seen;
      for (size_t j = 0; j < m; j++) {
        if (!win.count(I[j]) || !seen.insert(I[j]).second) { h.fail("entry", c2 + (S() << "entry " << j << " (" << I[j] << ") is not in the window or repeated").operator std::string()); return false; }
        double d = (raw[I[j]] - q).squaredNorm();
        if (std::abs(D[j] - d) > 1e-9 * (1 + d) || (j && D[j] < D[j - 1]) || std::abs(D[j] - ds[j]) > 1e-9 * (1 + ds[j])) { h.fail("distance", c2 + (S() << "entry " << j << " has distance " << D[j] << ", true " << d << ", expected rank distance " << ds[j]).operator std::string()); return false; }
      }
      return true;
    };
    int k = h.i(1, 8);
    std::vector<size_t> I(k); std::vector<double> D(k);
    size_t m = s.knn_search(q, k, I.data(), D.data());
    if (!check("knn_search", k, m, I, D)) return;
    std::vector<size_t> I1(1); std::vector<double> D1(1);
    m = s.nearest_neighbor_search(q, I1.data(), D1.data());
    if (!check("nearest_neighbor_search", 1, m, I1, D1)) return;
    std::vector<size_t> I4(4); std::vector<double> D4(4);
    m = s.template knn_search<4>(q, I4.data(), D4.data());
    if (!check("knn_search<4>", 4, m, I4, D4)) return;
    h.eval(hmix(hmix(hd(q[0]), hd(q[1])), k * 1000 + w));
    if (win.size() > 3) h.sample(ctx + "query " + vs(q));
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  h.caze("random clouds, poles, azimuth seam, narrow maps");
  while (h.more()) for (int r = 0; r < 10 && h.more(); r++) {
    one<EquirectangularProjection, BorderRepeat, BorderClamp>(h, true, false);
    one<EquirectangularProjection, BorderClamp, BorderClamp>(h, false, false);
    one<Flat, BorderRepeat, BorderClamp>(h, true, true);
    one<Flat, BorderClamp, BorderClamp>(h, false, true);
  }
  return h.done("map: one genuine point per hit cell; search = k nearest distinct points of the window cells");
}
