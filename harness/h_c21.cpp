// C21: point cloud containers - read-back, frame and conversion through the generic point interface
#include "common.hpp"
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
using namespace small_gicp;
using M4 = Eigen::Matrix4d;
template <class C> struct K { static constexpr bool nrm = false, cov = false, pt = true, flt = true; };
template <> struct K<PointCloud> { static constexpr bool nrm = true, cov = true, pt = true, flt = false; static const char* nm() { return "PointCloud"; } };
#define PK(T, N, C) template <> struct K<pcl::PointCloud<T>> { static constexpr bool nrm = N, cov = C, pt = true, flt = true; static const char* nm() { return "pcl::PointCloud<" #T ">"; } };
PK(pcl::PointXYZ, false, false) PK(pcl::PointXYZI, false, false) PK(pcl::PointNormal, true, false) PK(pcl::PointXYZINormal, true, false) PK(pcl::PointCovariance, false, true) PK(pcl::PointNormalCovariance, true, true)
static V4 rv4(H& h, double w) { return V4((float)h.r(-100, 100), (float)h.r(-100, 100), (float)h.r(-100, 100), w); }
static M4 rc4(H& h) { M4 m = M4::Zero(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = (float)h.r(-5, 5); return m; }
template <class C> static void run(H& h) {
  C c; size_t n = h.u(h.coin(0.3) ? 200 : 12);
  std::vector<V4> P, N; std::vector<M4> Q;
  S d; d << K<C>::nm() << " ops:";
  auto bad = [&](const std::string& k, const std::string& w) { h.fail(k, std::string(d) + " -> " + w); };
  auto fill = [&](size_t a) { for (size_t i = a; i < n; i++) { P[i] = rv4(h, 1.0); traits::set_point(c, i, P[i]); if constexpr (K<C>::nrm) { N[i] = rv4(h, 0.0); traits::set_normal(c, i, N[i]); } if constexpr (K<C>::cov) { Q[i] = rc4(h); traits::set_cov(c, i, Q[i]); } } };
  auto check = [&]() -> bool {
    if (traits::size(c) != n) { bad("size", S() << "size() is " << traits::size(c) << " expected " << n); return false; }
    if (traits::has_points(c) != (n > 0)) { bad("has", S() << "has_points() is " << traits::has_points(c) << " with " << n << " points"); return false; }
    if constexpr (K<C>::nrm) if (traits::has_normals(c) != (n > 0)) { bad("has", S() << "has_normals() is " << traits::has_normals(c) << " with " << n << " points"); return false; }
    if constexpr (K<C>::cov) if (traits::has_covs(c) != (n > 0)) { bad("has", S() << "has_covs() is " << traits::has_covs(c) << " with " << n << " points"); return false; }
    if constexpr (!K<C>::flt) if (c.points.size() != n || c.normals.size() != n || c.covs.size() != n || c.size() != n || c.empty() != (n == 0)) { bad("sizes", S() << "attribute sizes " << c.points.size() << "/" << c.normals.size() << "/" << c.covs.size() << " for " << n << " points"); return false; }
    for (size_t i = 0; i < n; i++) {
      if (V4(traits::point(c, i)) != P[i]) { bad("point", S() << "point " << i << " of " << n << " reads " << vs(traits::point(c, i)) << " stored " << vs(P[i])); return false; }
      if constexpr (K<C>::nrm) if (V4(traits::normal(c, i)) != N[i]) { bad("normal", S() << "normal " << i << " of " << n << " reads " << vs(traits::normal(c, i)) << " stored " << vs(N[i])); return false; }
      if constexpr (K<C>::cov) if (M4(traits::cov(c, i)) != Q[i]) { bad("cov", S() << "covariance " << i << " of " << n << " reads back differently:\n" << M4(traits::cov(c, i)) << "\nstored\n" << Q[i]); return false; }
    }
    return true;
  };
  auto resize = [&](size_t m) { size_t o = n; n = m; traits::resize(c, n); P.resize(n); N.resize(n); Q.resize(n); fill(o); d << " resize(" << n << ")"; };
  { size_t m = n; n = 0; h.caze(d); if (!check()) return; resize(m); if (!check()) return; }
  for (int s = 0; s < 12; s++) {
    size_t i = n ? h.u(n) : 0;
    switch (h.u(5)) {
      case 0: resize(h.u(20)); break;
      case 1: if (n) { d << " set_point(" << i << ")"; P[i] = rv4(h, 1.0); traits::set_point(c, i, P[i]); } break;
      case 2: if constexpr (K<C>::nrm) if (n) { d << " set_normal(" << i << ")"; N[i] = rv4(h, 0); traits::set_normal(c, i, N[i]); } break;
      case 3: if constexpr (K<C>::cov) if (n) { d << " set_cov(" << i << ")"; Q[i] = rc4(h); traits::set_cov(c, i, Q[i]); } break;
      case 4: { d << " copy"; C c2 = c; if (n) traits::set_point(c2, i, rv4(h, 1.0)); } break;
    }
    h.caze(d);
    if (!check()) return;
  }
  h.eval(hmix(n, hd(n ? P[0][0] : 0)));
  h.sample(d);
}
template <class T, int D> static void conv(H& h) {
  size_t n = h.u(h.coin(0.2) ? 300 : 20);
  std::vector<Eigen::Matrix<T, D, 1>, Eigen::aligned_allocator<Eigen::Matrix<T, D, 1>>> v(n);
  for (auto& p : v) for (int k = 0; k < D; k++) p[k] = (T)(k == 3 ? (h.coin() ? 1.0 : h.r(-3, 3)) : h.r(-1e3, 1e3));
  S d; d << "PointCloud(vector<Matrix<" << (sizeof(T) == 4 ? "float" : "double") << "," << D << ",1>> of " << n << ")"; h.caze(d);
  PointCloud c(v);
  if (c.points.size() != n || c.normals.size() != n || c.covs.size() != n) { h.fail("conv", S() << std::string(d) << ": sizes " << c.points.size() << "/" << c.normals.size() << "/" << c.covs.size()); return; }
  for (size_t i = 0; i < n; i++) { V4 e(v[i][0], v[i][1], v[i][2], 1.0); if (c.points[i] != e) { h.fail("conv", S() << std::string(d) << ": point " << i << " is " << vs(c.points[i]) << " expected " << vs(e)); return; } }
  h.eval(hmix(n, D * 8 + sizeof(T)));
}
template <class T> static void proxy(H& h) {
  size_t n = h.u(20); pcl::PointCloud<T> c; c.resize(n);
  for (auto& p : c) { p.x = h.r(-9, 9); p.y = h.r(-9, 9); p.z = h.r(-9, 9); }
  std::vector<M4> covs(h.coin() ? 0 : h.u(n + 3)); PointCloudProxy<T> x(c, covs);
  S d; d << "PointCloudProxy of " << n << " points"; h.caze(d);
  if (traits::has_covs(x) != !covs.empty()) { h.fail("proxy", S() << std::string(d) << ": has_covs() with " << covs.size() << " covariances"); return; }
  traits::resize(x, n);
  if (traits::size(x) != n || covs.size() != n || traits::has_points(x) != (n > 0)) { h.fail("proxy", S() << std::string(d) << ": size()=" << traits::size(x) << " covs=" << covs.size() << " has_points=" << traits::has_points(x)); return; }
  std::vector<M4> Q(n); for (size_t i = 0; i < n; i++) { Q[i] = rc4(h) * 1.1; traits::set_cov(x, i, Q[i]); }
  for (size_t i = 0; i < n; i++) {
    if (M4(traits::cov(x, i)) != Q[i] || covs[i] != Q[i]) { h.fail("proxy", S() << std::string(d) << ": covariance " << i << " reads back differently"); return; }
    V4 e(c[i].x, c[i].y, c[i].z, 1.0); if (V4(traits::point(x, i)) != e) { h.fail("proxy", S() << std::string(d) << ": point " << i << " reads " << vs(traits::point(x, i)) << " expected " << vs(e)); return; }
  }
  h.eval(hmix(n, hd(n ? Q[0](0, 0) : 0)));
}
static void matx(H& h) {
  int n = h.u(20), c = 3 + h.u(2); Eigen::MatrixXd m = Eigen::MatrixXd::Random(n, c);
  S d; d << "Eigen::MatrixXd " << n << "x" << c; h.caze(d);
  if (traits::size(m) != (size_t)n || traits::has_points(m) != (n > 0)) { h.fail("matrix", S() << std::string(d) << ": size()=" << traits::size(m)); return; }
  for (int i = 0; i < n; i++) { V4 e(m(i, 0), m(i, 1), m(i, 2), 1.0); if (V4(traits::point(m, i)) != e) { h.fail("matrix", S() << std::string(d) << ": point " << i << " is " << vs(traits::point(m, i)) << " expected " << vs(e)); return; } }
  h.eval(hmix(n, c));
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more() && h.evals < 60000) {
    run<PointCloud>(h); run<pcl::PointCloud<pcl::PointXYZ>>(h); run<pcl::PointCloud<pcl::PointXYZI>>(h); run<pcl::PointCloud<pcl::PointNormal>>(h); run<pcl::PointCloud<pcl::PointXYZINormal>>(h);
    run<pcl::PointCloud<pcl::PointCovariance>>(h); run<pcl::PointCloud<pcl::PointNormalCovariance>>(h);
    conv<float, 3>(h); conv<float, 4>(h); conv<double, 3>(h); conv<double, 4>(h);
    proxy<pcl::PointXYZ>(h); proxy<pcl::PointXYZINormal>(h); matx(h);
  }
  return h.done("random sequences of set_point/set_normal/set_cov/resize/copy on every container, every element compared with a reference copy after each step; conversions from vectors of float/double 3- and 4-vectors");
}
