// Robust kernels against their definition; robustified factors against their inner factor.
#include "h_kd.hpp"
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/rejector.hpp>
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>; using V3 = Eigen::Vector3d;
static double wref(const Huber&, double c, double e) { double a = std::abs(e); return a <= c ? 1.0 : c / a; }
static double wref(const Cauchy&, double c, double e) { return c / (c + e * e); }
template <class K> static void kernel(H& h, const char* nm) {
  for (int rep = 0; rep < 200; rep++) {
    typename K::Setting s; s.c = std::pow(10.0, h.r(-3, 3)); K k(s);
    double e; switch (h.i(0, 4)) { case 0: e = 0; break; case 1: e = s.c * (h.coin() ? 1 : -1); break; case 2: e = s.c * h.r(-2, 2); break; case 3: e = h.r(-1, 1) * 1e6; break; default: e = h.r(-1e-6, 1e-6); }
    h.eval(hmix(hd(e), hd(s.c)));
    double w = k.weight(e), r = wref(k, s.c, e);
    std::string at = S() << nm << " width " << s.c << " residual " << e << " weight " << w;
    if (!(std::abs(w - r) <= 1e-12)) { h.fail("weight", at + (S() << " but the definition gives " << r).operator std::string()); return; }
    if (!(w > 0 && w <= 1 + 1e-15)) { h.fail("range", at + " not in (0,1]"); return; }
    if (!(k.weight(0) == 1.0)) { h.fail("zero", at + " : weight at zero is not one"); return; }
    if (k.weight(-e) != w) { h.fail("even", at + " : not even"); return; }
    double e2 = e * h.r(1, 3); if (k.weight(e2) > w + 1e-15) { h.fail("mono", at + " : increases with the magnitude"); return; }
  }
}
template <class K, class F> static void robust(H& h, const char* nm) {
  auto tp = gen_cloud(h, h.i(1, 30)), sp = gen_cloud(h, h.i(1, 20));
  auto t = to_cloud(tp), s = to_cloud(sp);
  for (auto* p : {t.get(), s.get()}) for (size_t i = 0; i < p->size(); i++) {
    V3 n(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); p->normal(i) << n.normalized(), 0;
    p->cov(i).setZero(); Eigen::Matrix3d A; for (int a = 0; a < 9; a++) A.data()[a] = h.r(-1, 1); p->cov(i).template block<3, 3>(0, 0) = A * A.transpose() + 0.1 * Eigen::Matrix3d::Identity();
  }
  UnsafeKdTree<PointCloud> tree(*t);
  DistanceRejector rej; rej.max_dist_sq = h.coin() ? 1e30 : h.r(0, 10);
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity(), T2 = T; T.linear() = Eigen::AngleAxisd(h.r(-3, 3), V3(1, 2, -1).normalized()).toRotationMatrix(); T.translation() = V3(h.r(-1, 1), h.r(-1, 1), 0);
  T2 = T; T2.translation() += V3(h.r(-1, 1), 0.3, 0);
  typename RobustFactor<K, F>::Setting set; set.robust_kernel.c = std::pow(10.0, h.r(-2, 2));
  RobustFactor<K, F> rf(set); F f; K k(set.robust_kernel);
  std::string base = S() << "RobustFactor<" << nm << "> width " << set.robust_kernel.c << " max_dist_sq " << rej.max_dist_sq;
  h.caze(base);
  for (size_t i = 0; i < s->size(); i++) {
    M6 H1, H2; V6 b1, b2; double e1 = 5, e2 = 5; H1.setOnes(); H2.setOnes(); b1.setOnes(); b2.setOnes();
    bool o1 = f.linearize(*t, *s, tree, T, i, rej, &H1, &b1, &e1), o2 = rf.linearize(*t, *s, tree, T, i, rej, &H2, &b2, &e2);
    h.eval(hmix(hd(sp[i][0]), hd(set.robust_kernel.c)));
    std::string at = base + (S() << " source point " << vs(s->point(i)) << " inner error " << e1).operator std::string();
    if (o1 != o2 || rf.inlier() != o1) { h.fail("accept", at + " : acceptance differs from the inner factor"); return; }
    if (!o1) { if (rf.error(*t, *s, T) != 0) { h.fail("outlier", at + " : rejected correspondence contributes"); return; } continue; }
    double w = wref(k, set.robust_kernel.c, std::sqrt(e1)), tol = 1e-9;
    if (!((H2 - w * H1).cwiseAbs().maxCoeff() <= tol * std::max(1.0, H1.cwiseAbs().maxCoeff()))) { h.fail("H", at + " : system is not the inner system scaled by the weight"); return; }
    if (!((b2 - w * b1).cwiseAbs().maxCoeff() <= tol * std::max(1.0, b1.cwiseAbs().maxCoeff()))) { h.fail("b", at + " : gradient is not the inner gradient scaled by the weight"); return; }
    if (!(std::abs(e2 - w * e1) <= tol * std::max(1.0, e1))) { h.fail("e", at + " : error is not the inner error scaled by the weight"); return; }
    for (auto& X : {T, T2}) {
      double a = f.error(*t, *s, X), b = rf.error(*t, *s, X), r = wref(k, set.robust_kernel.c, std::sqrt(a)) * a;
      if (!(std::abs(b - r) <= tol * std::max(1.0, a))) { h.fail("error", at + (S() << " : error() " << b << " is not the inner error " << a << " scaled by the weight at that error").operator std::string()); return; }
    }
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.4)) {
    kernel<Huber>(h, "Huber"); kernel<Cauchy>(h, "Cauchy");
    robust<Huber, ICPFactor>(h, "Huber, ICPFactor"); robust<Cauchy, GICPFactor>(h, "Cauchy, GICPFactor"); robust<Huber, GICPFactor>(h, "Huber, GICPFactor"); robust<Cauchy, PointToPlaneICPFactor>(h, "Cauchy, PointToPlaneICPFactor");
  }
  return h.done("random widths and residuals including zero, the width itself and huge values; robustified factors compared with their inner factor on random clouds");
}
