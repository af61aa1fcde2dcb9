// Factor linearisation against an independent reference implementation and numeric differentiation.
#include "h_kd.hpp"
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/util/lie.hpp>
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
using M3 = Eigen::Matrix3d; using V3 = Eigen::Vector3d;
static Eigen::Isometry3d rnd_pose(H& h, double ts) {
  V3 ax(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); if (ax.norm() < 1e-3) ax = V3(1, 0, 0);
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  T.linear() = Eigen::AngleAxisd(h.coin(0.2) ? 0.0 : h.r(-3.2, 3.2), ax.normalized()).toRotationMatrix();
  T.translation() = V3(h.r(-ts, ts), h.r(-ts, ts), h.r(-ts, ts));
  return T;
}
static void dress(H& h, PointCloud& p) {
  for (size_t i = 0; i < p.size(); i++) {
    V3 n(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); p.normal(i) << n.normalized(), 0;
    Eigen::Matrix3d A; for (int a = 0; a < 9; a++) A.data()[a] = h.r(-1, 1);
    p.cov(i).setZero(); p.cov(i).block<3, 3>(0, 0) = A * A.transpose() + 0.05 * M3::Identity();
  }
}
static M3 hat(const V3& x) { M3 m; m << 0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0; return m; }
template <class F> struct Kind;
template <> struct Kind<ICPFactor> { static constexpr int v = 0; static constexpr const char* n = "ICPFactor"; };
template <> struct Kind<PointToPlaneICPFactor> { static constexpr int v = 1; static constexpr const char* n = "PointToPlaneICPFactor"; };
template <> struct Kind<GICPFactor> { static constexpr int v = 2; static constexpr const char* n = "GICPFactor"; };
// weighted residual r and weight W at pose T (W fixed at pose T0 for GICP)
template <class F> static void ref(const PointCloud& t, const PointCloud& s, size_t k, size_t i, const Eigen::Isometry3d& T, const Eigen::Isometry3d& T0, V3& r, M3& W, Eigen::Matrix<double, 3, 6>& J) {
  V3 p = s.point(i).head<3>(), q = t.point(k).head<3>();
  r = q - (T.linear() * p + T.translation());
  J.block<3, 3>(0, 0) = T.linear() * hat(p); J.block<3, 3>(0, 3) = -T.linear();
  W.setIdentity();
  if (Kind<F>::v == 1) { M3 N = t.normal(k).head<3>().asDiagonal(); r = N * r; J = N * J; }
  if (Kind<F>::v == 2) W = (t.cov(k).block<3, 3>(0, 0) + T0.linear() * s.cov(i).block<3, 3>(0, 0) * T0.linear().transpose()).inverse();
}
template <class F> static void one(H& h) {
  auto tp = gen_cloud(h, h.i(1, 60)), sp = gen_cloud(h, h.i(1, 40));
  auto t = to_cloud(tp), s = to_cloud(sp); dress(h, *t); dress(h, *s);
  double R = 1e-3; for (auto& p : tp) R = std::max(R, p.head<3>().norm());
  KdTreeBuilder b; b.max_leaf_size = h.i(1, 20);
  UnsafeKdTree<PointCloud> tree(*t, b);
  DistanceRejector rej; rej.max_dist_sq = h.coin(0.3) ? 1e30 : h.r(0, 2) * R * R;
  auto T = rnd_pose(h, R);
  F f;
  std::string base = S() << Kind<F>::n << " target " << tp.size() << " source " << sp.size() << " max_dist_sq " << rej.max_dist_sq << " T=" << T.matrix().format(Eigen::IOFormat(17, 0, " ", ";"));
  h.caze(base);
  for (size_t i = 0; i < s->size(); i++) {
    if (h.coin(0.3)) f = F();
    h.eval(hmix(hd(sp[i][0]), hd(T(0, 0))));
    M6 Hm; V6 bm; double e; Hm.setConstant(3.25); bm.setConstant(-1.5); e = 77;
    bool ok = f.linearize(*t, *s, tree, T, i, rej, &Hm, &bm, &e);
    V4 q = T * s->point(i);
    size_t best = 0; double bd = 1e300;
    for (size_t k = 0; k < t->size(); k++) { double d = (t->point(k) - q).squaredNorm(); if (d < bd) { bd = d; best = k; } }
    std::string at = base + (S() << " source index " << i << " point " << vs(s->point(i)) << " transformed " << vs(q) << " nearest target " << best << " sq dist " << bd).operator std::string();
    double scale = std::max(1.0, bd);
    if (std::abs(bd - rej.max_dist_sq) > 1e-9 * scale && ok != (bd <= rej.max_dist_sq)) { h.fail("accept", at + " : acceptance is wrong"); return; }
    if (f.inlier() != ok) { h.fail("inlier", at + " : inlier() disagrees with linearize"); return; }
    if (!ok) {
      for (int rep = 0; rep < 2; rep++) if (f.error(*t, *s, rep ? rnd_pose(h, R) : T) != 0.0) { h.fail("outlier-error", at + " : rejected correspondence contributes error"); return; }
      continue;
    }
    if (f.source_index != i || f.target_index >= t->size()) { h.fail("index", at + " : recorded indices wrong"); return; }
    double fd = (t->point(f.target_index) - q).squaredNorm();
    if (std::abs(fd - bd) > 1e-9 * scale) { h.fail("nearest", at + (S() << " : correspondence is target " << f.target_index << " at sq dist " << fd).operator std::string()); return; }
    V3 r; M3 W; Eigen::Matrix<double, 3, 6> J; ref<F>(*t, *s, f.target_index, i, T, T, r, W, J);
    M6 Hr = J.transpose() * W * J; V6 br = J.transpose() * W * r; double er = 0.5 * r.dot(W * r);
    double tol = 1e-8, hs = std::max(1.0, Hr.cwiseAbs().maxCoeff());
    if (!((Hm - Hr).cwiseAbs().maxCoeff() <= tol * hs)) { h.fail("H", at + (S() << " : Hessian is not JtWJ, difference " << (Hm - Hr).cwiseAbs().maxCoeff()).operator std::string()); return; }
    if (!((bm - br).cwiseAbs().maxCoeff() <= tol * std::max(hs, br.cwiseAbs().maxCoeff()))) { h.fail("b", at + " : gradient is not JtWr"); return; }
    if (!(std::abs(e - er) <= tol * std::max(1.0, er))) { h.fail("e", at + (S() << " : error " << e << " is not half the weighted squared residual " << er).operator std::string()); return; }
    double e2 = f.error(*t, *s, T);
    if (!(std::abs(e2 - e) <= tol * std::max(1.0, e))) { h.fail("e2", at + (S() << " : error re-evaluated at the same pose is " << e2 << " instead of " << e).operator std::string()); return; }
    auto T2 = rnd_pose(h, R); V3 r2; M3 W2; Eigen::Matrix<double, 3, 6> J2; ref<F>(*t, *s, f.target_index, i, T2, T, r2, W2, J2);
    double e3 = f.error(*t, *s, T2), er3 = 0.5 * r2.dot(W2 * r2);
    if (!(std::abs(e3 - er3) <= tol * std::max(1.0, er3))) { h.fail("e3", at + " : error at another pose is not half the weighted squared residual of the stored correspondence"); return; }
    // numeric derivative of the residual under T * exp(xi)
    if (R < 20) for (int c = 0; c < 6; c++) {
      V6 x = V6::Zero(); double st = 1e-5; x[c] = st; V3 ra, rb; M3 w; Eigen::Matrix<double, 3, 6> jj;
      ref<F>(*t, *s, f.target_index, i, T * se3_exp(x), T, ra, w, jj); x[c] = -st; ref<F>(*t, *s, f.target_index, i, T * se3_exp(x), T, rb, w, jj);
      V3 d = (ra - rb) / (2 * st);
      if ((d - J.col(c)).cwiseAbs().maxCoeff() > 1e-4 * std::max(1.0, R)) { h.fail("J", at + " : system is not that of the right-multiplied se(3) perturbation"); return; }
    }
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.5)) { one<ICPFactor>(h); one<PointToPlaneICPFactor>(h); one<GICPFactor>(h); }
  return h.done("random clouds, normals, covariances, poses and distance limits; every factor compared with an independent reference and numeric differentiation");
}
