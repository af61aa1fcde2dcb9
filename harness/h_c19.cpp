// Degree-of-freedom restriction: exact effect on the system, and behaviour of the resulting Gauss-Newton step.
#include "h_kd.hpp"
#include <small_gicp/factors/general_factor.hpp>
#include <Eigen/Cholesky>
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
int main(int argc, char** argv) {
  H h(argc, argv);
  PointCloud t, s; UnsafeKdTree<PointCloud>* tree = nullptr;
  auto cl = to_cloud(gen_cloud(h, 10)); UnsafeKdTree<PointCloud> tr(*cl);
  while (h.more(0.3)) {
    RestrictDoFFactor f;
    Eigen::Array3d rm, tm; for (int k = 0; k < 3; k++) { rm[k] = h.coin(); tm[k] = h.coin(); }
    int mode = h.i(0, 3);
    if (mode & 1) f.set_rotation_mask(rm); else rm.setOnes();
    if (mode & 2) f.set_translation_mask(tm); else tm.setOnes();
    if (h.coin(0.7)) f.lambda = h.coin(0.1) ? 0.0 : std::pow(10, h.r(-3, 9));
    M6 A; for (int k = 0; k < 36; k++) A.data()[k] = h.r(-1, 1);
    M6 Hm = A * A.transpose() + 0.1 * M6::Identity(); V6 b; for (int k = 0; k < 6; k++) b[k] = h.r(-1, 1); double e = h.r(0, 5);
    M6 H1 = Hm; V6 b1 = b; double e1 = e;
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation() << h.r(-5, 5), h.r(-5, 5), 1; T.linear() = Eigen::AngleAxisd(h.r(-3, 3), Eigen::Vector3d(1, 2, 3).normalized()).toRotationMatrix();
    f.update_linearized_system(*cl, *cl, tr, T, &H1, &b1, &e1);
    double e2 = e; f.update_error(*cl, *cl, T, &e2);
    V6 mask; mask << rm.matrix(), tm.matrix();
    h.eval(hmix(hd(f.lambda), hd(Hm(0, 0)) ^ (uint64_t)mode));
    std::string at = S() << "mask " << mask.transpose() << " lambda " << f.lambda;
    M6 D = H1 - Hm; double sc = std::max(1.0, f.lambda);
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
      double want = i == j && mask[i] == 0 ? f.lambda : 0;
      if (!(std::abs(D(i, j) - want) <= 1e-6 * (want ? sc : 1e-3))) { h.fail("prior", at + (S() << " : prior entry (" << i << "," << j << ") is " << D(i, j) << " instead of " << want).operator std::string()); goto next; }
    }
    if (!(b1 == b)) { h.fail("b", at + " : prior is not centred at the zero step"); continue; }
    if (!(e1 == e && e2 == e)) { h.fail("e", at + " : error changed"); continue; }
    if (f.lambda > 0) {
      double prev = -1;
      for (double l : {1.0, 1e2, 1e4, 1e6, 1e8}) {
        f.lambda = l; M6 H2 = Hm; V6 b2 = b; double e3 = 0; f.update_linearized_system(*cl, *cl, tr, T, &H2, &b2, &e3);
        V6 x = H2.ldlt().solve(-b2); double mx = 0; for (int k = 0; k < 6; k++) if (mask[k] == 0) mx += x[k] * x[k];
        double beta = b.norm(), mu = 0.1;
        if (l * mx * mu * 4 > beta * beta * (1 + 1e-6)) { h.fail("step", at + (S() << " : step along the masked axes does not shrink with the weight (lambda " << l << ")").operator std::string()); break; }
      }
    }
    next:;
  }
  return h.done("random masks, weights and systems: exact prior entries, and the Gauss-Newton step along masked axes for growing weights");
}
