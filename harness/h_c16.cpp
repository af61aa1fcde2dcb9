// Exponential maps against a scaling-and-squaring matrix exponential in long double.
#include "common.hpp"
#include <small_gicp/util/lie.hpp>
using namespace small_gicp;
using LM = Eigen::Matrix<long double, 4, 4>;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d; using V6 = Eigen::Matrix<double, 6, 1>;
static LM expm(const LM& A) {
  long double n = A.cwiseAbs().maxCoeff(); int s = 0; while (n > 0.1L) { n /= 2; s++; }
  LM B = A / std::pow(2.0L, s), R = LM::Identity(), P = LM::Identity();
  for (int k = 1; k < 25; k++) { P = P * B / (long double)k; R += P; }
  for (int k = 0; k < s; k++) R = R * R;
  return R;
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.4)) {
    V3 ax(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); if (h.coin(0.2)) ax = V3::Unit(h.i(0, 2)); if (ax.norm() < 1e-3) ax = V3(0, 1, 0); ax.normalize();
    double th; switch (h.i(0, 6)) { case 0: th = 0; break; case 1: th = std::pow(10, h.r(-14, -9)); break; case 2: th = std::pow(10, h.r(-7, -3)); break; case 3: th = h.r(0, 7); break; case 4: th = M_PI * h.i(1, 4) + (h.coin() ? 0 : h.r(-1e-6, 1e-6)); break; case 5: th = h.r(0, 40); break; default: th = 1e-5 * h.r(0.9, 1.1); }
    V3 w = ax * th, v(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); if (h.coin(0.3)) v *= std::pow(10, h.r(-3, 4));
    if (h.coin(0.05)) v.setZero();
    V6 a; a << w, v;
    h.eval(hmix(hd(w[0]), hd(v[1])));
    std::string at = S() << "twist " << a.transpose().format(Eigen::IOFormat(17)) << " (angle " << th << ")";
    M3 K = skew(w); V3 p(h.r(-5, 5), h.r(-5, 5), h.r(-5, 5));
    if (!((K * p - w.cross(p)).norm() <= 1e-12 * (1 + th) * 10) || !((K + K.transpose()).norm() == 0)) { h.fail("skew", at + " : skew does not realise the cross product"); continue; }
    auto q = so3_exp(w); M3 R = q.toRotationMatrix();
    Eigen::Isometry3d T = se3_exp(a);
    LM A = LM::Zero(); A.block<3, 3>(0, 0) << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0; A.block<3, 1>(0, 3) = v.cast<long double>();
    LM E = expm(A);
    double tol = 1e-12 * (1 + th);
    if (!(std::abs(q.norm() - 1) <= 1e-12)) { h.fail("norm", at + (S() << " : quaternion norm " << q.norm()).operator std::string()); continue; }
    M3 L = T.linear();
    if (!((L * L.transpose() - M3::Identity()).norm() <= 1e-11) || !(std::abs(L.determinant() - 1) <= 1e-11)) { h.fail("orth", at + " : rotation of se3_exp is not orthonormal"); continue; }
    if (!((R - L).norm() <= 1e-11)) { h.fail("so3se3", at + " : so3_exp and se3_exp rotations differ"); continue; }
    if (!(T.matrix()(3, 0) == 0 && T.matrix()(3, 1) == 0 && T.matrix()(3, 2) == 0 && T.matrix()(3, 3) == 1)) { h.fail("row", at + " : last row is not 0 0 0 1"); continue; }
    if (!((R.cast<long double>() - E.block<3, 3>(0, 0)).norm() <= 1e-11L * (1 + th))) { h.fail("rot", at + (S() << " : rotation differs from the matrix exponential by " << (double)(R.cast<long double>() - E.block<3, 3>(0, 0)).norm()).operator std::string()); continue; }
    long double dt = (T.translation().cast<long double>() - E.block<3, 1>(0, 3)).norm();
    if (!(dt <= 2e-8L * v.norm() + 1e-300L)) { h.fail("trans", at + (S() << " : translation differs from the matrix exponential by " << (double)dt).operator std::string()); continue; }
    if (th > 1e-3 && !(dt <= 1e-9L * v.norm() * (1 + th))) { h.fail("trans", at + (S() << " : translation differs from the matrix exponential by " << (double)dt).operator std::string()); continue; }
  }
  return h.done("twists of every angle scale (zero, tiny, around the branch thresholds, multiples of pi, large) compared with a long-double matrix exponential");
}
