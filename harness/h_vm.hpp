// voxel maps: input generation and reference model shared by C08..C11
#pragma once
#include "common.hpp"
#include <Eigen/Geometry>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <array>
using namespace small_gicp;
using Vox = std::array<long, 3>;
using M4 = Eigen::Matrix4d;
inline Eigen::Isometry3d rand_T(H& h, double scale = 1.0) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  if (h.coin(0.2)) return T;
  Eigen::Vector4d q(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); q.normalize();
  T.linear() = Eigen::Quaterniond(q[0], q[1], q[2], q[3]).toRotationMatrix();
  T.translation() = Eigen::Vector3d(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)) * scale;
  return T;
}
inline M4 rand_cov(H& h) { Eigen::Matrix3d A; for (int i = 0; i < 9; i++) A.data()[i] = h.r(-1, 1); M4 c = M4::Zero(); c.block<3, 3>(0, 0) = A * A.transpose() + 0.01 * Eigen::Matrix3d::Identity(); return c; }
// cloud whose transformed points sit at the wanted positions q (away from voxel faces)
inline PointCloud cloud_at(H& h, const std::vector<V4>& q, const Eigen::Isometry3d& T) {
  PointCloud pc; pc.resize(q.size());
  Eigen::Isometry3d Ti = T.inverse();
  for (size_t i = 0; i < q.size(); i++) { pc.points[i] = Ti * q[i]; pc.points[i][3] = 1.0; Eigen::Vector3d n(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); pc.normals[i] << n.normalized(), 0.0; pc.covs[i] = rand_cov(h); }
  return pc;
}
inline Vox vox_of(const V4& q, double leaf) { Vox v; for (int k = 0; k < 3; k++) v[k] = (long)std::floor(q[k] / leaf); return v; }
// point inside voxel v, at least 2 % of the cell away from its faces
inline V4 in_vox(H& h, const Vox& v, double leaf) { V4 q(0, 0, 0, 1); for (int k = 0; k < 3; k++) q[k] = (double(v[k]) + h.r(0.02, 0.98)) * leaf; return q; }
template <class V> struct Kind;
template <> struct Kind<FlatContainerPoints> { static constexpr bool flat = true, n = false, c = false; static const char* name() { return "FlatContainerPoints"; } };
template <> struct Kind<FlatContainerNormal> { static constexpr bool flat = true, n = true, c = false; static const char* name() { return "FlatContainerNormal"; } };
template <> struct Kind<FlatContainerCov> { static constexpr bool flat = true, n = false, c = true; static const char* name() { return "FlatContainerCov"; } };
template <> struct Kind<FlatContainerNormalCov> { static constexpr bool flat = true, n = true, c = true; static const char* name() { return "FlatContainerNormalCov"; } };
template <> struct Kind<GaussianVoxel> { static constexpr bool flat = false, n = false, c = true; static const char* name() { return "GaussianVoxel"; } };
// reference contents of one voxel
struct MVox {
  size_t last = 0;
  std::vector<V4> pts, nrm; std::vector<M4> cov;   // accepted points (flat)
  V4 sum = V4::Zero(); M4 csum = M4::Zero(); size_t cnt = 0;   // Gaussian
  bool ambiguous = false;      // an acceptance decision hinges on rounding
};
inline void m_add(MVox& m, bool flat, double min_sq, size_t cap, const V4& q, const V4& n, const M4& c, const Eigen::Isometry3d& T) {
  m.sum += q; m.csum += T.matrix() * c * T.matrix().transpose(); m.cnt++;
  if (m.pts.size() >= cap) return;
  for (auto& p : m.pts) { double d = (p - q).squaredNorm(); if (std::fabs(d - min_sq) < 1e-9 * (1 + min_sq)) m.ambiguous = true; if (d < min_sq) return; }
  m.pts.push_back(q); m.nrm.push_back(T.matrix() * n); m.cov.push_back(T.matrix() * c * T.matrix().transpose());
}
inline double relerr(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return (a - b).cwiseAbs().maxCoeff() / (1.0 + b.cwiseAbs().maxCoeff()); }
template <class V> std::string cmp_vox(const V& v, const MVox& m, double tol) {
  S o;
  if constexpr (Kind<V>::flat) {
    if (v.points.size() != m.pts.size()) return o << v.points.size() << " stored points, expected " << m.pts.size();
    if constexpr (Kind<V>::n) if (v.normals.size() != m.pts.size()) return o << v.normals.size() << " normals for " << m.pts.size() << " points";
    if constexpr (Kind<V>::c) if (v.covs.size() != m.pts.size()) return o << v.covs.size() << " covariances for " << m.pts.size() << " points";
    for (size_t i = 0; i < m.pts.size(); i++) {
      if (relerr(v.points[i], m.pts[i]) > tol) return o << "stored point " << i << " is (" << v.points[i].transpose() << "), expected (" << m.pts[i].transpose() << ")";
      if constexpr (Kind<V>::n) if (relerr(v.normals[i], m.nrm[i]) > tol) return o << "normal " << i << " is (" << v.normals[i].transpose() << "), expected (" << m.nrm[i].transpose() << ")";
      if constexpr (Kind<V>::c) if (relerr(v.covs[i], m.cov[i]) > tol) return o << "covariance " << i << " is\n" << v.covs[i] << "\nexpected\n" << m.cov[i];
    }
  } else {
    if (v.num_points != m.cnt) return o << "num_points " << v.num_points << ", expected " << m.cnt;
    if (relerr(v.mean, m.sum / double(m.cnt)) > tol) return o << "mean (" << v.mean.transpose() << "), expected (" << (m.sum / double(m.cnt)).transpose() << ") of " << m.cnt << " points";
    if (relerr(v.cov, m.csum / double(m.cnt)) > tol) return o << "covariance\n" << v.cov << "\nexpected\n" << m.csum / double(m.cnt);
  }
  return "";
}
