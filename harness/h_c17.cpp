// C17: normal / covariance estimation against a brute-force reference
#include "h_kd.hpp"
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <Eigen/Eigenvalues>
static const char* SN[] = {"estimate_normals", "estimate_covariances", "estimate_normals_covariances"};
static void call(int what, int backend, bool tree, PointCloud& c, KdTree<PointCloud>& t, int k, int nt) {
  if (tree) switch (what * 3 + backend) {
    case 0: estimate_normals(c, t, k); break; case 1: estimate_normals_omp(c, t, k, nt); break; case 2: estimate_normals_tbb(c, t, k); break;
    case 3: estimate_covariances(c, t, k); break; case 4: estimate_covariances_omp(c, t, k, nt); break; case 5: estimate_covariances_tbb(c, t, k); break;
    case 6: estimate_normals_covariances(c, t, k); break; case 7: estimate_normals_covariances_omp(c, t, k, nt); break; default: estimate_normals_covariances_tbb(c, t, k); break;
  } else switch (what * 3 + backend) {
    case 0: estimate_normals(c, k); break; case 1: estimate_normals_omp(c, k, nt); break; case 2: estimate_normals_tbb(c, k); break;
    case 3: estimate_covariances(c, k); break; case 4: estimate_covariances_omp(c, k, nt); break; case 5: estimate_covariances_tbb(c, k); break;
    case 6: estimate_normals_covariances(c, k); break; case 7: estimate_normals_covariances_omp(c, k, nt); break; default: estimate_normals_covariances_tbb(c, k); break;
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more()) {
    int n = h.coin(0.25) ? h.i(0, 7) : h.i(5, h.coin(0.2) ? 600 : 120);
    double scale = std::exp(h.r(-3, 3));
    auto v = gen_cloud(h, n, -1, scale);
    if (h.coin(0.3)) { V4 off(h.r(-20, 20), h.r(-20, 20), h.r(-20, 20), 0); for (auto& p : v) p += off * scale; }
    if (h.coin(0.3)) { Eigen::Quaterniond q(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); q.normalize(); for (auto& p : v) p.head<3>() = q * p.head<3>(); }
    auto pc = to_cloud(v);
    // earlier contents of the attributes (they may hold anything, and may be missing)
    bool sized = h.coin(0.8);
    if (!sized) { pc->normals.clear(); pc->covs.clear(); }
    else for (int i = 0; i < n; i++) { pc->normal(i) = V4::Constant(7 + i); pc->cov(i) = Eigen::Matrix4d::Constant(-3 - i); }
    int k = h.coin(0.3) ? h.i(1, 8) : h.coin(0.1) ? n + h.i(0, 5) + 1 : h.i(5, 30), what = h.u(3), be = h.u(3), nt = h.i(1, 6); bool tree = h.coin();
    S d; d << SN[what] << (be == 0 ? "" : be == 1 ? "_omp" : "_tbb") << (tree ? " with a given tree" : "") << " num_neighbors=" << k << " threads=" << nt << " attributes " << (sized ? "already set" : "missing") << " " << dump(v, 12);
    h.caze(d);
    auto ref = std::make_shared<PointCloud>(*pc);
    KdTree<PointCloud> kd(ref);
    KdTree<PointCloud> kt(pc);
    call(what, be, tree, *pc, kt, k, nt);
    h.eval(hmix(hmix(n * 31 + k, what * 9 + be * 3 + tree), hd(scale)));
    if ((int)pc->points.size() != n || (int)pc->normals.size() != n || (int)pc->covs.size() != n) { h.fail("size", S() << std::string(d) << ": attribute sizes " << pc->points.size() << "/" << pc->normals.size() << "/" << pc->covs.size()); continue; }
    for (int i = 0; i < n && h.fails < h.max_fail; i++) {
      S w; w << std::string(d) << ": point " << i << " " << vs(v[i]);
      if (pc->point(i) != v[i]) { h.fail("point", S() << std::string(w) << " was changed"); break; }
      if (what == 1 && sized && pc->normal(i) != V4::Constant(7 + i)) { h.fail("other", S() << std::string(w) << ": the normal was changed by covariance estimation"); break; }
      if (what == 0 && sized && pc->cov(i) != Eigen::Matrix4d::Constant(-3 - i)) { h.fail("other", S() << std::string(w) << ": the covariance was changed by normal estimation"); break; }
      const V4 nn = pc->normal(i); const Eigen::Matrix4d cc = pc->cov(i);
      // neighbours
      std::vector<std::pair<double, int>> a(n); for (int j = 0; j < n; j++) a[j] = {(v[j] - v[i]).squaredNorm(), j};
      std::sort(a.begin(), a.end());
      int m = std::min(n, k);
      if (m < 5) {
        if (what != 1 && nn != V4::Zero()) { h.fail("invalid", S() << std::string(w) << " has " << m << " neighbours and normal " << vs(nn) << " instead of zero"); break; }
        Eigen::Matrix4d I = Eigen::Matrix4d::Identity(); I(3, 3) = 0;
        if (what != 0 && cc != I) { h.fail("invalid", S() << std::string(w) << " has " << m << " neighbours and covariance " << cc << " instead of identity"); break; }
        continue;
      }
      std::vector<int> nb;
      if (m == n || a[m].first > a[m - 1].first * (1 + 1e-9) + 1e-18) for (int j = 0; j < m; j++) nb.push_back(a[j].second);
      else { std::vector<size_t> ix(k); std::vector<double> ds(k); size_t f = kd.knn_search(v[i], k, ix.data(), ds.data()); nb.assign(ix.begin(), ix.begin() + f); }
      Eigen::Vector3d mean = Eigen::Vector3d::Zero(); for (int j : nb) mean += v[j].head<3>(); mean /= nb.size();
      Eigen::Matrix3d C = Eigen::Matrix3d::Zero(); for (int j : nb) { Eigen::Vector3d q = v[j].head<3>() - mean; C += q * q.transpose(); } C /= nb.size();
      Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> eig(C);
      Eigen::Vector3d L = eig.eigenvalues(), u = eig.eigenvectors().col(0);
      double mag = 0; for (int j : nb) mag = std::max(mag, v[j].squaredNorm());
      double noise = 1e-13 * mag;                                  // cancellation in E[pp] - E[p]E[p]
      bool clear = L[1] - L[0] > 1e-3 * L[2] && L[1] - L[0] > 1e5 * noise;      // least-variance direction well defined
      if (what != 1) {
        if (!(std::abs(nn.norm() - 1) < 1e-9) || nn[3] != 0) { h.fail("unit", S() << std::string(w) << ": normal " << vs(nn) << " is not a unit direction"); break; }
        if (v[i].head<3>().dot(nn.head<3>()) > 1e-12 * v[i].head<3>().norm()) { h.fail("facing", S() << std::string(w) << ": normal " << vs(nn) << " points away from the sensor origin"); break; }
        if (clear && std::abs(std::abs(u.dot(nn.head<3>())) - 1) > 1e-5) { h.fail("direction", S() << std::string(w) << ": normal " << vs(nn) << " is not the least-variance direction (" << u.transpose() << ") of its " << nb.size() << " nearest neighbours"); break; }
      }
      if (what != 0) {
        if (cc.row(3).squaredNorm() != 0 || cc.col(3).squaredNorm() != 0) { h.fail("cov", S() << std::string(w) << ": covariance with nonzero fourth row or column\n" << cc); break; }
        Eigen::Matrix3d c3 = cc.topLeftCorner<3, 3>();
        if (clear && (!((c3 - c3.transpose()).norm() < 1e-9) || !((c3 - (Eigen::Matrix3d::Identity() - 0.999 * u * u.transpose())).norm() < 1e-4))) { h.fail("cov", S() << std::string(w) << ": covariance\n" << c3 << "\nis not the regularised one of its neighbours (normal " << u.transpose() << ")"); break; }
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> e2(c3);
        double tol = clear ? 1e-7 : 1e-3;
        if (!((e2.eigenvalues() - Eigen::Vector3d(1e-3, 1, 1)).norm() < tol)) { h.fail("cov", S() << std::string(w) << ": covariance eigenvalues " << e2.eigenvalues().transpose() << " instead of 0.001 1 1"); break; }
      }
    }
    h.sample(d);
  }
  return h.done("clouds of 0..600 points of eight shapes (planes, lines, lattices, duplicates, all equal, outliers), shifted, rotated and scaled, num_neighbors 1..30 and above the cloud size, the three attribute functions on the three backends with and without a given tree; distinct = (n, num_neighbors, function, scale)");
}
