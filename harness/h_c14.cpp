// C14: reductions against a direct sum, with recording factors (integer contributions: sums are exact in any order) and with the real factors
#include "common.hpp"
#include <atomic>
#include <omp.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
using namespace small_gicp;
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
struct Cl { int id; }; struct Tr { int id; }; struct Rj { int id; };
static double contrib(uint64_t seed, size_t i, int k) { uint64_t z = hmix(hmix(seed, i), k); return double(int64_t(z % 2001) - 1000); }
struct RF {
  uint64_t seed; size_t self; bool acc; const Cl *t, *s; const Tr* tr; const Rj* rj; const Eigen::Isometry3d* T;
  std::atomic<int> lin{0}, err{0}; std::atomic<int> bad{0};
  RF() {}
  RF(const RF& o) { *this = o; }
  RF& operator=(const RF& o) { seed = o.seed; self = o.self; acc = o.acc; t = o.t; s = o.s; tr = o.tr; rj = o.rj; T = o.T; lin = o.lin.load(); err = o.err.load(); bad = o.bad.load(); return *this; }
  bool linearize(const Cl& t_, const Cl& s_, const Tr& tr_, const Eigen::Isometry3d& T_, size_t i, const Rj& rj_, M6* H, V6* b, double* e) {
    lin++; if (i != self) bad |= 1; if (&t_ != t || &s_ != s) bad |= 2; if (&tr_ != tr) bad |= 4; if (&rj_ != rj) bad |= 8; if (!T_.matrix().isApprox(T->matrix(), 0)) bad |= 16;
    if (!acc) { H->setConstant(7e5); b->setConstant(7e5); *e = 7e5; return false; }
    for (int k = 0; k < 36; k++) H->data()[k] = contrib(seed, self, k); for (int k = 0; k < 6; k++) (*b)[k] = contrib(seed, self, 36 + k); *e = contrib(seed, self, 42);
    return true;
  }
  double error(const Cl& t_, const Cl& s_, const Eigen::Isometry3d& T_) { err++; if (&t_ != t || &s_ != s) bad |= 2; if (!T_.matrix().isApprox(T->matrix(), 0)) bad |= 16; return contrib(seed, self, 43); }
  bool inlier() const { return acc; }
};
template <class R> static void rec(H& h, const R& red, const std::string& nm) {
  size_t n = h.coin(0.2) ? h.u(4) : h.coin(0.2) ? h.u(3000) : h.u(100);
  uint64_t seed = h.rng(); double p = h.coin(0.2) ? 0 : h.coin(0.2) ? 1 : h.r(0, 1);
  Cl t{1}, s{2}; Tr tr{3}; Rj rj{4}; Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation() = Eigen::Vector3d(h.r(-1, 1), 2, 3);
  std::vector<RF> f(n); for (size_t i = 0; i < n; i++) { f[i].seed = seed; f[i].self = i; f[i].acc = h.coin(p); f[i].t = &t; f[i].s = &s; f[i].tr = &tr; f[i].rj = &rj; f[i].T = &T; }
  S d; d << nm << " over " << n << " recording factors, accept probability " << p << ", seed " << seed; h.caze(d);
  M6 H = M6::Zero(); V6 b = V6::Zero(); double e = 0, e2 = 0;
  for (size_t i = 0; i < n; i++) { if (f[i].acc) { for (int k = 0; k < 36; k++) H.data()[k] += contrib(seed, i, k); for (int k = 0; k < 6; k++) b[k] += contrib(seed, i, 36 + k); e += contrib(seed, i, 42); } e2 += contrib(seed, i, 43); }
  int reps = 1 + h.u(3);
  for (int q = 0; q < reps; q++) {
    auto [gH, gb, ge] = red.linearize(t, s, tr, rj, T, f);
    if (gH != H || gb != b || ge != e) { h.fail("lin", S() << std::string(d) << ": returned sums differ from the sum over the accepted factors (e " << ge << " vs " << e << ", |dH| " << (gH - H).cwiseAbs().maxCoeff() << ", |db| " << (gb - b).cwiseAbs().maxCoeff() << ")"); return; }
    double g2 = red.error(t, s, T, f);
    if (g2 != e2) { h.fail("err", S() << std::string(d) << ": error() returned " << g2 << ", the errors sum to " << e2); return; }
    for (size_t i = 0; i < n; i++) {
      if (f[i].lin != q + 1 || f[i].err != q + 1) { h.fail("once", S() << std::string(d) << ": after " << q + 1 << " evaluations factor " << i << " was linearised " << f[i].lin << " and evaluated " << f[i].err << " times"); return; }
      if (f[i].bad) { h.fail("args", S() << std::string(d) << ": factor " << i << " got wrong arguments (mask " << f[i].bad << ": 1 index, 2 clouds, 4 tree, 8 rejector, 16 pose)"); return; }
    }
  }
  h.eval(hmix(seed, n)); h.sample(d);
}
static PointCloud mk(H& h, int n) { PointCloud c(gen_cloud(h, n, 0, 5)); for (int i = 0; i < n; i++) { Eigen::Matrix3d a = Eigen::Matrix3d::Random(); c.covs[i].setZero(); c.covs[i].block<3, 3>(0, 0) = a * a.transpose() + 0.1 * Eigen::Matrix3d::Identity(); c.normals[i].setZero(); c.normals[i].head<3>() = Eigen::Vector3d::Random().normalized(); } return c; }
template <class F> static void real(H& h, const char* nm) {
  int n = 20 + h.u(400), m = h.u(400); auto tc = std::make_shared<PointCloud>(mk(h, n)); PointCloud sc = mk(h, m); KdTree<PointCloud> tree(tc);
  DistanceRejector rj; rj.max_dist_sq = h.coin() ? 1.0 : 0.3; Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation() = Eigen::Vector3d::Random();
  std::vector<F> a(m, F(typename F::Setting())), b(m, F(typename F::Setting())), c(m, F(typename F::Setting()));
  SerialReduction rs; ParallelReductionOMP ro; ro.num_threads = 1 + h.u(8); ParallelReductionTBB rt;
  S d; d << nm << " factors, target " << n << ", source " << m << ", threads " << ro.num_threads; h.caze(d);
  auto [H1, b1, e1] = rs.linearize(*tc, sc, tree, rj, T, a); auto [H2, b2, e2] = ro.linearize(*tc, sc, tree, rj, T, b); auto [H3, b3, e3] = rt.linearize(*tc, sc, tree, rj, T, c);
  auto close = [](double x, double y, double sc) { return std::abs(x - y) <= 1e-9 * (1 + sc); };
  double k = H1.cwiseAbs().maxCoeff();
  if (!close((H1 - H2).cwiseAbs().maxCoeff(), 0, k) || !close((H1 - H3).cwiseAbs().maxCoeff(), 0, k) || !close((b1 - b2).cwiseAbs().maxCoeff(), 0, k) || !close((b1 - b3).cwiseAbs().maxCoeff(), 0, k) || !close(e1, e2, k) || !close(e1, e3, k)) { h.fail("backends", S() << std::string(d) << ": e serial/omp/tbb " << e1 << "/" << e2 << "/" << e3 << " |dH| " << (H1 - H2).cwiseAbs().maxCoeff() << "/" << (H1 - H3).cwiseAbs().maxCoeff()); return; }
  double x = 0; for (auto& f : a) x += f.error(*tc, sc, T);
  if (!close(x, rs.error(*tc, sc, T, a), k) || !close(x, ro.error(*tc, sc, T, b), k) || !close(x, rt.error(*tc, sc, T, c), k)) { h.fail("errors", S() << std::string(d) << ": error() of the backends disagrees with the sum of the factor errors " << x); return; }
  h.eval(hmix(hd(e1), m));
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more() && h.evals < 40000) {
    rec(h, SerialReduction(), "SerialReduction");
    ParallelReductionOMP o; o.num_threads = h.coin(0.3) ? 1 : h.coin(0.2) ? 1 + h.u(32) : 1 + h.u(8); rec(h, o, "ParallelReductionOMP(" + std::to_string(o.num_threads) + " threads)");
    rec(h, ParallelReductionTBB(), "ParallelReductionTBB");
    if (h.coin(0.1)) { real<GICPFactor>(h, "GICP"); real<ICPFactor>(h, "ICP"); }
  }
  return h.done("random numbers of recording factors with random acceptance and integer contributions: exact sums, one call per factor with its own index and the caller's arguments; GICP/ICP factors compared across the backends");
}
