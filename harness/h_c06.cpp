// C06: random_sampling draws min(n, requested) distinct points and copies them unchanged.
#include "common.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;
template <typename RNG>
static void one(H& h, size_t n, size_t k, std::vector<int>* cov = nullptr) {
  std::vector<V4> p(n);
  for (size_t i = 0; i < n; i++) p[i] = V4(double(i) + 0.5, h.r(-10, 10), -double(i), 1.0);   // x identifies the point
  PointCloud pc(p);
  for (size_t i = 0; i < n; i++) { pc.normals[i] = V4(i, 1, 2, 0); pc.covs[i].setConstant(double(i)); }
  auto before = pc.points; auto bn = pc.normals; auto bc = pc.covs;
  RNG rng(h.rng());
  S in; in << "random_sampling(n=" << n << ", requested=" << k << ")";
  h.caze(in);
  std::vector<V4> out;
  if (h.coin(0.7) || n == 0) { auto r = random_sampling(pc, k, rng); out = r->points; if (r->normals.size() != out.size() || r->covs.size() != out.size()) h.fail("attr", std::string(in) + ": attribute vectors out of step"); }
  else { Eigen::MatrixXd m(n, 3); for (size_t i = 0; i < n; i++) m.row(i) = p[i].head<3>().transpose(); out = random_sampling<Eigen::MatrixXd, PointCloud>(m, k, rng)->points; }
  if (before != pc.points || bn != pc.normals || bc != pc.covs) h.fail("input", std::string(in) + " modifies its input");
  if (out.size() != std::min(n, k)) h.fail("count", S() << std::string(in) << " returns " << out.size() << " points");
  std::set<size_t> seen;
  for (auto& q : out) {
    size_t i = size_t(q[0] - 0.5);
    if (!(q[0] >= 0.5 && q[0] - 0.5 == double(i) && i < n && q == p[i])) { h.fail("copy", S() << std::string(in) << " returns (" << q.transpose() << "), not a copy of any input point"); break; }
    if (!seen.insert(i).second) { h.fail("dup", S() << std::string(in) << " returns point " << i << " twice"); break; }
    if (cov) (*cov)[i]++;
  }
  h.eval(hmix(n, k));
  h.sample(in);
}
int main(int argc, char** argv) {
  H h(argc, argv);
  std::cerr.setstate(std::ios::failbit);
  one<std::mt19937>(h, 0, 0); one<std::mt19937>(h, 0, 5); one<std::mt19937>(h, 5, 0);
  // every point must be drawable: 600 draws of one point out of n <= 6 (a point is missed with probability < 1e-47)
  for (int n = 1; n <= 6; n++) {
    std::vector<int> c(n, 0); for (int i = 0; i < 600; i++) one<std::mt19937>(h, n, 1, &c);
    for (int i = 0; i < n; i++) if (!c[i]) h.fail("eligible", S() << "random_sampling(n=" << n << ", requested=1): point " << i << " is never drawn in 600 runs");
  }
  while (h.more()) {
    size_t n = h.coin(0.3) ? h.u(6) : h.u(3000), k = h.coin(0.2) ? n : (h.coin(0.2) ? n + h.u(5) : (h.coin(0.1) ? size_t(-1) : (h.coin(0.3) ? h.u(4) : h.u(n + 1))));
    switch (h.u(3)) { case 0: one<std::mt19937>(h, n, k); break; case 1: one<std::mt19937_64>(h, n, k); break; default: one<std::minstd_rand>(h, n, k); }
  }
  return h.done("random_sampling over n in 0..3000, requested in {0, <n, n, >n, size_t max}, three generators, PointCloud and MatrixXd inputs; distinct = (n, requested)");
}
