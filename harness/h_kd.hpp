// kd-tree generation shared by the C02/C03/C23 harnesses
#pragma once
#include "common.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/traits.hpp>
using namespace small_gicp;
inline std::shared_ptr<PointCloud> to_cloud(const std::vector<V4>& v) {
  auto p = std::make_shared<PointCloud>();
  p->resize(v.size());
  for (size_t i = 0; i < v.size(); i++) { p->point(i) = v[i]; p->normal(i).setZero(); p->cov(i).setZero(); }
  return p;
}
struct TreeCfg {
  int builder, leaf, scan, threads;
  std::string str() const { return S() << "builder=" << (builder == 0 ? "serial" : builder == 1 ? "OMP" : "TBB") << " max_leaf_size=" << leaf << " max_scan_count=" << scan << " threads=" << threads; }
};
inline TreeCfg rand_cfg(H& h, bool par = true) {
  const int leaves[] = {1, 1, 2, 3, 4, 5, 8, 10, 20, 20, 50};
  TreeCfg c;
  c.builder = par ? h.i(0, 2) : 0;
  c.leaf = leaves[h.u(11)];
  c.scan = h.coin() ? 128 : h.i(1, 10);
  c.threads = h.i(1, 8);
  return c;
}
template <class Proj>
std::shared_ptr<UnsafeKdTree<PointCloud, Proj>> make_tree(const PointCloud& p, const TreeCfg& c) {
  using T = UnsafeKdTree<PointCloud, Proj>;
  if (c.builder == 0) { KdTreeBuilder b; b.max_leaf_size = c.leaf; b.projection_setting.max_scan_count = c.scan; return std::make_shared<T>(p, b); }
  if (c.builder == 1) { KdTreeBuilderOMP b(c.threads); b.max_leaf_size = c.leaf; b.projection_setting.max_scan_count = c.scan; return std::make_shared<T>(p, b); }
  KdTreeBuilderTBB b; b.max_leaf_size = c.leaf; b.projection_setting.max_scan_count = c.scan; return std::make_shared<T>(p, b);
}
inline std::string dump(const std::vector<V4>& v, size_t maxn = 40) {
  S s; s << v.size() << " points:";
  for (size_t i = 0; i < v.size() && i < maxn; i++) s << " " << vs(v[i]);
  if (v.size() > maxn) s << " ...";
  return s;
}
