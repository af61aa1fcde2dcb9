// C11: voxel-map queries against brute force over the selected cells
#include "h_vm.hpp"
template <class V> static void run(H& h) {
  const double leaf = h.coin() ? 0.5 : std::exp(h.r(-2, 1));
  IncrementalVoxelMap<V> map(leaf);
  if constexpr (Kind<V>::flat) { map.voxel_setting.min_sq_dist_in_cell = h.coin() ? 0 : 1e-4 * leaf * leaf; map.voxel_setting.max_num_points_in_cell = 1 + h.u(20); }
  long base[3]; for (int k = 0; k < 3; k++) base[k] = h.coin(0.2) ? (long)h.i(-1000000, 1000000) : 0;
  int spread = h.u(4);
  for (int s = 0; s < 3; s++) {
    size_t n = h.coin(0.1) ? 0 : 1 + h.u(120);
    std::vector<V4> q(n); for (auto& p : q) { Vox v; for (int k = 0; k < 3; k++) v[k] = base[k] + h.i(-spread, spread); p = in_vox(h, v, leaf); }
    Eigen::Isometry3d T = rand_T(h, 5); PointCloud pc = cloud_at(h, q, T); map.insert(pc, T);
  }
  std::map<Vox, size_t> cells;
  for (size_t i = 0; i < map.flat_voxels.size(); i++) { auto& c = map.flat_voxels[i]->first.coord; cells[{c[0], c[1], c[2]}] = i; }
  int pattern = 1; S pat; pat << "1(default)";
  for (int it = 0; it < 30 && h.more(); it++) {
    if (h.coin(0.3)) { const int ps[] = {1, 7, 27}; pattern = ps[h.u(3)]; int rep = h.coin(0.2) ? 2 : 1; for (int r = 0; r < rep; r++) { map.set_search_offsets(pattern); pat << "," << pattern; } if (h.coin(0.05)) { std::cerr.setstate(std::ios::failbit); map.set_search_offsets(5); pattern = 1; pat << ",5"; } }
    Vox qv; for (int k = 0; k < 3; k++) qv[k] = base[k] + h.i(-spread - 1, spread + 1);
    V4 q = in_vox(h, qv, leaf);
    if (leaf == 0.5 && h.coin(0.2)) for (int k = 0; k < 3; k++) if (h.coin()) q[k] = qv[k] * leaf;
    std::vector<std::pair<double, size_t>> ref; std::set<size_t> valid;
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) {
      int l1 = std::abs(i) + std::abs(j) + std::abs(k);
      if (pattern == 1 && l1) continue; if (pattern == 7 && l1 > 1) continue;
      auto f = cells.find({qv[0] + i, qv[1] + j, qv[2] + k}); if (f == cells.end()) continue;
      auto& v = map.flat_voxels[f->second]->second;
      for (size_t p = 0; p < traits::size(v); p++) ref.push_back({(traits::point(v, p) - q).squaredNorm(), (f->second << 32) | p});
    }
    std::sort(ref.begin(), ref.end());
    for (auto& r : ref) valid.insert(r.second);
    for (int mode = 0; mode < 2; mode++) {
      size_t k = mode ? 1 : 1 + h.u(h.coin(0.3) ? 40 : 6);
      std::vector<size_t> I(k + 1, 12345); std::vector<double> D(k + 1, -7);
      S w; w << "IncrementalVoxelMap<" << Kind<V>::name() << "> leaf=" << leaf << " patterns set: " << std::string(pat) << " voxels=" << cells.size() << " query=(" << q.transpose() << ") k=" << k << (mode ? " nearest_neighbor_search" : " knn_search");
      h.caze(w);
      size_t nf;
      if (mode) nf = h.coin() ? map.nearest_neighbor_search(q, I.data(), D.data()) : traits::nearest_neighbor_search(map, q, I.data(), D.data());
      else nf = h.coin() ? map.knn_search(q, k, I.data(), D.data()) : traits::knn_search(map, q, k, I.data(), D.data());
      if (nf != std::min(k, ref.size())) { h.fail("count", S() << std::string(w) << ": " << nf << " found, " << ref.size() << " points in the selected cells"); return; }
      if (I[k] != 12345 || D[k] != -7) { h.fail("oob", S() << std::string(w) << ": wrote behind the result buffers"); return; }
      std::set<size_t> seen;
      for (size_t i = 0; i < nf; i++) {
        double tol = 1e-9 * (1 + ref[i].first);
        if (!valid.count(I[i])) { h.fail("index", S() << std::string(w) << ": result " << i << " has index " << I[i] << ", not a point of the selected cells"); return; }
        if (!seen.insert(I[i]).second) { h.fail("dup", S() << std::string(w) << ": index " << I[i] << " returned twice"); return; }
        if (std::fabs((V4(traits::point(map, I[i])) - q).squaredNorm() - D[i]) > tol) { h.fail("dist", S() << std::string(w) << ": result " << i << " reports squared distance " << D[i] << " but its point is at " << (V4(traits::point(map, I[i])) - q).squaredNorm()); return; }
        if (std::fabs(D[i] - ref[i].first) > tol) { h.fail("nearest", S() << std::string(w) << ": result " << i << " is at " << D[i] << ", the " << i << "-th nearest is at " << ref[i].first); return; }
        if (i && D[i] < D[i - 1]) { h.fail("order", S() << std::string(w) << ": distances not ascending"); return; }
      }
      h.eval(hmix(hmix(hd(q[0]), hd(q[1])), k * 64 + pattern));
      h.sample(w);
    }
    // single container
    if (cells.size()) {
      auto& v = map.flat_voxels[h.u(map.flat_voxels.size())]->second; size_t sz = traits::size(v), k = 1 + h.u(5);
      std::vector<size_t> I(k + 1, 12345); std::vector<double> D(k + 1, -7); std::vector<double> ref;
      for (size_t p = 0; p < sz; p++) ref.push_back((traits::point(v, p) - q).squaredNorm()); std::sort(ref.begin(), ref.end());
      size_t nf = traits::Traits<V>::knn_search(v, q, k, I.data(), D.data()); std::set<size_t> seen;
      bool bad = nf != std::min(k, sz) || D[k] != -7 || I[k] != 12345;
      for (size_t i = 0; i < nf && !bad; i++) bad = I[i] >= sz || !seen.insert(I[i]).second || std::fabs(D[i] - ref[i]) > 1e-9 * (1 + ref[i]) || std::fabs((traits::point(v, I[i]) - q).squaredNorm() - D[i]) > 1e-9 * (1 + ref[i]);
      if (!bad && sz) { size_t i1 = 99; double d1 = -1; size_t n1 = traits::Traits<V>::nearest_neighbor_search(v, q, &i1, &d1); bad = n1 != 1 || i1 >= sz || std::fabs(d1 - ref[0]) > 1e-9 * (1 + ref[0]); }
      if (bad) { h.fail("container", S() << Kind<V>::name() << " with " << sz << " points: k-nearest (k=" << k << ") around (" << q.transpose() << ") is not the k nearest stored points"); return; }
    }
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more()) switch (h.u(5)) { case 0: run<FlatContainerPoints>(h); break; case 1: run<FlatContainerNormal>(h); break; case 2: run<FlatContainerCov>(h); break; case 3: run<FlatContainerNormalCov>(h); break; default: run<GaussianVoxel>(h); }
  return h.done("random voxel maps (five contents types, negative/far voxels) queried with k in 1..40 after random sequences of pattern selections (1, 7, 27, repeated, unsupported), compared with brute force over the selected cells; distinct = queries");
}
