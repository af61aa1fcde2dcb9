// C08: incremental voxel map against a reference model over insertion histories
#include "h_vm.hpp"
template <class V> static void run(H& h) {
  const double leaf = h.coin() ? 0.5 : std::exp(h.r(-2, 1));
  IncrementalVoxelMap<V> map(leaf);
  if (h.coin(0.8)) { map.lru_horizon = h.u(6); map.lru_clear_cycle = 1 + h.u(5); }
  double min_sq = 0; size_t cap = 0;
  if constexpr (Kind<V>::flat) { if (h.coin(0.8)) { map.voxel_setting.min_sq_dist_in_cell = h.coin(0.2) ? 0 : h.r(0, 0.1) * leaf * leaf; map.voxel_setting.max_num_points_in_cell = h.u(8); } min_sq = map.voxel_setting.min_sq_dist_in_cell; cap = map.voxel_setting.max_num_points_in_cell; }
  std::map<Vox, MVox> model;
  size_t counter = 0;
  S hist; hist << "IncrementalVoxelMap<" << Kind<V>::name() << "> leaf=" << leaf << " lru_horizon=" << map.lru_horizon << " lru_clear_cycle=" << map.lru_clear_cycle << " min_sq=" << min_sq << " max_points=" << cap << " inserts:";
  int steps = 1 + h.u(h.coin(0.3) ? 40 : 10);
  long base[3]; for (int k = 0; k < 3; k++) base[k] = h.coin(0.2) ? (long)h.i(-2000000, 2000000) : 0;
  int spread = 1 + h.u(6);
  for (int s = 0; s < steps && h.more(); s++) {
    size_t n = h.coin(0.1) ? 0 : 1 + h.u(h.coin(0.2) ? 200 : 20);
    // each insertion touches a sub-box, so that some voxels age
    long off[3]; for (int k = 0; k < 3; k++) off[k] = base[k] + h.i(-spread, spread); int sub = h.u(3);
    std::vector<V4> q(n); for (auto& p : q) { Vox v; for (int k = 0; k < 3; k++) v[k] = off[k] + h.i(-sub, sub); p = in_vox(h, v, leaf); }
    Eigen::Isometry3d T = rand_T(h, 10);
    PointCloud pc = cloud_at(h, q, T);
    hist << " [n=" << n << " around (" << off[0] << "," << off[1] << "," << off[2] << ")+-" << sub << "]";
    h.caze(hist);
    if (T.matrix().isIdentity(0) && h.coin()) map.insert(pc); else map.insert(pc, T);
    for (size_t i = 0; i < n; i++) { V4 t = T * pc.points[i]; MVox& m = model[vox_of(q[i], leaf)]; m.last = counter; m_add(m, Kind<V>::flat, min_sq, cap, t, pc.normals[i], pc.covs[i], T); }
    counter++;
    if (counter % map.lru_clear_cycle == 0) for (auto it = model.begin(); it != model.end();) { if (it->second.last + map.lru_horizon < counter) it = model.erase(it); else ++it; }
    // compare
    if (map.flat_voxels.size() != model.size()) { h.fail("count", S() << std::string(hist) << ": " << map.flat_voxels.size() << " voxels stored, expected " << model.size()); return; }
    if (map.voxels.size() != model.size()) { h.fail("table", S() << std::string(hist) << ": the coordinate table has " << map.voxels.size() << " entries for " << model.size() << " voxels"); return; }
    std::set<size_t> ids;
    for (auto& kv : model) {
      Eigen::Vector3i c(kv.first[0], kv.first[1], kv.first[2]);
      auto f = map.voxels.find(c);
      S w; w << std::string(hist) << ": voxel (" << c.transpose() << ")";
      if (f == map.voxels.end()) { h.fail("missing", S() << std::string(w) << " is missing from the coordinate table"); return; }
      if (f->second >= map.flat_voxels.size() || !ids.insert(f->second).second) { h.fail("id", S() << std::string(w) << " has id " << f->second << " (out of range or shared)"); return; }
      auto& fv = *map.flat_voxels[f->second];
      if (fv.first.coord != c) { h.fail("coord", S() << std::string(w) << " maps to the stored voxel (" << fv.first.coord.transpose() << ")"); return; }
      if (!kv.second.ambiguous) {
        auto e = cmp_vox(fv.second, kv.second, 1e-8);
        if (!e.empty()) { h.fail("contents", S() << std::string(w) << ": " << e); return; }
      }
      for (size_t j = 0; j < traits::size(fv.second); j++) {
        size_t g = map.calc_index(f->second, j);
        if (map.voxel_id(g) != f->second || map.point_id(g) != j) { h.fail("index", S() << std::string(w) << ": calc_index(" << f->second << "," << j << ") = " << g << " decodes to (" << map.voxel_id(g) << "," << map.point_id(g) << ")"); return; }
        if (traits::point(map, g) != traits::point(fv.second, j)) { h.fail("decode", S() << std::string(w) << ": global index " << g << " resolves to another point"); return; }
      }
    }
    auto idx = traits::point_indices(map); auto pts = traits::voxel_points(map);
    size_t tot = 0; for (auto& v : map.flat_voxels) tot += traits::size(v->second);
    if (idx.size() != tot || pts.size() != tot) { h.fail("list", S() << std::string(hist) << ": point_indices/voxel_points list " << idx.size() << "/" << pts.size() << " of " << tot << " points"); return; }
    for (size_t i = 0; i < tot; i++) if (traits::point(map, idx[i]) != pts[i]) { h.fail("list", S() << std::string(hist) << ": voxel_points[" << i << "] is not the point of point_indices[" << i << "]"); return; }
    h.eval(hmix(hmix(n, counter), model.size() * 7919 + map.flat_voxels.size()) ^ hd(leaf));
  }
  h.sample(hist);
}
int main(int argc, char** argv) {
  H h(argc, argv);
  for (int it = 0; it < 2000; it++) {   // index packing on its own
    IncrementalVoxelMap<FlatContainerPoints> m(1.0);
    size_t v = h.coin() ? h.u(1ull << 32) : (h.coin() ? 0xffffffffull : 0), p = h.coin() ? h.u(1ull << 32) : (h.coin() ? 0xffffffffull : 0);
    size_t g = m.calc_index(v, p);
    if (m.voxel_id(g) != v || m.point_id(g) != p) h.fail("index", S() << "calc_index(" << v << "," << p << ") = " << g << " decodes to (" << m.voxel_id(g) << "," << m.point_id(g) << ")");
  }
  while (h.more()) switch (h.u(5)) { case 0: run<FlatContainerPoints>(h); break; case 1: run<FlatContainerNormal>(h); break; case 2: run<FlatContainerCov>(h); break; case 3: run<FlatContainerNormalCov>(h); break; default: run<GaussianVoxel>(h); }
  return h.done("insertion histories of 1..40 clouds (0..200 points, random rigid transforms, negative and far voxels, lru_horizon 0..5 or default, clear cycle 1..5 or default) into the five voxel maps, compared after every insertion with a reference map; distinct = history states");
}
