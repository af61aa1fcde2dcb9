// C10: Gaussian voxels hold the exact mean of all points ever added
#include "h_vm.hpp"
int main(int argc, char** argv) {
  H h(argc, argv);
  GaussianVoxel::Setting st;
  while (h.more()) {
    GaussianVoxel v; MVox m; S hist; hist << "GaussianVoxel history:";
    int n = 1 + h.u(h.coin(0.2) ? 200 : 15); double sc = h.coin(0.3) ? 1000 : 1;
    for (int i = 0; i < n; i++) {
      if (m.cnt == 0 || h.coin(0.6)) {
        Eigen::Isometry3d T = rand_T(h, sc); size_t npc = 1 + h.u(3), sel = h.u(npc);
        std::vector<V4> q; for (size_t k = 0; k < npc; k++) q.push_back(V4(h.r(-sc, sc), h.r(-sc, sc), h.r(-sc, sc), 1));
        PointCloud pc = cloud_at(h, q, T); V4 t = T * pc.points[sel];
        m_add(m, false, 0, 0, t, pc.normals[sel], pc.covs[sel], T);
        v.add(st, t, pc, sel, T); hist << " add(" << t.head<3>().transpose() << ")";
        if (v.num_points != m.cnt) { h.fail("count", S() << std::string(hist) << ": num_points " << v.num_points); break; }
      } else {
        int k = 1 + h.u(2); for (int j = 0; j < k; j++) v.finalize(); hist << " finalize x" << k;
        if (h.coin(0.3)) { size_t ki = 7; double kd = -1; traits::Traits<GaussianVoxel>::nearest_neighbor_search(v, V4(0, 0, 0, 1), &ki, &kd); }
        auto e = cmp_vox(v, m, 1e-9);
        if (!e.empty()) { h.fail("mean", S() << std::string(hist) << ": " << e); break; }
      }
      h.caze(hist);
      h.eval(hmix(m.cnt * 1000 + i, hd(m.sum[0])));
    }
    { v.finalize(); auto e = cmp_vox(v, m, 1e-9); if (!e.empty()) h.fail("mean", S() << std::string(hist) << " finalize: " << e); }
    h.sample(hist);
  }
  return h.done("histories of 1..200 additions (random rigid transforms and covariances) interleaved with single and repeated finalisations; after every finalisation count, mean and covariance are compared with the full sums; distinct = histories");
}
