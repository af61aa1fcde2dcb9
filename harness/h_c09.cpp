// C09: flat containers accept points exactly by the insertion rule
#include "h_vm.hpp"
template <class V> static void run(H& h) {
  V v; typename V::Setting st;
  bool lattice = h.coin(0.4);
  if (h.coin(0.9)) { st.max_num_points_in_cell = h.coin(0.1) ? 0 : h.u(15); st.min_sq_dist_in_cell = lattice ? 0.25 * h.i(0, 4) : (h.coin(0.2) ? 0 : h.r(0, 0.5)); }
  size_t cap = st.max_num_points_in_cell; double min_sq = st.min_sq_dist_in_cell;
  MVox m; int n = 1 + h.u(30);
  S hist; hist << Kind<V>::name() << " max_num_points_in_cell=" << cap << " min_sq_dist_in_cell=" << min_sq << " offered:";
  for (int i = 0; i < n; i++) {
    Eigen::Isometry3d T = lattice ? Eigen::Isometry3d::Identity() : rand_T(h);
    std::vector<V4> q; size_t npc = 1 + h.u(3), sel = h.u(npc);
    for (size_t k = 0; k < npc; k++) q.push_back(lattice ? V4(0.5 * h.i(-2, 2), 0.5 * h.i(-2, 2), 0.5 * h.i(0, 1), 1) : V4(h.r(-1, 1), h.r(-1, 1), h.r(-0.3, 0.3), 1));
    if (!m.pts.empty() && h.coin(0.3)) { q[sel] = m.pts[h.u(m.pts.size())]; if (h.coin(0.7) && !lattice) { Eigen::Vector3d d(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); q[sel].head<3>() += d.normalized() * std::sqrt(min_sq) * (h.coin() ? 0.99 : 1.01); } }
    PointCloud pc = cloud_at(h, q, T);
    V4 t = T * pc.points[sel];
    // decisions within rounding of the threshold are only offered where arithmetic is exact (lattice)
    bool amb = false; if (!lattice) for (auto& p : m.pts) if (std::fabs((p - t).squaredNorm() - min_sq) < 1e-9) amb = true;
    if (amb) continue;
    hist << " (" << t.transpose() << ")";
    h.caze(hist);
    MVox b = m; bool was = m.ambiguous;
    m_add(m, true, min_sq, cap, t, pc.normals[sel], pc.covs[sel], T); m.ambiguous = was;
    v.add(st, t, pc, sel, T);
    if (h.coin(0.2)) v.finalize();
    auto e = cmp_vox(v, m, 1e-9);
    if (!e.empty()) { h.fail("rule", S() << std::string(hist) << ": after the last offer " << e); return; }
    if (v.size() != m.pts.size() || traits::size(v) != m.pts.size()) { h.fail("size", S() << std::string(hist) << ": size() = " << v.size()); return; }
    h.eval(hmix(hmix(hd(t[0]), hd(t[1])), m.pts.size() * 31 + cap));
  }
  h.sample(hist);
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more()) switch (h.u(4)) { case 0: run<FlatContainerPoints>(h); break; case 1: run<FlatContainerNormal>(h); break; case 2: run<FlatContainerCov>(h); break; default: run<FlatContainerNormalCov>(h); }
  return h.done("sequences of 1..30 offers (random and lattice points, exact threshold distances on the lattice, 1 % either side of it elsewhere, duplicates, capacities 0..14, random rigid transforms) to the four flat containers, compared after every offer; distinct = offers");
}
