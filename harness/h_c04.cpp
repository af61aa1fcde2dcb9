// C04: serial voxel-grid sampling returns the exact mean of every occupied voxel.
#include "h_ds.hpp"
using namespace small_gicp;
int main(int argc, char** argv) {
  H h(argc, argv);
  std::cerr.setstate(std::ios::failbit);
  if (voxelgrid_sampling(PointCloud(), 0.5)->size() != 0) h.fail("empty", "voxelgrid_sampling of an empty cloud returns points");
  while (h.more()) {
    int style = h.u(6);
    size_t n = h.coin(0.3) ? 1 + h.u(4) : (h.coin(0.05) ? 3000 + h.u(4000) : 1 + h.u(400));
    double po = h.coin(0.5) ? 0 : (h.coin(0.15) ? 1.0 : h.r(0, 0.6));
    DsIn d = ds_gen(h, n, style, po);
    h.caze(d.dump());
    std::vector<V4> out; int kind = h.u(3); size_t attr = 0;
    if (kind == 0) { PointCloud pc(d.pts); auto pts0 = pc.points; auto r = voxelgrid_sampling(pc, d.leaf); out = r->points; attr = std::max(r->normals.size(), r->covs.size()); if (pts0 != pc.points) h.fail("input", "the input cloud is modified: " + d.dump()); if (r->normals.size() != out.size() || r->covs.size() != out.size()) h.fail("attr", "attribute vectors out of step"); }
    else { Eigen::MatrixXd m(d.pts.size(), 3); for (size_t i = 0; i < d.pts.size(); i++) m.row(i) = d.pts[i].head<3>().transpose(); auto r = voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(m, d.leaf); out = r->points; }
    auto e = ds_exact(d, out);
    if (!e.empty()) h.fail("mean", "voxelgrid_sampling: " + e + "; " + std::to_string(out.size()) + " outputs for " + std::to_string(d.groups.size()) + " occupied voxels; input: " + d.dump(40));
    h.eval(hmix(hmix(n, style), hd(d.leaf) ^ d.groups.size()));
    h.sample(d.dump(3));
  }
  return h.done("random clouds (1..7000 points; dense, sparse, single-bit-difference and range-limit voxels, exact cell corners, -0.0, duplicates, 0..100% out-of-range points) through voxelgrid_sampling<PointCloud|MatrixXd>; outputs compared with brute-force voxel means; distinct = size x style x leaf x voxel count");
}
