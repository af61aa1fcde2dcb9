// C22: fast_floor is floor; voxel keys are injective and agree between serial, OpenMP and TBB.
#include "h_ds.hpp"
using namespace small_gicp;
static double special(H& h) {
  double base = h.coin(0.5) ? double(h.i(-50, 50)) : double((long)h.i(-2147483000, 2147483000));
  switch (h.u(7)) {
    case 0: return base; case 1: return std::nextafter(base, 1e300); case 2: return std::nextafter(base, -1e300);
    case 3: return h.r(-1, 1); case 4: return h.coin() ? -0.0 : (h.coin() ? 1e-310 : -1e-310); case 5: return base + 0.5; default: return h.r(-2147483000.0, 2147483000.0); }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  std::cerr.setstate(std::ios::failbit);
  for (int it = 0; it < 400000 && h.more(0.5); it++) {
    Eigen::Array4d p; for (int k = 0; k < 4; k++) p[k] = special(h);
    Eigen::Array4i c = fast_floor(p);
    for (int k = 0; k < 4; k++) if (double(c[k]) != std::floor(p[k])) { std::ostringstream o; o << std::setprecision(17) << "fast_floor(" << p[k] << ") = " << c[k] << " in lane " << k; h.fail("floor", o.str()); }
    h.eval(hmix(hd(p[0]), hd(p[1])));
  }
  while (h.more()) {
    int style = h.coin(0.7) ? (h.coin() ? 5 : 4) : h.u(4);
    size_t n = 1 + h.u(300);
    DsIn d = ds_gen(h, n, style, h.coin(0.5) ? 0 : h.r(0, 0.3));
    h.caze(d.dump());
    PointCloud pc(d.pts);
    for (int b = 0; b < 3; b++) {
      auto r = b == 0 ? voxelgrid_sampling(pc, d.leaf) : b == 1 ? voxelgrid_sampling_omp(pc, d.leaf, h.i(1, 8)) : voxelgrid_sampling_tbb(pc, d.leaf);
      auto e = ds_exact(d, r->points);
      if (!e.empty()) h.fail("key", std::string(b == 0 ? "voxelgrid_sampling" : b == 1 ? "voxelgrid_sampling_omp" : "voxelgrid_sampling_tbb") + ": " + e + "; " + std::to_string(r->size()) + " outputs for " + std::to_string(d.groups.size()) + " distinct voxels; " + d.dump(20));
    }
    h.eval(hmix(n, hmix(style, hd(d.leaf))));
    h.sample(d.dump(3));
  }
  return h.done("fast_floor on integers, their neighbours, halves, denormals and the int range; clouds of <=300 points (below every block size, so no voxel may be split) whose voxels differ in single key bits or sit at the range limits, through the three samplers; distinct = inputs");
}
