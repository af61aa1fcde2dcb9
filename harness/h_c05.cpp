// C05: parallel voxel-grid sampling averages disjoint groups covering every in-range point.
#include "h_ds.hpp"
#include <tbb/global_control.h>
using namespace small_gicp;
// outputs of one voxel: o_1..o_m must be means of a partition of the voxel's points
static std::string check(const DsIn& d, const std::vector<V4>& out) {
  std::ostringstream o; o << std::setprecision(17);
  std::map<Vox, std::vector<V4>> by;
  for (auto& p : out) {
    if (!(p[3] == 1.0)) { o << "output point (" << p.transpose() << ") has homogeneous coordinate " << p[3]; return o.str(); }
    auto c = ds_cells(d, p);
    if (c.empty()) { o << "output point (" << p.transpose() << ") lies in no occupied in-range voxel"; return o.str(); }
    Vox best = c[0];
    if (c.size() > 1) { double bd = 1e300; for (auto& v : c) { double x = (ds_mean(d, d.groups.at(v)) - p).norm(); if (x < bd) { bd = x; best = v; } } }
    by[best].push_back(p);
  }
  size_t split = 0;
  for (auto& g : d.groups) {
    auto it = by.find(g.first); size_t m = it == by.end() ? 0 : it->second.size();
    auto nm = [&]() { o << "voxel " << g.first[0] << "," << g.first[1] << "," << g.first[2] << " (" << g.second.size() << " points, " << m << " outputs): "; };
    if (!m) { nm(); o << "no output"; return o.str(); }
    if (m > g.second.size()) { nm(); o << "more outputs than points"; return o.str(); }
    double tol = ds_tol(d, g.first) * std::max<double>(1, g.second.size() * 0.1);
    V4 mean = ds_mean(d, g.second); double n = g.second.size();
    if (m == 1) { if ((mean - it->second[0]).cwiseAbs().maxCoeff() > tol) { nm(); o << "output (" << it->second[0].transpose() << ") differs from the mean (" << mean.transpose() << ")"; return o.str(); } }
    else {
      split += m - 1;
      if (m == 2) {  // c1*o1 + c2*o2 = n*mean with integers c1 + c2 = n
        V4 a = it->second[0], b = it->second[1]; V4 ab = a - b; bool ok = false;
        for (long c1 = 1; c1 < (long)n && !ok; c1++) ok = ((double(c1) * a + (n - c1) * b) - n * mean).cwiseAbs().maxCoeff() <= tol * n;
        if (!ok) { nm(); o << "the two outputs are not the means of two groups partitioning the voxel's points"; return o.str(); }
        if (n <= 12) {  // exact: some subset has mean a and its complement mean b
          ok = false;
          for (unsigned s = 1; s + 1 < (1u << (int)n) && !ok; s++) { V4 x = V4::Zero(), y = V4::Zero(); for (int i = 0; i < (int)n; i++) ((s >> i) & 1 ? x : y) += d.pts[g.second[i]]; ok = (x / x[3] - a).cwiseAbs().maxCoeff() <= tol && (y / y[3] - b).cwiseAbs().maxCoeff() <= tol; }
          if (!ok) { nm(); o << "the two outputs are not the means of two groups partitioning the voxel's points"; return o.str(); }
        }
      }
    }
  }
  if (split > (d.pts.size() - 1) / 1024) { o << split << " extra outputs although " << d.pts.size() << " points have at most " << (d.pts.size() - 1) / 1024 << " block boundaries"; return o.str(); }
  return "";
}
int main(int argc, char** argv) {
  H h(argc, argv);
  std::cerr.setstate(std::ios::failbit);
  if (voxelgrid_sampling_omp(PointCloud(), 0.5)->size() != 0 || voxelgrid_sampling_tbb(PointCloud(), 0.5)->size() != 0) h.fail("empty", "parallel sampling of an empty cloud returns points");
  static const size_t edges[] = {1, 2, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3073, 4096, 4097};
  while (h.more()) {
    int style = h.coin(0.4) ? 2 : h.u(6);
    size_t n = h.coin(0.3) ? edges[h.u(12)] : (h.coin(0.3) ? 1 + h.u(100) : 1 + h.u(9000));
    double po = h.coin(0.5) ? 0 : (h.coin(0.1) ? 1.0 : h.r(0, 0.6));
    DsIn d = ds_gen(h, n, style, po);
    h.caze(d.dump());
    PointCloud pc(d.pts);
    for (int rep = 0; rep < 2 && h.more(); rep++) {
      int nt = h.i(1, 10);
      { auto r = voxelgrid_sampling_omp(pc, d.leaf, nt); auto e = check(d, r->points); if (!e.empty()) h.fail("omp", "voxelgrid_sampling_omp(threads=" + std::to_string(nt) + "): " + e + "; " + d.dump()); }
      { tbb::global_control gc(tbb::global_control::max_allowed_parallelism, nt); auto r = voxelgrid_sampling_tbb(pc, d.leaf); auto e = check(d, r->points); if (!e.empty()) h.fail("tbb", "voxelgrid_sampling_tbb(threads=" + std::to_string(nt) + "): " + e + "; " + d.dump()); }
      h.eval(hmix(hmix(n, style * 16 + nt), hd(d.leaf) + rep));
    }
    h.sample(d.dump(3));
  }
  return h.done("random clouds (1..9000 points, sizes around the block sizes, 0..100% out-of-range, 1..10 threads, two runs each) through voxelgrid_sampling_omp/tbb; outputs decomposed per voxel and compared with brute-force partitions; distinct = size x style x threads x leaf");
}
