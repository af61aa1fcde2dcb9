// Exact k nearest neighbours against a brute-force scan.
#include "h_kd.hpp"
template <class F>
static bool check(H& h, const std::vector<V4>& pts, const V4& q, int k, const std::string& ctx, F&& f) {
  std::vector<size_t> ib(k + 8, 0xABCDEF); std::vector<double> db(k + 8, -77);
  size_t n = f(q, k, ib.data() + 4, db.data() + 4);
  std::vector<double> ref; for (auto& p : pts) ref.push_back((p - q).squaredNorm());
  std::vector<double> srt = ref; std::sort(srt.begin(), srt.end());
  const double tol = 1e-9 * (1e-12 + srt.back());
  auto bad = [&](const std::string& m) {
    S s; s << m << "; " << ctx << " k=" << k << " query " << vs(q) << " returned " << n << ":";
    for (size_t i = 0; i < n && i < 20; i++) s << " (" << ib[4 + i] << ", " << db[4 + i] << ")";
    s << " true distances:"; for (size_t i = 0; i < srt.size() && i < size_t(k) && i < 20; i++) s << " " << srt[i];
    s << "\n" << dump(pts);
    h.fail("knn", s); return false;
  };
  if (n != std::min<size_t>(k, pts.size())) return bad("wrong number of neighbours");
  std::set<size_t> seen;
  for (size_t i = 0; i < n; i++) {
    size_t id = ib[4 + i]; double d = db[4 + i];
    if (id >= pts.size()) return bad("index out of range");
    if (!seen.insert(id).second) return bad("index reported twice");
    if (!(std::abs(d - ref[id]) <= tol)) return bad("distance is not the distance of the reported point");
    if (i && db[3 + i] > d) return bad("distances not ascending");
    if (!(std::abs(d - srt[i]) <= tol)) return bad("a closer point was left out");
  }
  for (int g = 0; g < 4; g++) if (ib[g] != 0xABCDEF || ib[4 + k + g] != 0xABCDEF || db[g] != -77 || db[4 + k + g] != -77) return bad("wrote outside the result buffers");
  return true;
}
template <bool ST = true, class T> static bool queries(H& h, const T& t, const std::vector<V4>& pts, const std::string& ctx, const std::string& what) {
  double R = 0; for (auto& p : pts) R = std::max(R, p.head<3>().norm());
  for (int rep = 0; rep < 12; rep++) {
    V4 q;
    switch (h.i(0, 3)) {
      case 0: q = pts[h.u(pts.size())]; break;
      case 1: q = pts[h.u(pts.size())] + V4(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1), 0) * R * 0.1; break;
      case 2: q = 0.5 * (pts[h.u(pts.size())] + pts[h.u(pts.size())]); break;
      default: q = V4(h.r(-3, 3) * R, h.r(-3, 3) * R, h.r(-3, 3) * R, 1);
    }
    q[3] = 1;
    int k = h.coin() ? h.i(1, 5) : h.i(1, std::min<int>(60, pts.size() + 3));
    h.eval(hmix(hmix(pts.size(), k), hd(q[0]) ^ hd(q[1])));
    std::string c = what + " " + ctx;
    if (!check(h, pts, q, k, c + " knn_search", [&](const V4& q, int k, size_t* i, double* d) { return t.knn_search(q, k, i, d); })) return false;
    if (!check(h, pts, q, k, c + " traits::knn_search", [&](const V4& q, int k, size_t* i, double* d) { return traits::knn_search(t, q, k, i, d); })) return false;
    if (!check(h, pts, q, 1, c + " nearest_neighbor_search", [&](const V4& q, int, size_t* i, double* d) { return t.nearest_neighbor_search(q, i, d); })) return false;
    if (!check(h, pts, q, 1, c + " traits::nearest_neighbor_search", [&](const V4& q, int, size_t* i, double* d) { return traits::nearest_neighbor_search(t, q, i, d); })) return false;
    if constexpr (ST) {
    if (!check(h, pts, q, 5, c + " knn_search<5>", [&](const V4& q, int, size_t* i, double* d) { return t.template knn_search<5>(q, i, d); })) return false;
    if (!check(h, pts, q, 10, c + " knn_search<10>", [&](const V4& q, int, size_t* i, double* d) { return t.template knn_search<10>(q, i, d); })) return false;
    }
  }
  return true;
}
template <class Proj> static void one(H& h, const char* nm) {
  int n = h.coin(0.3) ? h.i(1, 6) : h.coin(0.7) ? h.i(1, 120) : h.i(200, h.coin(0.2) ? 3000 : 900);
  auto pts = gen_cloud(h, n);
  if (h.coin(0.3)) { V4 c(h.r(-100, 100), h.r(-100, 100), h.r(-100, 100), 0); for (auto& p : pts) p += c; }
  auto cl = to_cloud(pts);
  TreeCfg cfg = rand_cfg(h);
  std::string ctx = std::string(nm) + " " + cfg.str() + (S() << " n=" << n).operator std::string();
  h.caze(ctx);
  auto t = make_tree<Proj>(*cl, cfg);
  if (!queries(h, *t, pts, ctx, "UnsafeKdTree")) return;
  if (h.coin(0.3)) {
    KdTreeBuilder b; b.max_leaf_size = cfg.leaf;
    KdTree<PointCloud, Proj> kt(cl, b);
    queries<false>(h, kt, pts, ctx, "KdTree");
  }
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.5)) { one<AxisAlignedProjection>(h, "axis"); one<NormalProjection>(h, "normal"); }
  return h.done("random/planar/lattice/duplicate/collinear clouds, all builders, projections and leaf sizes, queries on, near and far from the points, every result compared with a brute-force scan");
}
