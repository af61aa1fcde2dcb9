// Structural validity of every built tree (run under AddressSanitizer).
#include "h_kd.hpp"
template <class Proj> static void one(H& h, const char* nm) {
  int n = h.coin(0.4) ? h.i(1, 9) : h.coin(0.7) ? h.i(1, 150) : h.i(600, h.coin(0.3) ? 6000 : 1500);
  auto pts = gen_cloud(h, n);
  auto cl = to_cloud(pts);
  TreeCfg cfg = rand_cfg(h);
  std::string ctx = std::string(nm) + " " + cfg.str() + (S() << " n=" << n).operator std::string();
  h.caze(ctx);
  h.eval(hmix(hmix(n, cfg.leaf * 64 + cfg.builder), hd(pts[0][0])));
  auto t = make_tree<Proj>(*cl, cfg);
  auto bad = [&](const std::string& m) { h.fail("tree", m + "; " + ctx + "\n" + dump(pts)); };
  if (t->indices.size() != size_t(n)) return bad("index storage does not have one slot per point");
  std::vector<int> in(n, 0), slot(n, 0);
  double sc = 1e-12; for (auto& p : pts) sc = std::max(sc, p.head<3>().norm());
  std::vector<char> vis(t->nodes.size(), 0);
  std::vector<int> cov(n, 0);
  bool ok = true;
  std::function<void(size_t, int, std::vector<size_t>&)> rec = [&](size_t id, int depth, std::vector<size_t>& out) {
    if (!ok) return;
    if (id >= t->nodes.size()) { ok = false; return bad((S() << "child index " << id << " outside the " << t->nodes.size() << " nodes").operator std::string()); }
    if (vis[id]++) { ok = false; return bad("a node is reachable twice"); }
    if (depth > 200) { ok = false; return bad("tree too deep"); }
    auto& nd = t->nodes[id];
    if (nd.left == INVALID_NODE) {
      if (nd.node_type.lr.last < nd.node_type.lr.first || nd.node_type.lr.last > size_t(n)) { ok = false; return bad("leaf range outside the index storage"); }
      if (int(nd.node_type.lr.last - nd.node_type.lr.first) > cfg.leaf) { ok = false; return bad((S() << "leaf holds " << nd.node_type.lr.last - nd.node_type.lr.first << " points").operator std::string()); }
      for (size_t i = nd.node_type.lr.first; i < nd.node_type.lr.last; i++) { cov[i]++; size_t j = t->indices[i]; if (j >= size_t(n)) { ok = false; return bad("index out of range"); } in[j]++; out.push_back(j); }
      return;
    }
    std::vector<size_t> l, r;
    rec(nd.left, depth + 1, l); rec(nd.right, depth + 1, r);
    if (!ok) return;
    for (auto i : l) if (nd.node_type.sub.proj(pts[i]) > nd.node_type.sub.thresh + 1e-9 * sc) { ok = false; return bad((S() << "point " << i << " on the left of node " << id << " projects above its threshold").operator std::string()); }
    for (auto i : r) if (nd.node_type.sub.proj(pts[i]) < nd.node_type.sub.thresh - 1e-9 * sc) { ok = false; return bad((S() << "point " << i << " on the right of node " << id << " projects below its threshold").operator std::string()); }
    out.insert(out.end(), l.begin(), l.end()); out.insert(out.end(), r.begin(), r.end());
  };
  std::vector<size_t> all;
  rec(t->root, 0, all);
  if (!ok) return;
  for (int i = 0; i < n; i++) if (in[i] != 1) return bad((S() << "point " << i << " is in " << in[i] << " leaf slots").operator std::string());
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.6)) { one<AxisAlignedProjection>(h, "axis"); one<NormalProjection>(h, "normal"); }
  return h.done("random/planar/lattice/duplicate clouds x builders x projections x leaf sizes x threads; every node and leaf of the built tree checked, under AddressSanitizer");
}
