#include "common.hpp"
#include <small_gicp/ann/knn_result.hpp>
using namespace small_gicp;
struct Off { size_t off = 0; size_t operator()(size_t i) const { return i + off; } };
template <int N, class T>
void one(H& h, int k, const T& tr, size_t off) {
  int n = h.coin(0.2) ? h.i(0, 3) : h.i(0, 3 * k + 4);
  std::vector<size_t> ib(k + 8, 0xABCDEF); std::vector<double> db(k + 8, -77.0);
  KnnResult<N, T> R(ib.data() + 4, db.data() + 4, N > 0 ? -1 : k, tr);
  int mode = h.i(0, 5);
  std::vector<std::pair<size_t, double>> off_;
  std::string tx;
  uint64_t hh = k * 31 + n;
  auto check = [&](const char* when) {
    size_t m = std::min<size_t>(k, off_.size());
    std::string ctx = S() << "capacity " << k << (N > 0 ? " (static)" : " (dynamic)") << ", offered (index:distance) " << tx << " -> " << when << ": ";
    if (R.num_found() != m) { h.fail("count", ctx + (S() << "num_found " << R.num_found() << " expected " << m).operator std::string()); return false; }
    std::vector<double> ds; for (auto& o : off_) ds.push_back(o.second);
    std::sort(ds.begin(), ds.end());
    std::vector<char> used(off_.size(), 0);
    for (size_t j = 0; j < m; j++) {
      if (db[4 + j] != ds[j]) { h.fail("distance", ctx + (S() << "entry " << j << " has distance " << db[4 + j] << " expected " << ds[j]).operator std::string()); return false; }
      bool ok = false;
      for (size_t t = 0; t < off_.size(); t++) if (!used[t] && off_[t].second == db[4 + j] && off_[t].first + off == ib[4 + j]) { used[t] = 1; ok = true; break; }
      if (!ok) { h.fail("entry", ctx + (S() << "entry " << j << " (" << ib[4 + j] << "," << db[4 + j] << ") was never offered or is used twice").operator std::string()); return false; }
    }
    for (int j = m; j < k; j++) if (ib[4 + j] != size_t(-1) || db[4 + j] != std::numeric_limits<double>::max()) { h.fail("tail", ctx + (S() << "unused slot " << j << " not invalid").operator std::string()); return false; }
    double w = (int)m == k ? ds[k - 1] : std::numeric_limits<double>::max();
    if (R.worst_distance() != w) { h.fail("worst", ctx + (S() << "worst_distance " << R.worst_distance() << " expected " << w).operator std::string()); return false; }
    for (int g = 0; g < 4; g++) if (ib[g] != 0xABCDEF || ib[4 + k + g] != 0xABCDEF || db[g] != -77 || db[4 + k + g] != -77) { h.fail("guard", ctx + "memory outside the k-element buffers written"); return false; }
    return true;
  };
  if (!check("initially")) return;
  for (int t = 0; t < n; t++) {
    double d;
    switch (mode) { case 0: d = h.r(0, 1); break; case 1: d = h.i(0, 3); break; case 2: d = t; break; case 3: d = n - t; break; case 4: d = 1.0; break; default: d = h.coin() ? h.r(0, 1) : double(h.i(0, 2)); }
    size_t idx = h.coin(0.05) ? size_t(1) << 40 : size_t(h.i(0, 1000));
    R.push(idx, d);
    off_.push_back({idx, d});
    tx += (S() << idx << ":" << d << " ").operator std::string();
    hh = hmix(hh, hd(d) ^ idx);
    if (!check((S() << "after push " << t).operator std::string().c_str())) return;
  }
  h.eval(hh);
  if (n > 4) h.sample(S() << "k=" << k << " N=" << N << " offered " << tx);
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.4)) {
    for (int r = 0; r < 50; r++) {
      int k = h.coin() ? h.i(1, 6) : h.i(1, 40);
      one<-1, identity_transform>(h, k, identity_transform(), 0);
      one<-1, Off>(h, k, Off{size_t(1) << 33}, size_t(1) << 33);
      one<1, identity_transform>(h, 1, identity_transform(), 0);
      one<1, Off>(h, 1, Off{77}, 77);
      one<2, identity_transform>(h, 2, identity_transform(), 0);
      one<5, Off>(h, 5, Off{7}, 7);
      one<10, identity_transform>(h, 10, identity_transform(), 0);
    }
  }
  return h.done("random push histories (random/tied/ascending/descending distances), every prefix compared with a sorted reference; non-trivial = at least one push");
}
