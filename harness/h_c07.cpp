// C07: parallel sorts
#include "common.hpp"
#include <omp.h>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <tbb/global_control.h>
using namespace small_gicp;
typedef std::pair<uint64_t, size_t> KV;
static std::vector<KV> gen(H& h, size_t n, int style) {
  std::vector<KV> v(n);
  for (size_t i = 0; i < n; i++) {
    uint64_t k;
    switch (style) {
      case 0: k = h.rng(); break; case 1: k = h.u(5); break; case 2: k = 7; break; case 3: k = i; break; case 4: k = n - i; break;
      case 5: k = h.u(n + 1) << (8 * h.u(7)); break; case 6: k = (i % 2) ? h.rng() : ~0ull; break; case 7: k = 1ull << h.u(64); break; default: k = h.u(300) + (h.coin() ? 0xff00000000ull : 0); }
    v[i] = {k, i};
  }
  return v;
}
template <typename Lt>
static void check(H& h, const std::string& nm, const std::vector<KV>& in, const std::vector<KV>& out, bool stable, Lt lt) {
  S o; o << nm << " n=" << in.size();
  if (out.size() != in.size()) { h.fail("size", o); return; }
  std::vector<char> seen(in.size(), 0);
  for (size_t i = 0; i < out.size(); i++) {
    size_t s = out[i].second;
    if (s >= in.size() || seen[s] || in[s] != out[i]) { h.fail("perm", S() << std::string(o) << ": element at " << i << " (key " << out[i].first << ", tag " << s << ") is not a fresh input element"); return; }
    seen[s] = 1;
    if (i && lt(out[i], out[i - 1])) { h.fail("order", S() << std::string(o) << ": element " << i << " (key " << out[i].first << ") precedes element " << i - 1 << " (key " << out[i - 1].first << ") in the requested order"); return; }
    if (i && stable && !lt(out[i - 1], out[i]) && out[i - 1].second > s) { h.fail("stable", S() << std::string(o) << ": equal keys reordered at " << i); return; }
  }
}
template <typename Key, int bits, int tile>
static void radix(H& h, size_t n, int style, RadixSortBuffers<KV>& buf) {
  auto in = gen(h, n, style); for (auto& x : in) x.first = (Key)x.first;
  auto v = in;
  v.push_back({1, 1}); KV guard = v.back();
  radix_sort_tbb<KV, std::function<Key(const KV&)>, bits, tile>(v.data(), v.data() + n, [](const KV& x) { return (Key)x.first; }, buf);
  if (v.back() != guard) h.fail("oob", "radix_sort_tbb wrote behind the range");
  v.pop_back();
  check(h, S() << "radix_sort_tbb<" << sizeof(Key) * 8 << "-bit key, bits=" << bits << ", tile=" << tile << "> style=" << style, in, v, true, [](const KV& a, const KV& b) { return a.first < b.first; });
}
int main(int argc, char** argv) {
  H h(argc, argv);
  static const size_t edges[] = {0, 1, 2, 3, 255, 256, 257, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096};
  RadixSortBuffers<KV> buf;
  while (h.more()) {
    size_t n = h.coin(0.4) ? edges[h.u(15)] : h.u(h.coin(0.1) ? 40000 : 5000);
    int style = h.u(9), nt = h.i(1, 10);
    h.caze(S() << "n=" << n << " style=" << style << " threads=" << nt);
    auto in = gen(h, n, style);
    auto lt = [](const KV& a, const KV& b) { return a.first < b.first; };
    auto gt = [](const KV& a, const KV& b) { return a.first > b.first; };
    auto mod = [](const KV& a, const KV& b) { return a.first % 16 < b.first % 16; };
    int c = h.u(3); S nm; nm << " threads=" << nt << " style=" << style << " comparator=" << (c == 0 ? "<" : c == 1 ? ">" : "low 4 bits");
    auto run = [&](auto cmp) {
      { auto v = in; merge_sort_omp(v.begin(), v.end(), cmp, nt); check(h, "merge_sort_omp" + std::string(nm), in, v, false, cmp); }
      { auto v = in; quick_sort_omp(v.begin(), v.end(), cmp, nt); check(h, "quick_sort_omp" + std::string(nm), in, v, false, cmp); }
    };
    if (c == 0) run(lt); else if (c == 1) run(gt); else run(mod);
    { tbb::global_control gc(tbb::global_control::max_allowed_parallelism, nt);
      if (h.coin(0.3)) { RadixSortBuffers<KV> fresh; radix<uint64_t, 8, 256>(h, n, style, fresh); }
      switch (h.u(6)) { case 0: radix<uint64_t, 8, 256>(h, n, style, buf); break; case 1: radix<uint32_t, 8, 256>(h, n, style, buf); break; case 2: radix<uint64_t, 11, 64>(h, n, style, buf); break; case 3: radix<uint32_t, 12, 100>(h, n, style, buf); break; case 4: radix<uint64_t, 4, 16>(h, n, style, buf); break; default: radix<uint64_t, 16, 1000>(h, n, style, buf); } }
    h.eval(hmix(hmix(n, style), nt * 4 + c));
    h.sample(S() << "n=" << n << std::string(nm));
  }
  return h.done("merge_sort_omp, quick_sort_omp (three strict weak orders) and radix_sort_tbb (32/64-bit keys, five bits/tile configurations, reused buffers) on 0..40000 elements with random, constant, few-valued, sorted, reversed, sparse and single-bit keys, 1..10 threads; distinct = size x style x threads x order");
}
