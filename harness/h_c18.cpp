// C18: the convenience functions and the PCL class honour their settings, for random settings and call histories
#include "h_kd.hpp"
#include <iostream>
#include <pcl/point_types.h>
#include <pcl/console/print.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#ifdef VP_HELPER
#include VP_HELPER
#endif
using M4 = Eigen::Matrix4d; using T3 = Eigen::Isometry3d;
static std::vector<unsigned> g_nt; static bool g_rec = false;
extern "C" { void __real_GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
void __wrap_GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned fl) { if (g_rec) g_nt.push_back(n); __real_GOMP_parallel(f, d, n, fl); } }
static std::string threads(int nt) {                       // "" if every parallel region asked for nt threads
  bool some = nt == 1;
  for (unsigned x : g_nt) { if ((int)x != nt) return S() << "a parallel region asked for " << x << " threads, configured " << nt; some = true; }
  return some ? "" : std::string(S() << "no parallel region ran, configured " << nt << " threads");
}
static T3 rT(H& h, double a, double t) { Eigen::Vector3d ax(h.r(-1, 1), h.r(-1, 1), h.r(-1, 1)); T3 T = T3::Identity(); T.linear() = Eigen::AngleAxisd(h.r(-a, a), ax.normalized()).toRotationMatrix(); for (int k = 0; k < 3; k++) T.translation()[k] = h.r(-t, t); return T; }
static std::vector<V4> scene(H& h, int n, double noise) {   // three bumpy surfaces
  std::vector<V4> v(n); double w = h.r(2, 6), c = h.r(0.1, 0.5);
  for (int i = 0; i < n; i++) { double a = h.r(0, w), b = h.r(0, w), z = c * std::sin(a + 0.5 * b) + h.r(-noise, noise); V4 p(1, 1, 1, 1); int k = h.u(3); p[k] = z + 1; p[(k + 1) % 3] = a + 1; p[(k + 2) % 3] = b + 1; for (int j = 0; j < 3; j++) p[j] = float(p[j]); v[i] = p; }
  return v;
}
static std::vector<V4> moved(H& h, const std::vector<V4>& v, const T3& T, double noise) { std::vector<V4> o; T3 I = T.inverse(); for (auto& p : v) if (h.coin(0.8)) { V4 q = I * p; for (int j = 0; j < 3; j++) q[j] = float(q[j] + h.r(-noise, noise)); q[3] = 1; o.push_back(q); } return o; }
struct Cfg { int type = 2, nt = 1, iters = 20; double res = 1, dist = 1, re = 0.1 * M_PI / 180, te = 1e-3; };
template <class F, class TG, class TR> RegistrationResult ref1(const Cfg& c, const TG& t, const PointCloud& s, const TR& tree, const T3& T0) {
  Registration<F, SerialReduction> g; g.criteria.rotation_eps = c.re; g.criteria.translation_eps = c.te; g.rejector.max_dist_sq = c.dist * c.dist; g.optimizer.max_iterations = c.iters;
  return g.align(t, s, tree, T0);
}
static RegistrationResult ref(const Cfg& c, const std::shared_ptr<PointCloud>& t, const PointCloud& s, const T3& T0) {
  if (c.type == 3) { GaussianVoxelMap m(c.res); m.insert(*t); return ref1<GICPFactor>(c, m, s, m, T0); }
  KdTree<PointCloud> tree(t);
  return c.type == 0 ? ref1<ICPFactor>(c, *t, s, tree, T0) : c.type == 1 ? ref1<PointToPlaneICPFactor>(c, *t, s, tree, T0) : ref1<GICPFactor>(c, *t, s, tree, T0);
}
static std::string cmp(const RegistrationResult& a, const RegistrationResult& b, double tol) {
  if (a.iterations != b.iterations) return S() << "ran " << a.iterations << " iterations, reference " << b.iterations;
  if (a.converged != b.converged) return S() << "converged=" << a.converged << ", reference " << b.converged;
  if (a.num_inliers != b.num_inliers) return S() << a.num_inliers << " inliers, reference " << b.num_inliers;
  if (!((a.T_target_source.matrix() - b.T_target_source.matrix()).cwiseAbs().maxCoeff() < tol)) return S() << "pose\n" << a.T_target_source.matrix() << "\nreference\n" << b.T_target_source.matrix();
  if (!((a.H - b.H).norm() <= tol * (1 + b.H.norm())) || !((a.b - b.b).norm() <= tol * (1 + b.b.norm() + b.H.norm())) || !(std::abs(a.error - b.error) <= tol * (1 + b.error))) return S() << "information matrix, vector or error differ: H(0,0)=" << a.H(0, 0) << " error=" << a.error << ", reference H(0,0)=" << b.H(0, 0) << " error=" << b.error;
  return "";
}
static bool stable(const Cfg& c, const std::shared_ptr<PointCloud>& t, const PointCloud& s, const T3& T0, const RegistrationResult& r) {
  if (s.points == t->points) return false;                 // aligning a cloud with itself: every decision is at rounding level
  for (double e : {3e-10, -2e-10, 5e-9, -4e-12}) {
    Cfg q = c; double f = e > 0 ? 1.1 : 0.9; q.re *= f; q.te *= f;
    T3 T = T0; T.translation() += Eigen::Vector3d(e, -e, e * 0.5); T.linear() = T.linear() * Eigen::AngleAxisd(e, Eigen::Vector3d(0.6, 0, 0.8)).toRotationMatrix(); if (!cmp(ref(q, t, s, T), r, 1e-6).empty()) return false; }
  return true;
}
// a mismatch counts only if the reference is insensitive to many tiny perturbations (rounding-level decisions are not)
static bool firm(const Cfg& c, const std::shared_ptr<PointCloud>& t, const PointCloud& s, const T3& T0, const RegistrationResult& r) {
  for (int i = 0; i < 40; i++) {
    double e = (i % 2 ? 1 : -1) * std::pow(10, -13 + i % 5); Cfg q = c; q.re *= 1 + e; q.te *= 1 + e;
    T3 T = T0; T.translation() += Eigen::Vector3d(e, -e * (i % 3), e * 0.5); T.linear() = T.linear() * Eigen::AngleAxisd(e, Eigen::Vector3d(0.6, 0, 0.8)).toRotationMatrix(); if (!cmp(ref(q, t, s, T), r, 1e-6).empty()) return false; }
  return true;
}
static Cfg rcfg(H& h) {
  Cfg c; c.type = h.u(4); c.nt = h.i(1, 5);
  c.iters = h.coin(0.5) ? h.i(0, 5) : h.i(5, 40); c.res = h.r(0.4, 2); c.dist = h.coin(0.6) ? h.r(0.05, 0.6) : h.r(0.6, 4);
  c.re = std::pow(10, h.r(-5, -0.3)); c.te = std::pow(10, h.r(-5, 0)); return c;
}
static const char* TN[] = {"ICP", "PLANE_ICP", "GICP", "VGICP"};
static std::string cs(const Cfg& c) { return S() << TN[c.type] << " threads=" << c.nt << " max_iterations=" << c.iters << " voxel_resolution=" << c.res << " max_correspondence_distance=" << c.dist << " rotation_eps=" << c.re << " translation_eps=" << c.te; }
static std::vector<V4> sorted(const std::vector<V4>& v) { auto s = v; std::sort(s.begin(), s.end(), [](const V4& a, const V4& b) { for (int k = 0; k < 4; k++) if (a[k] != b[k]) return a[k] < b[k]; return false; }); return s; }
template <class T, int D> static std::vector<Eigen::Matrix<T, D, 1>> as(const std::vector<V4>& v) { std::vector<Eigen::Matrix<T, D, 1>> o(v.size()); for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < D; k++) o[i][k] = T(v[i][k]); return o; }
static const char* EN[] = {"Vector3f", "Vector4f", "Vector3d", "Vector4d"};

static void prep_case(H& h) {
  auto v = scene(h, h.i(20, 900), 0.01); auto pc = to_cloud(v); double res = h.coin(0.5) ? h.r(0.1, 0.5) : h.r(0.5, 1.5); int k = h.i(5, 25), nt = h.i(1, 5), e = h.u(5);
  S d; d << "preprocess_points(" << (e == 4 ? "PointCloud" : EN[e]) << ", " << res << ", num_neighbors=" << k << ", num_threads=" << nt << ") of " << v.size() << " points"; h.caze(d);
  g_nt.clear(); g_rec = true;
  auto r = e == 0 ? preprocess_points(as<float, 3>(v), res, k, nt) : e == 1 ? preprocess_points(as<float, 4>(v), res, k, nt) : e == 2 ? preprocess_points(as<double, 3>(v), res, k, nt) : e == 3 ? preprocess_points(as<double, 4>(v), res, k, nt) : preprocess_points(*pc, res, k, nt);
  g_rec = false; h.eval(hmix(hd(res), k * 32 + nt * 4 + e));
  std::string m = threads(nt); if (!m.empty()) { h.fail("threads", S() << std::string(d) << ": " << m); return; }
  auto want = voxelgrid_sampling(*pc, res); auto a = sorted(r.first->points), b = sorted(want->points);
  bool same = a.size() == b.size(); for (size_t i = 0; same && i < a.size(); i++) same = (a[i] - b[i]).norm() < 1e-9;
  if (!same) { h.fail("preprocess", S() << std::string(d) << ": the downsampled cloud has " << a.size() << " points and is not the voxel-grid sampling of the input (" << b.size() << " points)"); return; }
  if (r.second->points != r.first) { h.fail("preprocess", S() << std::string(d) << ": the tree is not built over the returned cloud"); return; }
  PointCloud q(*r.first); q.covs.assign(q.size(), M4::Zero()); q.normals.assign(q.size(), V4::Zero()); KdTree<PointCloud> kd(r.first); estimate_normals_covariances(q, kd, k);
  if (r.first->normals.size() != q.size() || r.first->covs.size() != q.size()) { h.fail("preprocess", S() << std::string(d) << ": normals or covariances missing"); return; }
  for (size_t i = 0; i < q.size(); i++) {
    size_t j; double sq; r.second->nearest_neighbor_search(q.point(i), &j, &sq);
    if (sq != 0) { h.fail("preprocess", S() << std::string(d) << ": the tree does not find point " << i << " of the returned cloud"); return; }
    if (!((q.normal(i) - r.first->normal(i)).norm() < 1e-6) || !((q.cov(i) - r.first->cov(i)).norm() < 1e-6)) { h.fail("preprocess", S() << std::string(d) << ": normal or covariance of point " << i << " is not that of its " << k << " nearest neighbours"); return; }
  }
  double vr = h.r(0.3, 2); auto vm = create_gaussian_voxelmap(*r.first, vr); GaussianVoxelMap w(vr); w.insert(*r.first);
  if (vm->size() != w.size()) { h.fail("voxelmap", S() << std::string(d) << ", create_gaussian_voxelmap with resolution " << vr << ": " << vm->size() << " voxels, reference " << w.size()); return; }
  for (auto& p : r.first->points) { size_t i, j; double x, y; size_t f = traits::nearest_neighbor_search(*vm, p, &i, &x), g = traits::nearest_neighbor_search(w, p, &j, &y);
    if (f != g || (f && !((traits::point(*vm, i) - traits::point(w, j)).norm() < 1e-9 && (traits::cov(*vm, i) - traits::cov(w, j)).norm() < 1e-9))) { h.fail("voxelmap", S() << std::string(d) << ", create_gaussian_voxelmap with resolution " << vr << ": voxel at " << vs(p) << " differs from the reference"); return; } }
}
static void help_case(H& h) {
  Cfg c = rcfg(h); auto tv = scene(h, h.i(60, 500), 0.01); T3 G = rT(h, 0.08, 0.15); auto sv = moved(h, tv, G, 0.01); T3 T0 = h.coin(0.3) ? T3::Identity() : rT(h, 0.05, 0.1);
  int e = h.u(6); double ds = h.r(0.15, 0.5);                // 0..3: Eigen input; 4,5: preprocessed clouds
  auto tp = to_cloud(tv), sp = to_cloud(sv);
  RegistrationSetting st; st.type = RegistrationSetting::RegistrationType(c.type); st.voxel_resolution = c.res; st.downsampling_resolution = ds; st.max_correspondence_distance = c.dist; st.rotation_eps = c.re; st.translation_eps = c.te; st.num_threads = c.nt; st.max_iterations = c.iters;
  if (e < 4) { tp = voxelgrid_sampling(*tp, ds); sp = voxelgrid_sampling(*sp, ds); }
  if (sp->size() < 8 || tp->size() < 8) return;
  estimate_normals_covariances(*tp, 10); estimate_normals_covariances(*sp, 10);
  auto r = ref(c, tp, *sp, T0); if (!stable(c, tp, *sp, T0, r)) return;
  S d; d << "align(" << (e < 4 ? EN[e] : c.type == 3 ? "GaussianVoxelMap" : "PointCloud") << ") " << cs(c) << " downsampling_resolution=" << ds << ", " << tv.size() << " target and " << sv.size() << " source points, init_T translation " << T0.translation().transpose(); h.caze(d);
  PointCloud st0(*sp), tt0(*tp); RegistrationResult a(T3::Identity());
  std::shared_ptr<KdTree<PointCloud>> tree; GaussianVoxelMap::Ptr vm; if (e >= 4) { if (c.type == 3) vm = create_gaussian_voxelmap(*tp, c.res); else tree = std::make_shared<KdTree<PointCloud>>(tp); }
  std::string m;
  for (int rep = 0; rep < 3; rep++) {
  g_nt.clear(); g_rec = true;
  switch (e) { case 0: a = align(as<float, 3>(tv), as<float, 3>(sv), T0, st); break; case 1: a = align(as<float, 4>(tv), as<float, 4>(sv), T0, st); break; case 2: a = align(as<double, 3>(tv), as<double, 3>(sv), T0, st); break; case 3: a = align(as<double, 4>(tv), as<double, 4>(sv), T0, st); break; default: a = c.type == 3 ? align(*vm, *sp, T0, st) : align(*tp, *sp, *tree, T0, st); }
  g_rec = false; if (!rep) { h.eval(hmix(hmix(hd(c.re), c.type * 64 + c.nt * 8 + e), c.iters)); h.sample(d); }
  m = cmp(a, r, 1e-5); if (m.empty() || (rep == 0 && !firm(c, tp, *sp, T0, r))) { m = ""; break; } }
  if (m.empty() && (c.iters > 0 || e < 4)) m = threads(c.nt);
  if (!m.empty()) h.fail("helper", S() << std::string(d) << ": " << m);
  if (e >= 4 && (st0.points != sp->points || tt0.points != tp->points || tt0.covs != tp->covs)) h.fail("helper", S() << std::string(d) << ": an input cloud was changed");
}
using P = pcl::PointXYZ; using PC = pcl::PointCloud<P>;
struct Cl { PC::Ptr p; std::shared_ptr<PointCloud> c; int id; };
struct Model { Cl src, tgt; std::vector<M4> sc, tc; Cfg c; int k = 20; };
static std::vector<M4> est(const std::shared_ptr<PointCloud>& c, int k) { PointCloud q(*c); KdTree<PointCloud> kd(c); estimate_covariances(q, kd, k); return q.covs; }
static std::vector<M4> rcovs(H& h, const std::shared_ptr<PointCloud>& c) { auto v = est(c, h.i(5, 30)); double s = h.r(0.5, 3); for (auto& m : v) { m *= s; for (int k = 0; k < 3; k++) m(k, k) += h.r(0, 0.05); } return v; }
static void pcl_case(H& h) {
  RegistrationPCL<P, P> g; Model m; m.c.re = 2e-3; m.c.te = 5e-4; m.c.dist = 1000; m.c.nt = 4; m.c.iters = 10; m.c.type = 2;
  std::vector<Cl> cl; auto base = scene(h, h.i(80, 300), 0.01); int nc = h.i(2, 4);
  for (int i = 0; i < nc; i++) { Cl x; x.id = i; auto v = moved(h, base, rT(h, 0.06, 0.12), 0.01); x.c = to_cloud(v); x.p.reset(new PC); for (auto& q : v) x.p->push_back(P(q[0], q[1], q[2])); cl.push_back(x); }
  std::ostringstream hist; hist << std::setprecision(9); int steps = h.i(4, 30), aligns = 0;
  for (int s = 0; s < steps && h.fails < h.max_fail; s++) {
    int op = h.coin(0.3) ? 100 : h.u(15);
    if (!m.src.p && h.coin(0.7)) op = 0; else if (!m.tgt.p && h.coin(0.7)) op = 1;
    switch (op) {
      case 0: { auto& x = cl[h.u(nc)]; hist << " setInputSource(#" << x.id << ")"; g.setInputSource(x.p); if (m.src.p != x.p) { m.src = x; m.sc.clear(); } break; }
      case 1: { auto& x = cl[h.u(nc)]; hist << " setInputTarget(#" << x.id << ")"; g.setInputTarget(x.p); if (m.tgt.p != x.p) { m.tgt = x; m.tc.clear(); } break; }
      case 2: { int n = h.i(-1, 5); hist << " setNumThreads(" << n << ")"; g.setNumThreads(n); m.c.nt = std::max(1, n); break; }
      case 3: case 4: { int k = h.i(2, 40); hist << (op == 3 ? " setCorrespondenceRandomness(" : " setNumNeighborsForCovariance(") << k << ")"; if (op == 3) g.setCorrespondenceRandomness(k); else g.setNumNeighborsForCovariance(k); m.k = std::max(5, k); break; }
      case 5: { double r = h.coin(0.1) ? -0.5 : h.r(0.3, 2.5); hist << " setVoxelResolution(" << r << ")"; g.setVoxelResolution(r); m.c.res = r <= 0 ? 1.0 : r; break; }
      case 6: { double e = std::pow(10, h.r(-5, -0.3)); hist << " setRotationEpsilon(" << e << ")"; g.setRotationEpsilon(e); m.c.re = e; break; }
      case 7: { double e = std::pow(10, h.r(-5, 0)); hist << " setTransformationEpsilon(" << e << ")"; g.setTransformationEpsilon(e); m.c.te = e; break; }
      case 8: { int n = h.i(1, 25); hist << " setMaximumIterations(" << n << ")"; g.setMaximumIterations(n); m.c.iters = n; break; }
      case 9: { double x = h.r(0.05, 2); hist << " setMaxCorrespondenceDistance(" << x << ")"; g.setMaxCorrespondenceDistance(x); m.c.dist = x; break; }
      case 10: { const char* t = h.coin(0.45) ? "GICP" : h.coin(0.85) ? "VGICP" : "ICP"; hist << " setRegistrationType(" << t << ")"; g.setRegistrationType(t); if (t == std::string("GICP")) m.c.type = 2; else if (t == std::string("VGICP")) m.c.type = 3; break; }
      case 11: case 12: { auto& x = op == 11 ? m.src : m.tgt; std::vector<M4> v; if (x.p) v = rcovs(h, x.c); bool bad = !x.p || h.coin(0.15); if (bad) v.push_back(M4::Identity()); hist << (op == 11 ? " setSourceCovariances(" : " setTargetCovariances(") << v.size() << " matrices" << (bad ? ", wrong size" : "") << ")";
        if (op == 11) g.setSourceCovariances(v); else g.setTargetCovariances(v); if (!bad) (op == 11 ? m.sc : m.tc) = v; break; }
      case 13: hist << " swapSourceAndTarget()"; g.swapSourceAndTarget(); std::swap(m.src, m.tgt); std::swap(m.sc, m.tc); break;
      case 14: if (h.coin()) { hist << " clearSource()"; g.clearSource(); m.src = Cl(); m.sc.clear(); } else { hist << " clearTarget()"; g.clearTarget(); m.tgt = Cl(); m.tc.clear(); } break;
      default: {
        if (!m.src.p || !m.tgt.p) break;
        if (m.sc.empty()) m.sc = est(m.src.c, m.k);
        if (m.tc.empty()) m.tc = est(m.tgt.c, m.k);
        Eigen::Matrix4f guess = (h.coin(0.3) ? T3::Identity() : rT(h, 0.03, 0.06)).matrix().cast<float>(); T3 T0(guess.cast<double>()); PC out;
        hist << " align(init " << guess(0, 3) << "," << guess(1, 3) << "," << guess(2, 3) << ")"; S d; d << "RegistrationPCL, clouds of"; for (auto& x : cl) d << " " << x.p->size(); d << " points:" << hist.str(); h.caze(d);
        auto t = std::make_shared<PointCloud>(*m.tgt.c); t->covs = m.tc; PointCloud sp(*m.src.c); sp.covs = m.sc;
        auto r = ref(m.c, t, sp, T0); bool st = stable(m.c, t, sp, T0, r);
        g_nt.clear(); g_rec = true; g.align(out, guess); g_rec = false; h.eval(hmix(hmix(aligns++, s * 64 + op), hd(m.c.re))); h.sample(d);
        auto& a = g.getRegistrationResult(); std::string e = st ? cmp(a, r, 1e-5) : "";
        if (!e.empty() && !firm(m.c, t, sp, T0, r)) e = "";
        for (int rep = 0; !e.empty() && rep < 2; rep++) { PC o2; g.align(o2, guess); e = cmp(g.getRegistrationResult(), r, 1e-5); }
        if (e.empty()) e = threads(m.c.nt);
        if (e.empty() && g.hasConverged() != a.converged) e = "hasConverged() disagrees with the result";
        if (e.empty() && !((g.getFinalTransformation() - a.T_target_source.matrix().cast<float>()).norm() < 1e-6)) e = "getFinalTransformation() is not the result's pose";
        if (e.empty() && g.getFinalHessian() != a.H) e = "getFinalHessian() is not the result's";
        if (e.empty() && out.size() != m.src.p->size()) e = "wrong output cloud size";
        for (size_t i = 0; e.empty() && i < out.size(); i++) if (!((out[i].getVector3fMap() - (g.getFinalTransformation() * m.src.p->at(i).getVector4fMap()).head<3>()).norm() < 1e-4)) e = S() << "output point " << i << " is not the transformed source point";
        if (!e.empty()) h.fail("pcl", S() << std::string(d) << ": " << e);
        break; } }
    if (m.src.p && m.sc.size() && op < 100 && h.coin(0.3)) { auto& v = g.getSourceCovariances(); bool same = v.size() == m.sc.size(); for (size_t i = 0; same && i < v.size(); i++) same = (v[i] - m.sc[i]).norm() < 1e-5; if (!same) h.fail("pcl", S() << "RegistrationPCL:" << hist.str() << ": getSourceCovariances() differs from the covariances in force"); }
    if (m.tgt.p && m.tc.size() && op < 100 && h.coin(0.3)) { auto& v = g.getTargetCovariances(); bool same = v.size() == m.tc.size(); for (size_t i = 0; same && i < v.size(); i++) same = (v[i] - m.tc[i]).norm() < 1e-5; if (!same) h.fail("pcl", S() << "RegistrationPCL:" << hist.str() << ": getTargetCovariances() differs from the covariances in force"); }
  }
}
int main(int argc, char** argv) {
  H h(argc, argv); pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  for (int i = 0; h.more(); i++) { if (i % 8 == 0) prep_case(h); else if (i % 2) help_case(h); else pcl_case(h); }
  return h.done("random settings (type, threads 1..5, iteration limits from 0, thresholds, distances, resolutions, initial poses) on surfaces of 60..500 points for every align/preprocess overload, against Registration configured by hand with the serial reduction; random histories of 4..30 setter, swap, clear and align calls of RegistrationPCL against a reference that keeps only the settings and covariances; cases where the reference itself is unstable are skipped; distinct = (settings, entry, iteration limit)");
}
