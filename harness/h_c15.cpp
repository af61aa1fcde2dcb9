// Optimisers: every field of the result is recomputed from the recorded calls of the optimiser.
#include "h_kd.hpp"
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/optimizer.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/termination_criteria.hpp>
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
using Iso = Eigen::Isometry3d;
static double objf(uint64_t salt, const Iso& T, int mode) {     // an arbitrary function of the pose
  if (mode == 0) { uint64_t h = salt; for (int k = 0; k < 16; k++) h = hmix(h, hd(T.matrix().data()[k])); return double(h >> 40) / 1e6; }
  if (mode == 1) return 1.0;                                   // flat
  if (mode == 2) { Iso D = T; double v = (D.translation() - Eigen::Vector3d(1, -2, 0.5)).squaredNorm() + (D.linear() - Eigen::Matrix3d::Identity()).squaredNorm(); return v; }
  return double(salt %  1000);                          // depends on the linearisation only
}
struct Epoch { Iso T; M6 Hr, H; V6 br, b; std::vector<std::pair<Iso, double>> trial; double e; std::vector<V6> d; };
struct Log { std::vector<Epoch> ep; uint64_t salt; int mode, sys; H* h; bool bad = false; std::string why; };
struct SF { bool in; bool inlier() const { return in; } };
struct SRed {
  Log* l;
  template <class A, class B, class C, class D> std::tuple<M6, V6, double> linearize(const A&, const B&, const C&, const D&, const Iso& T, std::vector<SF>& f) {
    Epoch e; e.T = T; M6 A1; for (int k = 0; k < 36; k++) A1.data()[k] = l->h->r(-1, 1);
    e.Hr = A1 * A1.transpose() * l->h->r(0.1, 10);
    if (l->sys == 1) e.Hr.setZero(); if (l->sys == 2) { e.Hr.row(2).setZero(); e.Hr.col(2).setZero(); }
    for (int k = 0; k < 6; k++) e.br[k] = l->sys == 3 ? 0.0 : l->h->r(-1, 1) * (l->sys == 4 ? 1e-4 : 1);
    if (l->sys == 5) { V6 g; g << 0, 0, 0, 2 * (T.translation() - Eigen::Vector3d(1, -2, 0.5)); e.Hr = M6::Identity() * 2; e.br = g; }
    for (auto& x : f) x.in = l->h->coin();
    l->ep.push_back(e);
    return {e.Hr, e.br, 0.75 * objf(l->salt + l->ep.size(), T, l->mode)};
  }
  template <class A, class B> double error(const A&, const B&, const Iso& T, std::vector<SF>&) { return 0.75 * objf(l->salt + l->ep.size(), T, l->mode); }
};
struct SGF {
  Log* l;
  template <class A, class B, class C> void update_linearized_system(const A&, const B&, const C&, const Iso& T, M6* H, V6* b, double* e) const {
    auto& x = l->ep.back(); if (!(*H == x.Hr && *b == x.br)) { l->bad = true; l->why = "general factor did not receive the reduced system"; }
    if (T.matrix() != x.T.matrix()) { l->bad = true; l->why = "general factor linearised at another pose"; }
    *H += M6::Identity() * 0.25; (*b)[0] += l->sys == 3 ? 0 : 0.01; *e += 0.25 * objf(l->salt + l->ep.size(), T, l->mode); x.H = *H; x.b = *b; x.e = *e;
  }
  template <class A, class B> void update_error(const A&, const B&, const Iso& T, double* e) const { *e += 0.25 * objf(l->salt + l->ep.size(), T, l->mode); l->ep.back().trial.push_back({T, *e}); }
};
struct SCrit { TerminationCriteria c; Log* l; bool converged(const V6& d) const { l->ep.back().d.push_back(d); return c.converged(d); } };
static bool feq(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static bool peq(const Iso& a, const Iso& b) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + a.matrix().cwiseAbs().maxCoeff()); }
struct Dummy {};
template <class O> bool check(H& h, const char* nm, const O& opt, const Log& l, const SCrit& c, const Iso& init, const RegistrationResult& r, const std::vector<SF>& f, bool lm, const std::string& at) {
  auto F = [&](const char* key, const std::string& s) { h.fail(std::string(nm) + "-" + key, at + " : " + s); return false; };
  if (l.bad) return F("system", l.why);
  size_t n = l.ep.size();
  if (n < 1 || (int)n > opt.max_iterations) return F("count", S() << n << " linearisations with max_iterations " << opt.max_iterations);
  if (r.iterations + 1 != n) return F("iterations", S() << "reported last iteration " << r.iterations << " of " << n);
  auto& L = l.ep.back();
  if (!(r.H.isApprox(L.H, 1e-12) && (r.b - L.b).norm() <= 1e-12 * (1 + L.b.norm()))) return F("Hb", "H/b are not those of the last linearisation");
  size_t inl = 0; for (auto& x : f) inl += x.in;
  if (r.num_inliers != inl) return F("inliers", S() << "num_inliers " << r.num_inliers << " of " << inl);
  if (!peq(l.ep[0].T, init)) return F("init", "first linearisation is not at the initial pose");
  for (size_t k = 0; k < n; k++) {
    const Iso& nx = k + 1 < n ? l.ep[k + 1].T : r.T_target_source;
    if (lm) {
      bool ok = k + 1 == n && peq(nx, l.ep[k].T); double best = INFINITY;
      for (auto& t : l.ep[k].trial) if (peq(t.first, nx)) best = std::min(best, t.second);
      double e0 = objf(l.salt + k + 1, l.ep[k].T, l.mode);
      if (!ok && !(best <= e0 + 1e-9 * (1 + std::abs(e0)))) return F("worse", S() << "iteration " << k << ": replaced a pose of objective " << e0 << " by one of objective " << best);
    } else {
      if (l.ep[k].d.size() != 1) return F("step", S() << "iteration " << k << ": convergence tested " << l.ep[k].d.size() << " times");
      if (!peq(nx, l.ep[k].T * se3_exp(l.ep[k].d[0]))) return F("pose", S() << "iteration " << k << ": next pose is not the previous one followed by the step");
      V6 res = L.H * V6::Zero(); (void)res;
    }
  }
  double we = lm ? objf(l.salt + n, r.T_target_source, l.mode) : objf(l.salt + n, L.T, l.mode);
  if (!feq(r.error, we)) return F("error", S() << "reported error " << r.error << ", objective is " << we);
  if (r.converged) {
    if (L.d.empty()) return F("conv", "converged although no step was tested in the last iteration");
    const V6& d = L.d.back();
    if (!(d.head<3>().norm() <= c.c.rotation_eps && d.tail<3>().norm() <= c.c.translation_eps)) return F("conv", S() << "converged with a step of rotation " << d.head<3>().norm() << " translation " << d.tail<3>().norm() << " thresholds " << c.c.rotation_eps << " " << c.c.translation_eps);
    if (!peq(r.T_target_source, L.T * se3_exp(d))) return F("conv", "converged but the last step is not part of the pose");
  }
  return true;
}
int main(int argc, char** argv) {
  H h(argc, argv);
  while (h.more(0.55)) {                                        // recorded calls of a synthetic problem
    Log l; l.h = &h; l.salt = h.rng(); l.mode = h.i(0, 3); l.sys = h.i(0, 5); if (h.coin(0.3)) { l.mode = 2; l.sys = 5; }
    SRed red{&l}; SGF g{&l}; SCrit c; c.l = &l; c.c.rotation_eps = std::pow(10, h.r(-6, 1)); c.c.translation_eps = std::pow(10, h.r(-6, 1));
    std::vector<SF> f(h.i(0, 20)); Dummy d;
    Iso T = Iso::Identity(); T.translation() << h.r(-3, 3), h.r(-3, 3), h.r(-3, 3); T.linear() = Eigen::AngleAxisd(h.r(-3, 3), Eigen::Vector3d(h.r(-1, 1), 2, 3).normalized()).toRotationMatrix();
    int mi = h.i(1, 8);
    std::string at = S() << "objective kind " << l.mode << " system kind " << l.sys << " max_iterations " << mi << " factors " << f.size();
    h.eval(hmix(l.salt, mi)); h.sample(at);
    if (h.coin()) { GaussNewtonOptimizer o; o.max_iterations = mi; if (h.coin()) o.lambda = h.coin() ? 1e-3 : 10; at += S() << " GN lambda " << o.lambda; h.caze(at); auto r = o.optimize(d, d, d, d, c, red, T, f, g); check(h, "gn", o, l, c, T, r, f, false, at); }
    else { LevenbergMarquardtOptimizer o; o.max_iterations = mi; o.max_inner_iterations = h.i(1, 10); o.init_lambda = std::pow(10, h.r(-6, 3)); o.lambda_factor = h.r(1.5, 20); at += S() << " LM inner " << o.max_inner_iterations << " lambda " << o.init_lambda; h.caze(at);
      auto r = o.optimize(d, d, d, d, c, red, T, f, g); check(h, "lm", o, l, c, T, r, f, true, at); }
  }
  while (h.more(0.7)) {                                         // termination criteria on its own
    TerminationCriteria c; c.rotation_eps = h.r(0, 1); c.translation_eps = h.r(0, 1); V6 d; for (int k = 0; k < 6; k++) d[k] = h.r(-1, 1) * (h.coin() ? 1 : 0.3);
    if (h.coin(0.1)) d.setZero(); if (h.coin(0.1)) d[h.u(6)] = NAN;
    bool w = d.head<3>().norm() <= c.rotation_eps && d.tail<3>().norm() <= c.translation_eps; h.eval(hd(d[0]));
    if (c.converged(d) && !w) h.fail("criteria", S() << "converged() accepts step " << d.transpose() << " with thresholds rotation " << c.rotation_eps << " translation " << c.translation_eps);
  }
  while (h.more()) {                                            // real clouds and factors
    int n = h.i(3, 60); auto t = to_cloud(gen_cloud(h, n)); auto s = std::make_shared<PointCloud>(*t);
    double ang = h.r(0, 0.6); Iso D = Iso::Identity(); D.linear() = Eigen::AngleAxisd(ang, Eigen::Vector3d(h.r(-1, 1), h.r(-1, 1), 1).normalized()).toRotationMatrix(); D.translation() << h.r(-.3, .3), h.r(-.3, .3), 0;
    for (auto& p : s->points) p = D * p;
    if (s->size() > 4) s->points.resize(s->size() - h.u(3));
    UnsafeKdTree<PointCloud> tree(*t); DistanceRejector rj; rj.max_dist_sq = h.coin() ? 1.0 : h.r(0.001, 3);
    TerminationCriteria c; c.rotation_eps = 1e-3; c.translation_eps = 1e-3; NullFactor g; Iso I = Iso::Identity();
    std::vector<ICPFactor> f(s->size()); bool lm = h.coin(); RegistrationResult r(I); int mi = h.i(1, 20);
    std::string at = S() << (lm ? "LM" : "GN") << " ICP on " << n << "/" << s->size() << " points, max_iterations " << mi; h.caze(at); h.eval(hmix(n, hd(ang)));
    SerialReduction red; ParallelReductionOMP ro; ro.num_threads = 2; bool omp = h.coin(0.3);
    LevenbergMarquardtOptimizer lo; lo.max_iterations = mi; GaussNewtonOptimizer go; go.max_iterations = mi;
    if (omp) r = lm ? lo.optimize(*t, *s, tree, rj, c, ro, I, f, g) : go.optimize(*t, *s, tree, rj, c, ro, I, f, g);
    else r = lm ? lo.optimize(*t, *s, tree, rj, c, red, I, f, g) : go.optimize(*t, *s, tree, rj, c, red, I, f, g);
    size_t inl = 0; for (auto& x : f) inl += x.target_index != std::numeric_limits<size_t>::max();
    if (inl != r.num_inliers) { h.fail("real-inliers", at + (S() << " : num_inliers " << r.num_inliers << " of " << inl).operator std::string()); continue; }
    if ((int)r.iterations >= mi) { h.fail("real-iterations", at + (S() << " : last iteration " << r.iterations).operator std::string()); continue; }
    if (lm) {
      double e = 0; for (size_t k = 0; k < f.size(); k++) if (f[k].target_index < t->size()) { auto res = (t->points[f[k].target_index] - r.T_target_source * s->points[k]).eval(); e += 0.5 * res.head<3>().squaredNorm(); }
      if (!(std::abs(e - r.error) <= 1e-7 * (1 + e))) h.fail("real-error", at + (S() << " : reported error " << r.error << ", factors at the reported pose sum to " << e).operator std::string());
    }
  }
  return h.done("one optimisation: the linearised poses, trial poses and steps recorded and every result field recomputed from them");
}
