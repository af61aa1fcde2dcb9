"""C13: robust kernels weight residuals as the named M-estimator; a robustified factor is its inner factor scaled by that weight."""
from ..common import *
from ..native import run_harness

def nodiv(ex):
    ex.div_check = False      # IEEE division by zero is not an error in itself; a quotient by zero is an arbitrary value here
    return ex

TIMEOUT = 20
ASSUMPTIONS = ['kernel width c > 0', 'the inner factor is any factor whose linearisation, when accepted, leaves a non-negative error (proved of the shipped factors in C12)']
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
using namespace small_gicp;
struct VpTree { int x; };
struct VpRej { int x; };
typedef Eigen::Matrix<double,6,6> M6; typedef Eigen::Matrix<double,6,1> V6;
struct VpF;
bool vp_inner_lin(VpF* f, const PointCloud* t, const PointCloud* s, const VpTree* tree, const Eigen::Isometry3d* T, size_t i, const VpRej* r, M6* H, V6* b, double* e);
double vp_inner_err(const VpF* f, const PointCloud* t, const PointCloud* s, const Eigen::Isometry3d* T);
bool vp_inner_inl(const VpF* f);
void vp_inner_ctor(VpF* f, int a);
struct VpF {
  struct Setting { int a; };
  VpF(const Setting& s) { vp_inner_ctor(this, s.a); }
  bool linearize(const PointCloud& t, const PointCloud& s, const VpTree& tree, const Eigen::Isometry3d& T, size_t i, const VpRej& r, M6* H, V6* b, double* e) { return vp_inner_lin(this, &t, &s, &tree, &T, i, &r, H, b, e); }
  double error(const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& T) const { return vp_inner_err(this, &t, &s, &T); }
  bool inlier() const { return vp_inner_inl(this); }
  size_t data[2];
};
#define F(N, K) typedef RobustFactor<K, VpF> N##_t; bool vp_lin_##N(N##_t& f, const PointCloud& t, const PointCloud& s, const VpTree& tree, const Eigen::Isometry3d& X, size_t i, const VpRej& r, M6* H, V6* b, double* e) { return f.linearize(t, s, tree, X, i, r, H, b, e); } \\
double vp_err_##N(const N##_t& f, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& X) { return f.error(t, s, X); } \\
bool vp_inl_##N(const N##_t& f) { return f.inlier(); } \\
void vp_ctor_##N(N##_t* f, const N##_t::Setting& s) { new (f) N##_t(s); } \\
double vp_w_##N(const K& k, double e) { return k.weight(e); } \\
void vp_kctor_##N(K* k, const K::Setting& s) { new (k) K(s); }
F(huber, Huber) F(cauchy, Cauchy)
'''
def src():
    s = SRC
    for n in ('huber', 'cauchy'):
        s += off_src([('%s_k' % n, n + '_t', 'robust_kernel'), ('%s_f' % n, n + '_t', 'factor'), ('%s_sk' % n, n + '_t::Setting', 'robust_kernel'), ('%s_sf' % n, n + '_t::Setting', 'factor')])
        s += size_src([(n, n + '_t'), ('%s_set' % n, n + '_t::Setting')])
    return s

def wspec(nm, c, e):
    """defining equation of the weight function (denominator form)"""
    a = z3.If(e >= 0, e, -e)
    if nm == 'huber': return z3.If(a <= c, rv(1), c / a)
    return c / (c + e * e)

def prove(ctx):
    u = ctx.unit('c13', src())
    o = Offs(u)
    for nm, cls in (('huber', 'Huber'), ('cauchy', 'Cauchy')):
        kernel(ctx, u, o, nm, cls)
        robust(ctx, u, o, nm, cls)
        lemmas(ctx, nm, cls)

def kernel(ctx, u, o, nm, cls):
    c, e = z3.Real('c'), z3.Real('e')
    def setup(ex, st):
        r = Region('kernel', size=8, const=True); st.mem[(r, 0)] = ('double', c); st.assume(c > 0)
        return [Ptr(r), e]
    def post(ex, st0, st, ret, args):
        w = rv(ret); a = z3.If(e >= 0, e, -e)
        if nm == 'huber': return [('weight is one inside the width', z3.Implies(a <= c, w == 1)), ('weight is width over magnitude outside', z3.Implies(a > c, w * a == c))]
        return [('weight is c / (c + e^2)', w * (c + e * e) == c)]
    ctx.verify(nodiv(ctx.exec(u)), u.one(r'^vp_w_%s\(' % nm), cls + '::weight', setup, post)
    def setup2(ex, st):
        r = Region('setting', size=8, const=True); st.mem[(r, 0)] = ('double', c)
        return [Ptr(Region('kernel', size=8)), Ptr(r)]
    ctx.verify(nodiv(ctx.exec(u)), u.one(r'^vp_kctor_%s\(' % nm), cls + ' constructor', setup2, lambda ex, st0, st, ret, args: [('width taken from the setting', rv(ex.load(st, args[0], 'double')) == c)])

def lemmas(ctx, nm, cls):
    c, a, b, wa, wb = z3.Reals('c a b wa wb')
    ab = lambda x: z3.If(x >= 0, x, -x)
    d = lambda e, w: z3.And(z3.Implies(ab(e) <= c, w == 1), z3.Implies(ab(e) > c, w * ab(e) == c)) if nm == 'huber' else w * (c + e * e) == c
    L = lambda n, h, g: ctx.lemma('%s: %s' % (cls, n), [c > 0] + h, g)
    L('positive', [d(a, wa)], wa > 0)
    L('at most one', [d(a, wa)], wa <= 1)
    L('one at zero residual', [a == 0, d(a, wa)], wa == 1)
    L('even', [a == -b, d(a, wa), d(b, wb)], wa == wb)
    L('non-increasing in the magnitude', [ab(a) <= ab(b), d(a, wa), d(b, wb)], wb <= wa)

def robust(ctx, u, o, nm, cls):
    c = z3.Real('c')
    box = {}
    def common(ex, st, const):
        f = Region('factor', size=o[nm], const=False)
        st.mem[(f, o[nm + '_k'])] = ('double', c); st.assume(c > 0)
        for k in range(2): ex.load(st, Ptr(f, (), o[nm + '_f'] + 8 * k), 'i64')
        rs = dict(f=f, t=Region('target', size=72, const=True), s=Region('source', size=72, const=True), tree=Region('tree', size=8, const=True), X=Region('T', size=128, const=True), rej=Region('rej', size=8, const=True),
                  H=Region('H', size=288), b=Region('b', size=48), e=Region('e', size=8))
        box.update(rs)
        return rs
    def setup(ex, st):
        r = common(ex, st, False)
        i = box['i'] = z3.Int('i')
        return [Ptr(r['f']), Ptr(r['t']), Ptr(r['s']), Ptr(r['tree']), Ptr(r['X']), i, Ptr(r['rej']), Ptr(r['H']), Ptr(r['b']), Ptr(r['e'])]
    def same(p, rg, off=0): return isinstance(p, Ptr) and p.r is box[rg] and p.off == off
    def h_lin(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(same(a[0], 'f', o[nm + '_f']) and all(same(a[k], n) for k, n in ((1, 't'), (2, 's'), (3, 'tree'), (4, 'X'), (6, 'rej')))), 'inner factor is linearised on the same clouds, tree, pose and rejector', 'call')
        ex.oblige(st, iv(a[5]) == box['i'], 'inner factor is linearised at the same source point', 'call')
        for k in range(2): ex.store(st, Ptr(box['f'], (), o[nm + '_f'] + 8 * k), fint('inner'), 'i64')
        no = st.copy(); no.mem[('ghost', 'acc')] = z3.BoolVal(False)
        st.mem[('ghost', 'acc')] = z3.BoolVal(True)
        hv = [freal('H') for _ in range(36)]; bv = [freal('b') for _ in range(6)]; e = freal('e')
        st.assume(e >= 0)
        for k in range(36): ex.store(st, ex.padd_const(a[7], 8 * k), hv[k], 'double')
        for k in range(6): ex.store(st, ex.padd_const(a[8], 8 * k), bv[k], 'double')
        ex.store(st, a[9], e, 'double')
        box['v'] = (hv, bv, e)
        box['n'] = box.get('n', 0) + 1
        return [(st, True), (no, False)]
    def post(ex, st0, st, ret, args):
        ret = bv_(ex.asbool(ret))
        if ('ghost', 'acc') not in st.mem: return [('the inner factor decides acceptance', z3.BoolVal(False))]
        if z3.is_false(st.mem[('ghost', 'acc')]): return [('a rejected correspondence stays rejected', z3.Not(ret))]
        hv, bv, e = box['v']
        s_ = ex.sqrt(st, e)
        w = wspec(nm, c, s_)
        ld = lambda rg, k: rv(ex.load(st, Ptr(box[rg], (), 8 * k), 'double', False))
        return [('accepted stays accepted', ret)] + [('H scaled by the weight [%d]' % k, ld('H', k) == w * hv[k]) for k in range(36)] + [('b scaled by the weight [%d]' % k, ld('b', k) == w * bv[k]) for k in range(6)] + [('e scaled by the weight', ld('e', 0) == w * e), ('the kernel is unchanged', rv(ex.load(st, Ptr(box['f'], (), o[nm + '_k']), 'double', False)) == c)]
    H = [(r'^vp_inner_lin\(', h_lin)]
    ctx.verify(nodiv(ctx.exec(u, H)), u.one(r'^vp_lin_%s\(' % nm), 'RobustFactor<%s>::linearize' % cls, setup, post)
    def setup_e(ex, st):
        r = common(ex, st, True); r['f'].const = True
        return [Ptr(r['f']), Ptr(r['t']), Ptr(r['s']), Ptr(r['X'])]
    def h_err(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(same(a[0], 'f', o[nm + '_f']) and same(a[1], 't') and same(a[2], 's') and same(a[3], 'X')), 'inner error is evaluated on the same clouds and pose', 'call')
        e = freal('e'); st.assume(e >= 0); st.mem[('ghost', 'e')] = e
        return e
    def post_e(ex, st0, st, ret, args):
        e = st.mem.get(('ghost', 'e'))
        if e is None: return [('inner error evaluated', z3.BoolVal(False))]
        return [('error is the inner error scaled by its weight', rv(ret) == wspec(nm, c, ex.sqrt(st, e)) * e)]
    ctx.verify(nodiv(ctx.exec(u, [(r'^vp_inner_err\(', h_err)])), u.one(r'^vp_err_%s\(' % nm), 'RobustFactor<%s>::error' % cls, setup_e, post_e)
    def setup_i(ex, st):
        r = common(ex, st, True); r['f'].const = True
        return [Ptr(r['f'])]
    def h_inl(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(same(a[0], 'f', o[nm + '_f'])), 'inner factor asked', 'call')
        return z3.Bool('inner_inlier')
    ctx.verify(ctx.exec(u, [(r'^vp_inner_inl\(', h_inl)]), u.one(r'^vp_inl_%s\(' % nm), 'RobustFactor<%s>::inlier' % cls, setup_i, lambda ex, st0, st, ret, a: [('inlier iff the inner factor is', bv_(ex.asbool(ret)) == z3.Bool('inner_inlier'))])
    def setup_c(ex, st):
        f = box['f'] = Region('factor', size=o[nm]); g = Region('setting', size=o[nm + '_set'], const=True)
        st.mem[(g, o[nm + '_sk'])] = ('double', c); st.mem[(g, o[nm + '_sf'])] = ('i32', z3.Int('inner_setting')); ex.rangefact(st, z3.Int('inner_setting'), 'i32')
        return [Ptr(f), Ptr(g)]
    def h_ctor(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(same(a[0], 'f', o[nm + '_f'])), 'inner factor constructed in place', 'call')
        ex.oblige(st, iv(a[1]) == z3.Int('inner_setting'), 'inner factor constructed from its setting', 'call')
        st.mem[('ghost', 'ctor')] = z3.BoolVal(True)
        return UNDEF
    ctx.verify(ctx.exec(u, [(r'^vp_inner_ctor\(', h_ctor)]), u.one(r'^vp_ctor_%s\(' % nm), 'RobustFactor<%s> constructor' % cls, setup_c,
               lambda ex, st0, st, ret, a: [('kernel width taken from the setting', rv(ex.load(st, Ptr(box['f'], (), o[nm + '_k']), 'double')) == c), ('inner factor constructed', st.mem.get(('ghost', 'ctor'), z3.BoolVal(False)))])

def harness(ctx, deep):
    return run_harness(ctx, 'h_c13', deep, flags=('-fopenmp', '-ltbb'))
