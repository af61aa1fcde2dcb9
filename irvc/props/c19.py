"""C19: the degree-of-freedom restriction penalises exactly the masked components."""
from ..common import *
from ..native import run_harness

TIMEOUT = 20
ASSUMPTIONS = ['mask components are 1 (active) or 0 (inactive), the documented values', 'weight lambda >= 0']
SRC = '''
#include <new>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/factors/general_factor.hpp>
using namespace small_gicp;
struct VpTree { int x; };
typedef Eigen::Matrix<double,6,6> M6; typedef Eigen::Matrix<double,6,1> V6;
void vp_ctor(RestrictDoFFactor* f) { new (f) RestrictDoFFactor(); }
void vp_rot(RestrictDoFFactor& f, const Eigen::Array3d& m) { f.set_rotation_mask(m); }
void vp_trans(RestrictDoFFactor& f, const Eigen::Array3d& m) { f.set_translation_mask(m); }
void vp_lin(const RestrictDoFFactor& f, const PointCloud& t, const PointCloud& s, const VpTree& tree, const Eigen::Isometry3d& X, M6* H, V6* b, double* e) { f.update_linearized_system(t, s, tree, X, H, b, e); }
void vp_err(const RestrictDoFFactor& f, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& X, double* e) { f.update_error(t, s, X, e); }
void vp_nlin(const NullFactor& f, const PointCloud& t, const PointCloud& s, const VpTree& tree, const Eigen::Isometry3d& X, M6* H, V6* b, double* e) { f.update_linearized_system(t, s, tree, X, H, b, e); }
void vp_nerr(const NullFactor& f, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& X, double* e) { f.update_error(t, s, X, e); }
'''
def src(): return SRC + off_src([('lam', 'small_gicp::RestrictDoFFactor', 'lambda'), ('mask', 'small_gicp::RestrictDoFFactor', 'mask')]) + size_src([('f', 'small_gicp::RestrictDoFFactor')])

def prove(ctx):
    u = ctx.unit('c19', src()); o = Offs(u)
    m = [z3.Real('m%d' % k) for k in range(6)]; lam = z3.Real('lam')
    def mkf(ex, st, const):
        f = Region('factor', size=o.f, const=const)
        st.mem[(f, o.lam)] = ('double', lam)
        for k in range(6): st.mem[(f, o.mask + 8 * k)] = ('double', m[k])
        return f
    def rd(ex, st, p, n, off=0): return [rv(ex.asreal(ex.load(st, ex.padd_const(p, off + 8 * k), 'double', False))) for k in range(n)]
    mk = lambda nm, n, const=False: Region(nm, size=8 * n, const=const)
    # constructor
    ctx.verify(ctx.exec(u), u.one(r'^vp_ctor\('), 'RestrictDoFFactor constructor', lambda ex, st: [Ptr(Region('factor', size=o.f))],
               lambda ex, st0, st, ret, a: [('default mask frees every component [%d]' % k, x == 1) for k, x in enumerate(rd(ex, st, a[0], 6, o.mask))] + [('default weight is non-negative', rd(ex, st, a[0], 1, o.lam)[0] >= 0)])
    # mask setters
    for fn, lo, nm in (('vp_rot', 0, 'set_rotation_mask'), ('vp_trans', 3, 'set_translation_mask')):
        n3 = [z3.Real('n%d' % k) for k in range(3)]
        def setup(ex, st):
            f = mkf(ex, st, False); r = mk('mask', 3, True)
            for k in range(3): st.mem[(r, 8 * k)] = ('double', n3[k])
            return [Ptr(f), Ptr(r)]
        def post(ex, st0, st, ret, a, lo=lo):
            x = rd(ex, st, a[0], 6, o.mask)
            return [('component %d' % k, x[k] == (n3[k - lo] if lo <= k < lo + 3 else m[k])) for k in range(6)] + [('weight unchanged', rd(ex, st, a[0], 1, o.lam)[0] == lam)]
        ctx.verify(ctx.exec(u), u.one(r'^%s\(' % fn), 'RestrictDoFFactor::' + nm, setup, post)
    # prior
    def setup_l(ex, st, fac=True):
        f = mkf(ex, st, True) if fac else Region('null', size=1, const=True)
        st.assume(lam >= 0)
        for x in m: st.assume(z3.Or(x == 0, x == 1))
        rs = [mk('H', 36), mk('b', 6), mk('e', 1)]
        for r, n in zip(rs, (36, 6, 1)):
            for k in range(n): ex.load(st, Ptr(r, (), 8 * k), 'double')
        T = Region('T', size=128)
        for k in range(16): ex.load(st, Ptr(T, (), 8 * k), 'double')
        T.const = True
        return [Ptr(f), Ptr(mk('t', 9, True)), Ptr(mk('s', 9, True)), Ptr(mk('tree', 1, True)), Ptr(T)] + [Ptr(r) for r in rs]
    def post_l(ex, st0, st, ret, a, fac=True):
        H0, H1 = rd(ex, st0, a[5], 36), rd(ex, st, a[5], 36)
        out = []
        for i in range(6):
            for j in range(6):
                d = H1[i + 6 * j] - H0[i + 6 * j]
                if i == j and fac: out += [('masked component is penalised by the weight [%d]' % i, z3.Implies(m[i] == 0, d == lam)), ('free component is untouched [%d]' % i, z3.Implies(m[i] == 1, d == 0))]
                else: out.append(('no coupling between components [%d,%d]' % (i, j), d == 0))
        out += [('prior is centred at the zero step [%d]' % k, x == y) for k, (x, y) in enumerate(zip(rd(ex, st, a[6], 6), rd(ex, st0, a[6], 6)))]
        out += [('error unchanged', rd(ex, st, a[7], 1)[0] == rd(ex, st0, a[7], 1)[0])]
        return out
    ctx.verify(ctx.exec(u), u.one(r'^vp_lin\('), 'RestrictDoFFactor::update_linearized_system', setup_l, post_l)
    ctx.verify(ctx.exec(u), u.one(r'^vp_nlin\('), 'NullFactor::update_linearized_system', lambda ex, st: setup_l(ex, st, False), lambda *a: post_l(*a, fac=False))
    def setup_e(ex, st, fac=True):
        a = setup_l(ex, st, fac); return [a[0], a[1], a[2], a[4], a[7]]
    pe = lambda ex, st0, st, ret, a: [('error unchanged', rd(ex, st, a[4], 1)[0] == rd(ex, st0, a[4], 1)[0])]
    ctx.verify(ctx.exec(u), u.one(r'^vp_err\('), 'RestrictDoFFactor::update_error', setup_e, pe)
    ctx.verify(ctx.exec(u), u.one(r'^vp_nerr\('), 'NullFactor::update_error', lambda ex, st: setup_e(ex, st, False), pe)
    # consequences
    x = [z3.Real('x%d' % k) for k in range(6)]
    d = [z3.If(m[k] == 0, lam, rv(0)) for k in range(6)]
    ctx.lemma('the prior is positive semi-definite', [lam >= 0], sum((d[k] * x[k] * x[k] for k in range(1, 6)), d[0] * x[0] * x[0]) >= 0)
    # (H + lam P) s = -b, s'Hs >= mu |s|^2 (mu > 0), |b.s| <= beta |s|  =>  lam mu |s_masked|^2 <= beta^2 / 4
    mu, n2, q, mk2, bs, beta, n = z3.Reals('mu n2 q mk2 bs beta n')
    ctx.lemma('a step along masked axes is bounded by beta^2 / (4 lambda mu)', [mu > 0, lam >= 0, n >= 0, n2 == n * n, q >= mu * n2, q + lam * mk2 == bs, bs <= beta * n, beta >= 0], 4 * lam * mk2 * mu <= beta * beta)

def harness(ctx, deep):
    return run_harness(ctx, 'h_c19', deep, flags=('-fopenmp', '-ltbb'))
