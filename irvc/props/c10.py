"""C10: Gaussian voxels hold the exact mean of all points ever added (representation invariant over add / finalize / query)."""
from ..common import *
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['the pose has last row 0 0 0 1 and point covariances a zero fourth row and column', 'fewer than 2^53 points per voxel', 'finalize is called on a voxel with at least one point (the voxel map creates a voxel for a point)']
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
using namespace small_gicp;
using TV = traits::Traits<GaussianVoxel>;
void vp_ctor(GaussianVoxel* v) { new (v) GaussianVoxel(); }
void vp_add(GaussianVoxel& v, const GaussianVoxel::Setting& s, const Eigen::Vector4d& p, const PointCloud& c, size_t i, const Eigen::Isometry3d& T) { v.add(s, p, c, i, T); }
void vp_finalize(GaussianVoxel& v) { v.finalize(); }
void vp_get(const GaussianVoxel& v, Eigen::Vector4d* m, Eigen::Matrix4d* c, size_t* n) { *m = TV::point(v, 0); *c = TV::cov(v, 0); *n = v.num_points; }
size_t vp_size(const GaussianVoxel& v) { return v.size() * 100 + TV::size(v) * 10 + TV::has_points(v) + TV::has_covs(v); }
size_t vp_nn(const GaussianVoxel& v, const Eigen::Vector4d& q, size_t* i, double* d) { return TV::nearest_neighbor_search(v, q, i, d); }
size_t vp_knn(const GaussianVoxel& v, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return TV::knn_search(v, q, k, i, d); }
'''
def src():
    G = 'small_gicp::GaussianVoxel'
    return SRC + off_src([('fin', G, 'finalized'), ('num', G, 'num_points'), ('mean', G, 'mean'), ('cov', G, 'cov'), ('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs')]) + size_src([('gv', G)])

class Voxel:
    """representation invariant: num_points = N and (mean, cov) are the sums S, C of everything added, or the sums divided by N when finalised"""
    def __init__(s, ex, st, o, minN=0, const=False):
        s.ex, s.o = ex, o
        s.r = Region('voxel', size=o.gv)
        s.N = z3.Int('N'); s.S = [z3.Real('S%d' % k) for k in range(4)]; s.C = [z3.Real('C%d' % k) for k in range(16)]
        st.assume(z3.And(s.N >= minN, s.N < 2 ** 53))
        f = ex.load(st, Ptr(s.r, (), o.fin), 'i8'); st.assume(z3.Or(iv(f) == 0, iv(f) == 1))
        for g in s.inv(st, s.N, s.S, s.C): st.assume(g[1])
        s.r.const = const
    def get(s, st):
        ld = lambda off, k: s.ex.load(st, Ptr(s.r, (), off), k, False)
        f = s.ex.asint(st, ld(s.o.fin, 'i8')); n = s.ex.asint(st, ld(s.o.num, 'i64'))
        return iv(f) != 0, iv(n), [rv(s.ex.asreal(ld(s.o.mean + 8 * k, 'double'))) for k in range(4)], [rv(s.ex.asreal(ld(s.o.cov + 8 * k, 'double'))) for k in range(16)]
    def inv(s, st, N, S, C):
        f, n, m, c = s.get(st)
        out = [('number of points', n == N), ('finalised only with points', z3.Implies(f, n >= 1))]
        rn = z3.ToReal(N)
        for k in range(4): out.append(('mean[%d]' % k, z3.If(f, m[k] * rn == S[k], m[k] == S[k])))
        for k in range(16): out.append(('cov[%d]' % k, z3.If(f, c[k] * rn == C[k], c[k] == C[k])))
        return out

def prove(ctx):
    u = ctx.unit('c10', src()); o = Offs(u)
    ctx.assume_note(REAL_NOTE)
    from .c12 import mk_cloud, wf, mm, mT
    box = {}
    def setup(ex, st):
        V = box['V'] = Voxel(ex, st, o)
        cl = mk_cloud(ex, st, o, 'points'); i = z3.Int('i'); st.assume(z3.And(0 <= i, i < cl.n)); wf(ex, st, cl, i)
        X = Region('T', size=128, const=True)
        T = [[rv(ex.load(st, Ptr(X, (), 8 * (a + 4 * b)), 'double')) for b in range(4)] for a in range(4)]
        for b in range(4): st.mem[(X, 8 * (3 + 4 * b))] = ('double', Fraction(1 if b == 3 else 0)); T[3][b] = rv(1 if b == 3 else 0)
        p = Region('transformed', size=32, const=True); box['p'] = [rv(ex.load(st, Ptr(p, (), 8 * k), 'double')) for k in range(4)]
        R, C = [r[:3] for r in T[:3]], [r[:3] for r in cl.C(i)[:3]]
        box['RCR'] = mm(mm(R, C), mT(R))
        return [Ptr(V.r), Ptr(Region('setting', size=1, const=True)), Ptr(p), Ptr(cl.r), i, Ptr(X)]
    def post(ex, st0, st, ret, a):
        V = box['V']
        S = [V.S[k] + box['p'][k] for k in range(4)]
        C = [V.C[k] + (box['RCR'][k % 4][k // 4] if k % 4 < 3 and k // 4 < 3 else 0) for k in range(16)]
        return V.inv(st, V.N + 1, S, C)
    ctx.verify(ctx.exec(u), u.one(r'^vp_add\('), 'GaussianVoxel::add', setup, post)
    def setup_f(ex, st): V = box['V'] = Voxel(ex, st, o, 1); return [Ptr(V.r)]
    def post_f(ex, st0, st, ret, a):
        V = box['V']; return [('finalised', V.get(st)[0])] + V.inv(st, V.N, V.S, V.C)
    ctx.verify(ctx.exec(u), u.one(r'^vp_finalize\('), 'GaussianVoxel::finalize', setup_f, post_f)
    def setup_c(ex, st): r = box['r'] = Region('voxel', size=o.gv); return [Ptr(r)]
    def post_c(ex, st0, st, ret, a):
        V = Voxel.__new__(Voxel); V.ex, V.o, V.r = ex, o, box['r']
        f, n, m, c = V.get(st)
        return [('not finalised', z3.Not(f))] + V.inv(st, z3.IntVal(0), [rv(0)] * 4, [rv(0)] * 16)
    ctx.verify(ctx.exec(u), u.one(r'^vp_ctor\('), 'GaussianVoxel::GaussianVoxel', setup_c, post_c)
    # queries: read-only, and on a finalised voxel they report the means
    def setup_g(ex, st):
        V = box['V'] = Voxel(ex, st, o, 1, const=True); st.assume(V.get(st)[0])
        box['o'] = [Region('m', size=32), Region('c', size=128), Region('n', size=8)]
        return [Ptr(V.r)] + [Ptr(r) for r in box['o']]
    def post_g(ex, st0, st, ret, a):
        V = box['V']; m, c, n = box['o']; rn = z3.ToReal(V.N)
        ld = lambda r, off, k: ex.load(st, Ptr(r, (), off), k)
        return [('number of points', iv(ex.asint(st, ld(n, 0, 'i64'))) == V.N)] + [('mean[%d]' % k, rv(ex.asreal(ld(m, 8 * k, 'double'))) * rn == V.S[k]) for k in range(4)] + [('cov[%d]' % k, rv(ex.asreal(ld(c, 8 * k, 'double'))) * rn == V.C[k]) for k in range(16)]
    ctx.verify(ctx.exec(u), u.one(r'^vp_get\('), 'traits::point / cov of a finalised voxel', setup_g, post_g)
    def setup_s(ex, st): V = box['V'] = Voxel(ex, st, o, 0, const=True); return [Ptr(V.r)]
    ctx.verify(ctx.exec(u), u.one(r'^vp_size\('), 'GaussianVoxel::size', setup_s, lambda ex, st0, st, ret, a: [('a voxel is one point with a covariance', iv(ex.asint(st, ret)) == 112)])
    for fn, extra in (('vp_nn', 0), ('vp_knn', 1)):
        def setup_n(ex, st, extra=extra):
            V = box['V'] = Voxel(ex, st, o, 1, const=True)
            q = Region('query', size=32, const=True); box['q'] = [rv(ex.load(st, Ptr(q, (), 8 * k), 'double')) for k in range(4)]
            box['o'] = [Region('idx', size=8), Region('dist', size=8)]
            return [Ptr(V.r), Ptr(q)] + ([z3.Int('k')] if extra else []) + [Ptr(r) for r in box['o']]
        def post_n(ex, st0, st, ret, a):
            V = box['V']; m = V.get(st)[2]; i, d = box['o']
            return [('one result', iv(ex.asint(st, ret)) == 1), ('its index is 0', iv(ex.asint(st, ex.load(st, Ptr(i), 'i64'))) == 0),
                    ('squared distance to the voxel mean', rv(ex.asreal(ex.load(st, Ptr(d), 'double'))) == sum(((m[k] - box['q'][k]) * (m[k] - box['q'][k]) for k in range(1, 4)), (m[0] - box['q'][0]) * (m[0] - box['q'][0])))]
        ctx.verify(ctx.exec(u), u.one(r'^%s\(' % fn), 'Traits<GaussianVoxel>::%s' % fn, setup_n, post_n)
    # histories: by induction the invariant gives the exact mean after any sequence of operations
    N = z3.Int('N'); S, x, p = z3.Reals('S x p'); f = z3.Bool('f')
    ctx.lemma('history step: finalising again changes nothing', [N >= 1, x * z3.ToReal(N) == S], x == S / z3.ToReal(N))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c10', deep, flags=('-fopenmp', '-ltbb', '-fsanitize=address'))
