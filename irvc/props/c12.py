"""C12: per-point factors return the Gauss-Newton system of their own residual."""
from ..common import *
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['points have homogeneous coordinate 1, normals fourth component 0, covariances a zero fourth row/column and are symmetric (what C21/C17 guarantee of the containers/estimators); the pose has last row 0 0 0 1; the fused covariance block is invertible (GICP)',
               'the nearest-neighbour search is any function meeting its contract (C02/C11/C20 for the shipped indices); the rejector is any function of its arguments']
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
using namespace small_gicp;
struct VpTree { int x; };
struct VpRej { bool operator()(const PointCloud& target, const PointCloud& source, const Eigen::Isometry3d& T, size_t target_index, size_t source_index, double sq_dist) const; };
template <> struct small_gicp::traits::Traits<VpTree> { static size_t nearest_neighbor_search(const VpTree& tree, const Eigen::Vector4d& p, size_t* i, double* d); };
#define F(N, T) bool vp_lin_##N(T& f, const PointCloud& t, const PointCloud& s, const VpTree& tree, const Eigen::Isometry3d& X, size_t i, const VpRej& r, Eigen::Matrix<double,6,6>* H, Eigen::Matrix<double,6,1>* b, double* e) { return f.linearize(t, s, tree, X, i, r, H, b, e); } \\
double vp_err_##N(const T& f, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& X) { return f.error(t, s, X); } \\
bool vp_inl_##N(const T& f) { return f.inlier(); } \\
void vp_ctor_##N(T* f) { new (f) T(); }
F(icp, ICPFactor) F(pl, PointToPlaneICPFactor) F(gicp, GICPFactor)
bool vp_rej_null(const NullRejector& r, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& T, size_t i, size_t j, double d) { return r(t, s, T, i, j, d); }
bool vp_rej_dist(const DistanceRejector& r, const PointCloud& t, const PointCloud& s, const Eigen::Isometry3d& T, size_t i, size_t j, double d) { return r(t, s, T, i, j, d); }
'''
def src():
    s = SRC
    for nm, t in (('icp', 'ICPFactor'), ('pl', 'PointToPlaneICPFactor'), ('gicp', 'GICPFactor')):
        s += off_src([('%s_ti' % nm, 'small_gicp::' + t, 'target_index'), ('%s_si' % nm, 'small_gicp::' + t, 'source_index')])
    s += off_src([('gicp_m', 'small_gicp::GICPFactor', 'mahalanobis'), ('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs')])
    s += size_src([('icp', 'small_gicp::ICPFactor'), ('pl', 'small_gicp::PointToPlaneICPFactor'), ('gicp', 'small_gicp::GICPFactor')])
    return s

NONE = -1      # size_t max as signed 64 bit

def mk_cloud(ex, st, o, nm, normals=True):
    n = z3.Int('n_' + nm)
    st.assume(z3.And(n >= 0, n < 2 ** 40))
    rp = Region(nm + '.points', 1, 32, V4F(), length=n, const=True)
    rn = Region(nm + '.normals', 1, 32, V4F(), length=n, const=True)
    rc = Region(nm + '.covs', 1, 128, M4F(), length=n, const=True)
    r = Region(nm, size=72, const=True)
    for off, q in ((o.pc_p, rp), (o.pc_n, rn), (o.pc_c, rc)): st.mem[(r, off)] = ('ptr', Ptr(q, (0,)))
    c = type('Cloud', (), {})()
    c.r, c.n, c.rp, c.rn, c.rc = r, n, rp, rn, rc
    c.P = lambda i: [z3.Select(ex.get_arr(st, rp, 8 * k, 'double'), iv(i)) for k in range(4)]
    c.N = lambda i: [z3.Select(ex.get_arr(st, rn, 8 * k, 'double'), iv(i)) for k in range(4)]
    c.C = lambda i: [[z3.Select(ex.get_arr(st, rc, 8 * (a + 4 * b), 'double'), iv(i)) for b in range(4)] for a in range(4)]
    return c
def wf(ex, st, c, i):
    """assume the container facts at element i"""
    p, n, C = c.P(i), c.N(i), c.C(i)
    st.assume(p[3] == 1); st.assume(n[3] == 0)
    for a in range(4): st.assume(C[a][3] == 0); st.assume(C[3][a] == 0)
def mm(A, B): return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]
def mT(A): return [list(r) for r in zip(*A)]
def lin(M, n=3): return [r[:n] for r in M[:n]]
def det3(A): return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])

class Setup:
    def __init__(s, ex, st, o, nm):
        s.nm = nm
        s.t, s.s = mk_cloud(ex, st, o, 'target'), mk_cloud(ex, st, o, 'source')
        s.X = Region('T', size=128, const=True)
        s.T = [[rv(ex.load(st, Ptr(s.X, (), 8 * (i + 4 * j)), 'double')) for j in range(4)] for i in range(4)]
        for j in range(4): 
            v = rv(1 if j == 3 else 0)
            st.assume(s.T[3][j] == v); st.mem[(s.X, 8 * (3 + 4 * j))] = ('double', Fraction(1 if j == 3 else 0)); s.T[3][j] = v
        s.f = Region('factor', size=o[nm])
        s.o_ti, s.o_si = o[nm + '_ti'], o[nm + '_si']
        s.H, s.b, s.e = Region('H', size=288), Region('b', size=48), Region('e', size=8)
        s.tree, s.rej = Region('tree', size=8, const=True), Region('rejector', size=1, const=True)
        if nm == 'gicp':
            # class invariant: fourth row and column of the precision matrix are zero (established by the constructor)
            s.o_m = o.gicp_m
            for a in range(4):
                for k in {(a, 3), (3, a)}:
                    st.mem[(s.f, s.o_m + 8 * (k[0] + 4 * k[1]))] = ('double', Fraction(0))
    def W(s, ex, st): return [[rv(ex.load(st, Ptr(s.f, (), s.o_m + 8 * (i + 4 * j)), 'double', False)) for j in range(4)] for i in range(4)]
    def tp(s, p):
        return [s.T[a][0] * p[0] + s.T[a][1] * p[1] + s.T[a][2] * p[2] + s.T[a][3] for a in range(3)]

def spec_J(S, p):
    """derivative of q - T exp(xi) p at xi = 0, right perturbation, rotation first:  [R hat(p) | -R]"""
    R = lin(S.T)
    hat = [[rv(0), -p[2], p[1]], [p[2], rv(0), -p[0]], [-p[1], p[0], rv(0)]]
    A = mm(R, hat)
    return [A[i] + [-R[i][j] for j in range(3)] for i in range(3)]

def spec(S, nm, k, i, W=None):
    """(residual, weight matrix, J) in the form r, J of the whitened or weighted problem"""
    p, q = S.s.P(i), S.t.P(k)
    tp = S.tp(p)
    r = [q[a] - tp[a] for a in range(3)]
    J = spec_J(S, p)
    I3 = [[rv(1 if a == b else 0) for b in range(3)] for a in range(3)]
    if nm == 'icp': return r, I3, J
    if nm == 'pl':
        n = S.t.N(k)     # residual: the components of the offset scaled by the target normal
        return [n[a] * r[a] for a in range(3)], I3, [[n[a] * J[a][c] for c in range(6)] for a in range(3)]
    return r, W, J
def spec_e(r, W): return rv(Fraction(1, 2)) * sum((r[a] * W[a][b] * r[b] for a in range(3) for b in range(3)), rv(0))

def prove(ctx):
    u = ctx.unit('c12', src())
    o = Offs(u)
    for nm, tn in (('icp', 'ICPFactor'), ('pl', 'PointToPlaneICPFactor'), ('gicp', 'GICPFactor')):
        linearize(ctx, u, o, nm, tn)
        error(ctx, u, o, nm, tn)
        inlier(ctx, u, o, nm, tn)
    rejectors(ctx, u)

def linearize(ctx, u, o, nm, tn):
    box = {}
    def setup(ex, st):
        S = box['S'] = Setup(ex, st, o, nm)
        i = box['i'] = z3.Int('i')
        st.assume(z3.And(i >= 0, i < S.s.n)); wf(ex, st, S.s, i)
        for rg, k in ((S.H, 36), (S.b, 6), (S.e, 1)):
            for a in range(k): ex.load(st, Ptr(rg, (), 8 * a), 'double')
        if nm == 'gicp': S.W(ex, st)
        return [Ptr(S.f), Ptr(S.t.r), Ptr(S.s.r), Ptr(S.tree), Ptr(S.X), i, Ptr(S.rej), Ptr(S.H), Ptr(S.b), Ptr(S.e)]
    def h_nn(ex, st, ins, args):
        S = box['S']
        q = [rv(ex.load(st, ex.padd_const(args[1], 8 * a), 'double')) for a in range(4)]
        tp = S.tp(S.s.P(box['i']))
        ex.oblige(st, z3.BoolVal(args[0].r is S.tree), 'the target index is searched', 'call')
        for a in range(3): ex.oblige(st, q[a] == tp[a], 'nearest neighbour is searched at the transformed source point [%d]' % a, 'call', assume=False)
        miss = st.copy()
        k, d = fint('k_nn'), freal('d_nn')
        st.assume(z3.And(k >= 0, k < S.t.n, d >= 0))
        wf(ex, st, S.t, k)
        if nm == 'gicp':
            Ct, Cs = lin(S.t.C(k)), lin(S.s.C(box['i']))
            R = lin(S.T)
            RCR = [[Ct[a][b] + x for b, x in enumerate(row)] for a, row in enumerate(mm(mm(R, Cs), mT(R)))]
            st.mem[('rcr', k.get_id())] = ('x', 0)
            box['RCR'] = RCR
            for C in (Ct, Cs):
                for a in range(3):
                    for b in range(a): st.assume(C[a][b] == C[b][a])
            st.assume(det3(RCR) != 0)
        ex.store(st, args[2], k, 'i64'); ex.store(st, args[3], d, 'double')
        st.mem[('ghost', 'nn')] = k; st.mem[('ghost', 'nnd')] = d
        return [(st, 1), (miss, 0)]
    def h_rej(ex, st, ins, args):
        S = box['S']
        k, d = st.mem[('ghost', 'nn')], st.mem[('ghost', 'nnd')]
        ex.oblige(st, z3.BoolVal(args[1].r is S.t.r and args[2].r is S.s.r and args[3].r is S.X), 'rejector is asked about these clouds and this pose', 'call')
        ex.oblige(st, z3.And(iv(args[4]) == k, iv(args[5]) == box['i'], rv(args[6]) == d), 'rejector is asked about the found correspondence', 'call')
        b = fbool('rejected')
        st.mem[('ghost', 'rej')] = b
        return b
    def post(ex, st0, st, ret, args):
        S, i = box['S'], box['i']
        ret = z3.simplify(bv_(ex.asbool(ret)))
        ld = lambda s_, rg, a: rv(ex.load(s_, Ptr(rg, (), a), 'double', False))
        ti = ex.load(st, Ptr(S.f, (), S.o_ti), 'i64', False); si = ex.load(st, Ptr(S.f, (), S.o_si), 'i64', False)
        out = [('the source point is recorded', iv(si) == i)]
        if ('ghost', 'nn') not in st.mem or not ex.quick(st, z3.Not(st.mem[('ghost', 'rej')])) :
            out += [('no accepted correspondence: returns false', z3.Not(ret)), ('no accepted correspondence: marked as outlier', iv(ti) == NONE)]
            if ('ghost', 'rej') in st.mem: out.append(('only a rejected or missing correspondence is dropped', st.mem[('ghost', 'rej')]))
            return out
        k = st.mem[('ghost', 'nn')]
        out += [('accepted correspondence: returns true', ret), ('accepted correspondence: nearest target recorded', iv(ti) == k)]
        sub = []
        W = None
        if nm == 'gicp':
            W4 = S.W(ex, st)
            RCR = box['RCR']
            W3 = lin(W4)
            # name the fused covariance: every intermediate equal to it (an obligation) is generalised to a constant
            from .. import ring
            flat = [RCR[a][b] for a in range(3) for b in range(3)]
            cn = [z3.Real('rcr%d%d' % (a, b)) for a in range(3) for b in range(3)]
            gen = []
            for t, k_ in ring.find_equal(z3.Sum(*[W3[a][b] for a in range(3) for b in range(3)]), flat, st.pc):
                out.append(('fused covariance [%d,%d]' % (k_ // 3, k_ % 3), t == flat[k_])); gen.append((t, cn[k_]))
            RCRg = [[cn[3 * a + b] for b in range(3)] for a in range(3)]
            W3g = [[z3.substitute(W3[a][b], *gen) if gen else W3[a][b] for b in range(3)] for a in range(3)]
            for a in range(3):
                for b in range(3):
                    out.append(('mahalanobis block inverts the fused covariance [%d,%d]' % (a, b), z3.Implies(det3(RCRg) != 0, sum((W3g[a][c] * RCRg[c][b] for c in range(1, 3)), W3g[a][0] * RCRg[0][b]) == rv(1 if a == b else 0))))
            for a in range(4): out += [('mahalanobis fourth row/column stay zero [%d]' % a, z3.And(W4[a][3] == 0, W4[3][a] == 0))]
            for a in range(3):
                for b in range(a): out.append(('mahalanobis symmetric [%d,%d]' % (a, b), z3.substitute(W3g[a][b] == W3g[b][a], *[(cn[3 * x + y], cn[3 * y + x]) for x in range(3) for y in range(x)])))
            # symmetric inputs give a symmetric fused covariance
            sy = [(S.t.C(k)[x][y], S.t.C(k)[y][x]) for x in range(3) for y in range(x)] + [(S.s.C(i)[x][y], S.s.C(i)[y][x]) for x in range(3) for y in range(x)]
            out += [('symmetric covariances fuse to a symmetric matrix [%d,%d]' % (a, b), z3.substitute(RCR[a][b] == RCR[b][a], *sy)) for a in range(3) for b in range(a)]
            cs = [[z3.Real('w%d%d' % (a, b)) for b in range(3)] for a in range(3)]
            sub = [(W3[a][b], cs[a][b]) for a in range(3) for b in range(3) if not is_py(W3[a][b])]
            W = W3
        r, Wm, J = spec(S, nm, k, i, W)
        gs = []
        WJ = mm(Wm, J)
        Wr = [sum((Wm[a][c] * r[c] for c in range(1, 3)), Wm[a][0] * r[0]) for a in range(3)]
        for a in range(6):
            for b in range(6):
                gs.append(('H = Jt W J [%d,%d]' % (a, b), ld(st, S.H, 8 * (a + 6 * b)) == sum((J[c][a] * WJ[c][b] for c in range(1, 3)), J[0][a] * WJ[0][b])))
                if nm != 'gicp' and b < a: gs.append(('H symmetric [%d,%d]' % (a, b), ld(st, S.H, 8 * (a + 6 * b)) == ld(st, S.H, 8 * (b + 6 * a))))
            gs.append(('b = Jt W r [%d]' % a, ld(st, S.b, 8 * a) == sum((J[c][a] * Wr[c] for c in range(1, 3)), J[0][a] * Wr[0])))
        gs.append(('e = half weighted squared residual', ld(st, S.e, 0) == spec_e(r, Wm)))
        # generalise over the weight matrix
        out += [(n_, z3.substitute(g, *sub) if sub else g) for n_, g in gs]
        return out
    ex = ctx.exec(u, [(r'Traits<VpTree>::nearest_neighbor_search', h_nn), (r'^VpRej::operator', h_rej)])
    ctx.verify(ex, u.one(r'^vp_lin_%s\(' % nm), tn + '::linearize', setup, post)
    if nm == 'gicp':
        # symmetry of H from symmetry of W (pure algebra over the contract)
        cs = {}
        w = [[cs.setdefault((min(a, b), max(a, b)), z3.Real('w%d%d' % (min(a, b), max(a, b)))) for b in range(3)] for a in range(3)]
        J = [[z3.Real('J%d%d' % (a, b)) for b in range(6)] for a in range(3)]
        WJ = mm(w, J)
        H = mm(mT(J), WJ)
        ctx.lemma('H symmetric from a symmetric weight', [], z3.And(*[H[a][b] == H[b][a] for a in range(6) for b in range(a)]))

def error(ctx, u, o, nm, tn):
    box = {}
    def setup(ex, st):
        S = box['S'] = Setup(ex, st, o, nm)
        k, i = z3.Int('k'), z3.Int('i')
        st.mem[(S.f, S.o_ti)] = ('i64', k); st.mem[(S.f, S.o_si)] = ('i64', i)
        st.assume(z3.Or(k == NONE, z3.And(k >= 0, k < S.t.n, i >= 0, i < S.s.n)))
        box['k'], box['i'] = k, i
        wf(ex, st, S.t, k); wf(ex, st, S.s, i)
        if nm == 'gicp': S.W(ex, st)
        S.f.const = True
        return [Ptr(S.f), Ptr(S.t.r), Ptr(S.s.r), Ptr(S.X)]
    def post(ex, st0, st, ret, args):
        S, k, i = box['S'], box['k'], box['i']
        if ex.quick(st, k == NONE): return [('an outlier contributes no error', rv(ret) == 0)]
        W = lin(S.W(ex, st)) if nm == 'gicp' else None
        r, Wm, J = spec(S, nm, k, i, W)
        return [('only an outlier returns zero without evaluation', k != NONE), ('error = half weighted squared residual at this pose', rv(ret) == spec_e(r, Wm))]
    ctx.verify(ctx.exec(u), u.one(r'^vp_err_%s\(' % nm), tn + '::error', setup, post)

def inlier(ctx, u, o, nm, tn):
    def setup(ex, st):
        f = Region('factor', size=o[nm], const=True)
        st.mem[(f, o[nm + '_ti'])] = ('i64', z3.Int('k')); ex.rangefact(st, z3.Int('k'), 'i64')
        return [Ptr(f)]
    ctx.verify(ctx.exec(u), u.one(r'^vp_inl_%s\(' % nm), tn + '::inlier', setup, lambda ex, st0, st, ret, args: [('inlier iff a target is recorded', bv_(ex.asbool(ret)) == (z3.Int('k') != NONE))])
    def setup2(ex, st): return [Ptr(Region('factor', size=o[nm]))]
    def post2(ex, st0, st, ret, args):
        f = args[0].r
        out = [('a new factor has no correspondence', iv(ex.load(st, Ptr(f, (), o[nm + '_ti']), 'i64')) == NONE)]
        if nm == 'gicp': out += [('a new factor has zero precision [%d]' % a, rv(ex.asreal(ex.load(st, Ptr(f, (), o.gicp_m + 8 * a), 'double'))) == 0) for a in range(16)]
        return out
    ctx.verify(ctx.exec(u), u.one(r'^vp_ctor_%s\(' % nm), tn + ' constructor', setup2, post2)

def rejectors(ctx, u):
    def args(ex, st, r):
        return [Ptr(r), Ptr(Region('t', size=72, const=True)), Ptr(Region('s', size=72, const=True)), Ptr(Region('T', size=128, const=True)), z3.Int('i'), z3.Int('j'), z3.Real('d')]
    def s0(ex, st): return args(ex, st, Region('rej', size=1, const=True))
    ctx.verify(ctx.exec(u), u.one(r'^vp_rej_null\('), 'NullRejector', s0, lambda ex, st0, st, ret, a: [('never rejects', z3.Not(bv_(ex.asbool(ret))))])
    def s1(ex, st):
        r = Region('rej', size=8, const=True); st.mem[(r, 0)] = ('double', z3.Real('max_dist_sq'))
        return args(ex, st, r)
    ctx.verify(ctx.exec(u), u.one(r'^vp_rej_dist\('), 'DistanceRejector', s1, lambda ex, st0, st, ret, a: [('rejects exactly beyond the squared distance limit', bv_(ex.asbool(ret)) == (z3.Real('d') > z3.Real('max_dist_sq')))])

def harness(ctx, deep):
    return run_harness(ctx, 'h_c12', deep, flags=('-fopenmp', '-ltbb'))
