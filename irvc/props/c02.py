"""C02: the kd-tree search returns the exact k nearest neighbours of a valid tree."""
from ..common import *
from .. import knn
from . import c01

def src():
    s = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
using namespace small_gicp;
using TreeA = UnsafeKdTree<PointCloud, AxisAlignedProjection>;
using TreeN = UnsafeKdTree<PointCloud, NormalProjection>;
size_t vp_a_knn(const TreeA& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::knn_search(t, q, k, i, d); }
size_t vp_n_knn(const TreeN& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::knn_search(t, q, k, i, d); }
size_t vp_a_nn(const TreeA& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::nearest_neighbor_search(t, q, i, d); }
size_t vp_n_nn(const TreeN& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::nearest_neighbor_search(t, q, i, d); }
size_t vp_a_knn5(const TreeA& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return t.knn_search<5>(q, i, d); }
using STreeA = KdTree<PointCloud, AxisAlignedProjection>;
size_t vp_ka_knn(const STreeA& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::knn_search(t, q, k, i, d); }
size_t vp_ka_nn(const STreeA& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return traits::nearest_neighbor_search(t, q, i, d); }
'''
    s += knn.list_src()
    for p, t in (('a', 'TreeA'), ('n', 'TreeN')):
        s += off_src([(p + '_points', t, 'points') ][:0] + [(p + '_indices', t, 'indices'), (p + '_root', t, 'root'), (p + '_nodes', t, 'nodes')])
        nd = t + '::Node'
        s += off_src([(p + '_left', nd, 'left'), (p + '_right', nd, 'right'), (p + '_first', nd, 'node_type.lr.first'), (p + '_last', nd, 'node_type.lr.last'), (p + '_thresh', nd, 'node_type.sub.thresh'), (p + '_proj', nd, 'node_type.sub.proj')])
        s += size_src([(p + '_node', nd)])
    s += off_src([('ka_tree', 'STreeA', 'kdtree')])
    s += off_src([('pc_points', 'PointCloud', 'points'), ('set_eps', 'KnnSetting', 'epsilon')])
    return s

class Tree:
    """symbolic valid kd-tree (validity is what C03 establishes) over N points"""
    def __init__(s, ex, st, offs, p):
        s.ex, s.p, s.o = ex, p, offs
        o = offs
        s.N, s.M = z3.Int('N'), z3.Int('M')
        st.assume(z3.And(s.N >= 1, s.N < 2 ** 31, s.M >= 1, s.M < 2 ** 32 - 1))
        NF = [(o[p + '_first'], 'i32'), (o[p + '_last'], 'i32'), (o[p + '_thresh'], 'double'), (o[p + '_left'], 'i32'), (o[p + '_right'], 'i32')]
        pj = o[p + '_proj']
        NF += [(pj, 'i32')] if p == 'a' else [(pj, 'double'), (pj + 8, 'double'), (pj + 16, 'double')]
        NF = list(dict.fromkeys(NF))
        s.rp = Region('points', 1, 32, V4F(), length=s.N, const=True)
        s.ri = Region('tree.indices', 1, 8, [(0, 'i64')], length=s.N, const=True)
        s.rn = Region('tree.nodes', 1, o['%s_node' % p], NF, length=s.M, const=True)
        s.rc = Region('cloud', size=72, const=True)
        s.rt = Region('tree', size=128, const=True)
        s.rq = Region('query', size=32, const=True)
        m = st.mem
        def vec(r, off, data, n, cap=None):
            m[(r, off)] = ('ptr', Ptr(data, (0,))); m[(r, off + 8)] = ('ptr', Ptr(data, (n,))); m[(r, off + 16)] = ('ptr', Ptr(data, (cap if cap is not None else n,)))
        vec(s.rc, o.pc_points, s.rp, s.N)
        m[(s.rt, 0)] = ('ptr', Ptr(s.rc))
        vec(s.rt, o[p + '_indices'], s.ri, s.N)
        vec(s.rt, o[p + '_nodes'], s.rn, s.M)
        s.root = z3.Int('root'); m[(s.rt, o[p + '_root'])] = ('i32', s.root)
        A = lambda r, off, k: ex.named_arr(st, r, off, k)
        s.X = [A(s.rp, 8 * i, 'double') for i in range(4)]
        s.q = [ex.load(st, Ptr(s.rq, (), 8 * i), 'double') for i in range(4)]
        s.idx = A(s.ri, 0, 'i64')
        s.first, s.last, s.left, s.right = [A(s.rn, o[p + '_' + f], 'i32') for f in ('first', 'last', 'left', 'right')]
        s.th = A(s.rn, o[p + '_thresh'], 'double')
        if p == 'a': s.axis = A(s.rn, pj, 'i32')
        else: s.nv = [A(s.rn, pj + 8 * i, 'double') for i in range(3)]
        F = lambda n, *sg: z3.Function(n, *sg)
        s.lo, s.hi, s.mid, s.meas = [F(n, IntS, IntS) for n in ('lo', 'hi', 'mid', 'measure')]
        s.slot = F('slot', IntS, IntS)
        s.Dist = F('Dist', IntS, RealS)
        n, i, t = z3.Ints('n_ i_ t_')
        U = lambda x: z3.If(x >= 0, x, x + 2 ** 32)
        s.U = U
        # root
        st.assume(z3.And(U(s.root) >= 0, U(s.root) < s.M, s.root >= -2 ** 31, s.root < 2 ** 31))
        st.assume(z3.And(s.lo(U(s.root)) == 0, s.hi(U(s.root)) == s.N))
        # permutation
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < s.N), z3.And(s.idx[i] >= 0, s.idx[i] < s.N, s.slot(s.idx[i]) == i)), [s.idx[i]]))
        # numeric ranges of the query-independent data
        for x in s.q: pass

    def node_facts(s, n):
        """validity of node n (n: unsigned index)"""
        L, R = s.U(s.left[n]), s.U(s.right[n])
        leaf = s.left[n] == -1
        a = z3.And(0 <= s.lo(n), s.lo(n) < s.hi(n), s.hi(n) <= s.N)
        return [a, z3.Implies(leaf, z3.And(s.U(s.first[n]) == s.lo(n), s.U(s.last[n]) == s.hi(n))),
                z3.Implies(z3.Not(leaf), z3.And(L < s.M, R < s.M, s.lo(L) == s.lo(n), s.hi(L) == s.mid(n), s.lo(R) == s.mid(n), s.hi(R) == s.hi(n),
                                                s.lo(n) < s.mid(n), s.mid(n) < s.hi(n), s.meas(L) < s.meas(n), s.meas(R) < s.meas(n), s.meas(L) >= 0, s.meas(R) >= 0))] + \
               ([z3.Implies(z3.Not(leaf), z3.And(s.axis[n] >= 0, s.axis[n] <= 2))] if s.p == 'a' else
                [z3.Implies(z3.Not(leaf), s.nv[0][n] * s.nv[0][n] + s.nv[1][n] * s.nv[1][n] + s.nv[2][n] * s.nv[2][n] == 1)]) + \
               [z3.And(*[z3.And(f[n] >= -2 ** 31, f[n] < 2 ** 31) for f in (s.left, s.right, s.first, s.last)])]
    def inr(s, n, t):
        return z3.And(t >= 0, t < s.N, s.lo(n) <= s.slot(t), s.slot(t) < s.hi(n), s.idx[s.slot(t)] == t)
    def proj(s, n, c):
        """projection of a 4-vector c under node n's projection, written independently of the code"""
        if s.p == 'a': return z3.If(s.axis[n] == 0, c[0], z3.If(s.axis[n] == 1, c[1], c[2]))
        return s.nv[0][n] * c[0] + s.nv[1][n] * c[1] + s.nv[2][n] * c[2]
    def pval(s, ex, st, n):
        if s.p == 'a': return z3.If(s.axis[n] == 0, s.q[0], z3.If(s.axis[n] == 1, s.q[1], z3.If(s.axis[n] == 2, s.q[2], s.q[3])))
        return s.proj(n, s.q)
    def pt(s, t): return [x[t] for x in s.X]
    def sep(s, n, t):
        """separation at node n for point t"""
        pr = s.proj(n, s.pt(t))
        return z3.Implies(z3.And(s.left[n] != -1, s.inr(n, t)), z3.And(z3.Implies(s.slot(t) < s.mid(n), pr <= s.th[n]), z3.Implies(s.slot(t) >= s.mid(n), pr >= s.th[n])))
    def dist_def(s, t):
        c = s.pt(t)
        e = None
        for a, b in zip(c, s.q):
            x = (a - b) * (a - b); e = x if e is None else e + x
        return s.Dist(t) == e
    def ghost(s):
        def inst(ex, st, key):
            return [s.dist_def(key), z3.Implies(z3.And(key >= 0, key < s.N), s.Dist(key) < DMAX)]
        return knn.Ghost(lambda k: s.Dist(k), inst=inst)

def mk_list(ex, st, offs, N):
    return c01.setup_obj(ex, st, offs, knn.PFX[N], N)

def search_contract(T_of, offs):
    """contract of the recursive search at its own call sites"""
    def h(ex, st, ins, args):
        T = T_of()
        dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
        N = knn.parse_N(dem)
        G = T.ghost()
        if not (isinstance(args[0], Ptr) and args[0].r is T.rt): raise Unsupported('search on another tree')
        if not (isinstance(args[1], Ptr) and args[1].r is T.rq): raise Unsupported('search with another query')
        n = iv(ex.toU(st, args[2], 32))
        R = knn.res_at(ex, offs, args[3], N)
        v = R.at(st)
        S, P = knn.seen(ex, st), knn.pos(ex, st)
        eps = rv(ex.load(st, ex.padd_const(args[4], offs.set_eps), 'double'))
        ex.oblige(st, z3.And(n >= 0, n < T.M), 'pre of knn_search: valid node index', 'precondition')
        ex.oblige(st, eps <= 0, 'pre of knn_search: default setting', 'precondition')
        for f in T.node_facts(n): st.assume(f)
        for nm, f in c01.inv(v): ex.oblige(st, f, 'pre of knn_search: ' + nm, 'precondition')
        for nm, f in knn.rinv(v, S, P, G): ex.oblige(st, f, 'pre of knn_search: ' + nm, 'precondition')
        t = z3.Int('t_')
        ex.oblige(st, forall(t, z3.Implies(S[t], z3.Not(T.inr(n, t))), [S[t]]), 'pre of knn_search: no point of the subtree offered yet', 'precondition')
        if T.cur is not None:
            ex.oblige(st, T.meas(n) < T.meas(T.cur), 'termination: the recursion measure decreases', 'termination')
        nf0 = v.nf
        w = knn.fresh_list(ex, st, R, v)
        for nm, f in c01.inv(w): st.assume(f)
        S2 = z3.Const(fresh_name('ghost_seen'), knn.SeenS); P2 = z3.Const(fresh_name('ghost_pos'), knn.PosS)
        st.assume(forall(t, S2[t] == z3.Or(S[t], T.inr(n, t)), [S2[t]]))
        st.mem[('ghost', 'seen')] = S2; st.mem[('ghost', 'pos')] = P2
        for nm, f in knn.rinv(w, S2, P2, G): st.assume(f)
        tot = nf0 + T.hi(n) - T.lo(n)
        st.assume(w.nf == z3.If(tot < w.cap, tot, w.cap))
        return True
    return (r'UnsafeKdTree<.*>::knn_search<small_gicp::KnnResult<', h)

def prove_search(ctx, u, offs, p, N):
    ex = ctx.exec(u)
    fn = u.one(r'Projection>::knn_search<small_gicp::KnnResult<%d, .*%s' % (N, '') if False else r'UnsafeKdTree<small_gicp::PointCloud, small_gicp::%sProjection>::knn_search<small_gicp::KnnResult<%d,' % ({'a': 'AxisAligned', 'n': 'Normal'}[p], N))
    box = {}
    def setup(ex, st):
        T = box['T'] = Tree(ex, st, offs, p)
        R = box['R'] = mk_list(ex, st, offs, N)
        nd = z3.Int('node'); st.assume(z3.And(nd >= -2 ** 31, nd < 2 ** 31))
        n = box['n'] = z3.Int('nu'); st.assume(n == T.U(nd)); st.assume(z3.And(n >= 0, n < T.M))
        T.cur = n
        for f in T.node_facts(n): st.assume(f)
        v = R.at(st)
        for nm, f in c01.inv(v): st.assume(f)
        G = T.ghost()
        S, P = knn.seen(ex, st), knn.pos(ex, st)
        for nm, f in knn.rinv(v, S, P, G): st.assume(f)
        t = z3.Int('t_')
        st.assume(forall(t, z3.Implies(S[t], z3.Not(T.inr(n, t))), [S[t]]))
        rs = Region('setting', size=8, const=True)
        eps = ex.load(st, Ptr(rs, (), offs.set_eps), 'double'); st.assume(eps <= 0)
        # facts about all points
        st.assume(forall(t, z3.And(T.Dist(t) >= 0, z3.Implies(z3.And(t >= 0, t < T.N), T.Dist(t) < DMAX)), [T.Dist(t)]))
        st.assume(forall(z3.Int('j_'), z3.Implies(True, z3.BoolVal(True)))) if False else None
        return [Ptr(T.rt), Ptr(T.rq), nd, R.ptr, Ptr(rs)]
    def post(ex, st0, st, ret, args):
        T, R, n = box['T'], box['R'], box['n']
        G = T.ghost()
        v, o = R.at(st), R.at(st0)
        S0 = knn.seen(ex, st0); S, P = knn.seen(ex, st), knn.pos(ex, st)
        t, j = z3.Ints('t0 j0')
        inS = z3.Or(S0[t], T.inr(n, t))
        # prune bound for an arbitrary point t of this subtree: on which side is it, and how far
        st.assume(T.sep(n, t)); st.assume(T.dist_def(t))
        val = T.pval(ex, st, n)
        cut = (val - T.th[n]) * (val - T.th[n])
        leaf = ex.quick(st, T.left[n] == -1)
        if not leaf:
            pp = T.proj(n, T.pt(t))
            side = z3.Or(z3.And(T.slot(t) < T.mid(n), val >= T.th[n]), z3.And(T.slot(t) >= T.mid(n), val <= T.th[n]))
            bound = z3.Implies(z3.And(T.inr(n, t), T.left[n] != -1, side), T.Dist(t) >= cut)
            st.assume(prune_fact(T, n, t))
            ex.oblige(st, bound, 'the pruned side is at least the cut distance away', 'post')
            # a non-empty pruned side bounds the cut by a finite distance
            for w in (T.idx[T.lo(n)], T.idx[T.mid(n)]):
                st.assume(T.sep(n, w)); st.assume(T.dist_def(w)); st.assume(prune_fact(T, n, w))
        inst_pc(st, [t, j, v.cap - 1, v.I[j], P[t]])
        res = [(nm, f) for nm, f in c01.inv(v)]
        res.append(('search is not stopped early', bv_(ret) if not isinstance(ret, bool) else z3.BoolVal(ret)))
        res.append(('every entry is an earlier entry or a point of the subtree, with its true distance',
                    z3.Implies(z3.And(0 <= j, j < v.nf), z3.And(z3.Or(S0[v.I[j]], T.inr(n, v.I[j])), v.D[j] == T.Dist(v.I[j]), P[v.I[j]] == j))))
        res.append(('every point of the subtree and every earlier candidate is in the list or not closer than the worst entry',
                    z3.Implies(z3.And(inS, S[t] == S[t]), z3.Or(z3.And(P[t] >= 0, P[t] < v.nf, v.I[P[t]] == t), T.Dist(t) >= v.D[v.cap - 1]))))
        tot = o.nf + T.hi(n) - T.lo(n)
        res.append(('count', v.nf == z3.If(tot < v.cap, tot, v.cap)))
        return res
    def prune_fact(T, n, t):
        """instance of the prune lemma (proved separately): |proj(p)-proj(q)|^2 <= |p-q|^2"""
        pp, val = T.proj(n, T.pt(t)), T.pval(None, None, n)
        return z3.And(z3.Implies(z3.And(T.left[n] != -1, pp <= T.th[n], T.th[n] <= val), T.Dist(t) >= (val - T.th[n]) * (val - T.th[n])),
                      z3.Implies(z3.And(T.left[n] != -1, pp >= T.th[n], T.th[n] >= val), T.Dist(t) >= (val - T.th[n]) * (val - T.th[n])))
    def loops(L):
        T, R, n = box['T'], box['R'], box['n']
        ex = L.ex
        G = T.ghost()
        v, o = R.at(L.st), R.at(L.pre)
        S0 = knn.seen(ex, L.pre); S, P = knn.seen(ex, L.st), knn.pos(ex, L.st)
        t = z3.Int('t_')
        k = iv(L.k)
        out = [(nm, f) for nm, f in c01.inv(v)] + [(nm, f) for nm, f in knn.rinv(v, S, P, G)]
        lo, hi = T.lo(n), T.hi(n)
        def upto(a, b): return forall(t, S[t] == z3.Or(S0[t], z3.And(T.inr(n, t), a <= T.slot(t), T.slot(t) < b)), [S[t]])
        out += [('k bound', k <= hi - lo), ('seen up to k', upto(lo, lo + k)), ('seen from the end', upto(hi - k, hi)),
                ('count', v.nf == z3.If(o.nf + k < v.cap, o.nf + k, v.cap))]
        for nm in L.phis:
            if L.tys[nm].k == 'i' and L.tys[nm].n == 64:
                c = iv(L.cur[nm])
                out += [(nm + ' pos', z3.And(c >= lo, c <= hi)), (nm + '=lo+k', c == lo + k), (nm + '=hi-k', c == hi - k), (nm + '=k', c == k)]
        return out
    knn_c = None
    ex.contracts = [search_contract(lambda: box['T'], offs)]
    class GG: pass
    def lazy(i):
        def h(*a): return knn.contracts(offs, box['T'].ghost())[i][1](*a)
        return h
    ex.contracts += [(knn.contracts(offs, None)[i][0], lazy(i)) for i in (0, 1)]
    ctx.verify(ex, fn, 'UnsafeKdTree<%s>::knn_search<KnnResult<%d>>' % (p, N), setup, post, loops=loops)

def prune_lemma(ctx):
    """|proj(p)-proj(q)|^2 <= |p-q|^2 for both projections, in the form used at the prune test"""
    p = z3.Reals('p0 p1 p2 p3'); q = z3.Reals('q0 q1 q2 q3'); n = z3.Reals('n0 n1 n2'); th = z3.Real('th')
    D = sum(((a - b) * (a - b) for a, b in zip(p, q)), z3.RealVal(0))
    for ax in range(3):
        for nm, c in (('left', [p[ax] <= th, th <= q[ax]]), ('right', [p[ax] >= th, th >= q[ax]])):
            u, w = z3.Reals('u w')
            # (q-th)^2 <= (p-q)^2 from 0 <= q-th <= q-p
            ctx.lemma('prune bound axis %d %s' % (ax, nm), c, D >= (q[ax] - th) * (q[ax] - th), 'nra')
    # Cauchy-Schwarz through the Lagrange identity, on the difference vector e = q - p
    e = z3.Reals('e0 e1 e2'); m, s = z3.Reals('m s')
    dot = sum((a * b for a, b in zip(n, e)), z3.RealVal(0))
    nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]; ee = e[0] * e[0] + e[1] * e[1] + e[2] * e[2]
    lag = (n[0] * e[1] - n[1] * e[0]) * (n[0] * e[1] - n[1] * e[0]) + (n[0] * e[2] - n[2] * e[0]) * (n[0] * e[2] - n[2] * e[0]) + (n[1] * e[2] - n[2] * e[1]) * (n[1] * e[2] - n[2] * e[1])
    ctx.lemma('Lagrange identity', [], nn * ee == dot * dot + lag, 'nra')
    a, b, c = z3.Reals('a b c')
    ctx.lemma('sum of squares is non-negative', [lag < 0], z3.BoolVal(False), 'nra')
    EE, DD, LL, NN = z3.Reals('EE DD LL NN')
    ctx.lemma('projection does not increase length', [NN == 1, NN * EE == DD * DD + LL, LL >= 0], EE >= DD * DD, 'nra')
    x, y, t = z3.Reals('x y t')
    ctx.lemma('cut monotone left', [x <= t, t <= y], (y - x) * (y - x) >= (y - t) * (y - t), 'nra')
    ctx.lemma('cut monotone right', [x >= t, t >= y], (y - x) * (y - x) >= (y - t) * (y - t), 'nra')
    pr = lambda v: n[0] * v[0] + n[1] * v[1] + n[2] * v[2]
    ctx.lemma('projection is linear', [], pr(q) - pr(p) == n[0] * (q[0] - p[0]) + n[1] * (q[1] - p[1]) + n[2] * (q[2] - p[2]), 'nra')

def prove_public(ctx, u, offs, fname, p, N, safe=False):
    """the public entry points: root call on an empty list"""
    ex = ctx.exec(u)
    box = {}
    def setup(ex, st):
        T = box['T'] = Tree(ex, st, offs, p)
        T.cur = None
        k = z3.Int('k'); st.assume(z3.And(k >= 1, k < 2 ** 31 - 1))
        box['cap'] = k if N < 0 else iv(N)
        ri = Region('out_indices', 1, 8, [(0, 'i64')], length=box['cap']); rd = Region('out_dists', 1, 8, [(0, 'double')], length=box['cap'])
        box['I'], box['D'] = ri, rd
        t = z3.Int('t_')
        st.assume(forall(t, z3.And(T.Dist(t) >= 0, z3.Implies(z3.And(t >= 0, t < T.N), T.Dist(t) < DMAX)), [T.Dist(t)]))
        tp = Ptr(T.rt)
        if safe:
            rs = Region('safe_tree', size=256, const=True)
            off = offs.ka_tree
            # the kdtree member is embedded: rebuild the tree fields inside the outer object
            for kk in [x for x in st.mem if len(x) == 2 and x[0] is T.rt]:
                st.mem[(rs, kk[1] + off)] = st.mem.pop(kk)
            T.rt = rs; T.toff = off
            tp = Ptr(rs)
        return [tp, Ptr(T.rq), k, Ptr(ri, (0,)), Ptr(rd, (0,))]
    def post(ex, st0, st, ret, args):
        T, cap = box['T'], box['cap']
        I, D = ex.named_arr(st, box['I'], 0, 'i64'), ex.named_arr(st, box['D'], 0, 'double')
        S, P = knn.seen(ex, st), knn.pos(ex, st)
        i, j, t = z3.Ints('i0 j0 t0')
        r = iv(ret)
        inst_pc(st, [t, i, j, I[j], I[i], r - 1, T.slot(t), P[t]])
        return [('returns min(k, number of points)', r == z3.If(T.N < cap, T.N, cap)),
                ('ascending', z3.Implies(z3.And(0 <= i, i <= j, j < r), D[i] <= D[j])),
                ('valid indices with true squared distances', z3.Implies(z3.And(0 <= j, j < r, S[I[j]] == S[I[j]]), z3.And(I[j] >= 0, I[j] < T.N, D[j] == T.Dist(I[j])))),
                ('distinct', z3.Implies(z3.And(0 <= i, i < j, j < r), I[i] != I[j])),
                ('no left-out point is closer than the last one returned', z3.Implies(z3.And(0 <= t, t < T.N, T.idx[T.slot(t)] == t, 0 <= T.slot(t), T.slot(t) < T.N, S[t] == S[t]),
                      z3.Or(z3.And(P[t] >= 0, P[t] < r, I[P[t]] == t), T.Dist(t) >= D[r - 1])))]
    def lazy(i):
        def h(*a): return knn.contracts(offs, box['T'].ghost())[i][1](*a)
        return h
    sc = search_contract(lambda: box['T'], offs)
    def sc2(ex, st, ins, args):
        T = box['T']
        a = list(args)
        if isinstance(a[0], Ptr) and a[0].r is T.rt and a[0].off == getattr(T, 'toff', 0): a[0] = Ptr(T.rt)
        return sc[1](ex, st, ins, a)
    ex.contracts = [(sc[0], sc2)] + [(knn.contracts(offs, None)[i][0], lazy(i)) for i in (0, 1)]
    ctx.verify(ex, u.one(r'^%s\(' % fname), fname, setup, post)

ASSUMPTIONS = ['the tree is valid as C03 establishes it (leaves partition the index permutation, splits separate, projections are a coordinate axis or a unit normal)',
               'squared distances are below DBL_MAX; at most 2^31-1 points; k < 2^31-1; the tree was built over exactly the cloud it references']

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    ctx.assume_note('every point id 0..N-1 occurs in the index permutation (surjectivity of the inverse slot map; a finite injection on N points is onto)')
    knn.push_lemma(ctx)
    prune_lemma(ctx)
    c01.prove_push(ctx, ((('d', -1), ('s1', 1), ('s5', 5))))
    u = ctx.unit('c02', src(), keep=knn.KEEP, prefer_heads=[r'::knn_search<small_gicp::KnnResult'])
    offs = Offs(u)
    for p in ('a', 'n'):
        for N in (-1, 1): prove_search(ctx, u, offs, p, N)
    prove_search(ctx, u, offs, 'a', 5)
    prove_public(ctx, u, offs, 'vp_a_knn', 'a', -1)
    prove_public(ctx, u, offs, 'vp_n_knn', 'n', -1)
    prove_public(ctx, u, offs, 'vp_a_nn', 'a', 1)
    prove_public(ctx, u, offs, 'vp_n_nn', 'n', 1)
    prove_public(ctx, u, offs, 'vp_a_knn5', 'a', 5)
    prove_public(ctx, u, offs, 'vp_ka_knn', 'a', -1, safe=True)
    prove_public(ctx, u, offs, 'vp_ka_nn', 'a', 1, safe=True)

def harness(ctx, deep):
    from ..native import run_harness
    return run_harness(ctx, 'h_c02', deep, flags=['-fopenmp', '-ltbb'], opt='-O2')
