"""C17: estimated normals and covariances are well formed for every point."""
from ..common import *
from ..par import *
from ..unit import OMPFLAGS, UNROLL_LATE, UNROLL
from .c12 import mk_cloud
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['the search tree was built over the same cloud; its knn_search is C02 (returns at most k distinct point indices, the nearest ones, writes only its two buffers)',
               "Eigen's closed-form 3x3 symmetric eigen-solver is an assumed contract: orthonormal eigenvectors, columns ordered by ascending eigenvalue of the matrix it is given (exact in real arithmetic)",
               'points have homogeneous coordinate one; fewer than 2^31 points; the neighbour count is positive', 'PointCloud::resize is under contract in C21', ASSUME]
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace small_gicp; using PC = PointCloud; using UT = UnsafeKdTree<PC>; using KT = KdTree<PC>;
'''
SETTERS = [('N', 'NormalSetter', 'estimate_normals'), ('C', 'CovarianceSetter', 'estimate_covariances'), ('B', 'NormalCovarianceSetter', 'estimate_normals_covariances')]
TREES = [('U', 'UT'), ('K', 'KT')]
def src1(): return SRC + ''.join('void vp_one%s%s(PC& c, %s& t, int k, size_t i) { estimate_local_features<%s<PC>>(c, t, k, i); }\n' % (s, t, T, S) for s, S, _ in SETTERS for t, T in TREES)
def src2(): return SRC + ''.join('void vp_drv%s%d%s(PC& c, %sint k, int nt) { %s%s(c, %sk%s); }\n' % (s, b, t, T and T + '& t, ', F, be, 't, ' if t != '0' else '', ', nt' if b == 1 else '') for s, _, F in SETTERS for b, be in enumerate(('', '_omp', '_tbb')) for t, T in (('0', ''), ('K', 'KT')))
OFFS = [('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs')]
VEC = r'^std::vector<(unsigned long|double), .*>::~?vector\('
KNN = r'^small_gicp::UnsafeKdTree<.*>::knn_search\('
EIG = r'^Eigen::SelfAdjointEigenSolver<.*>::compute(Direct)?\(|^Eigen::SelfAdjointEigenSolver<.*>& Eigen::SelfAdjointEigenSolver<.*>::compute(Direct)?<'
KEEP1 = [KNN, EIG, VEC]
ONE = r'^void small_gicp::estimate_local_features<.*\(.*, int, unsigned long\)$'
KEEP2 = [ONE, r'PointCloud::resize\(', r'^small_gicp::UnsafeKdTree<.*>::UnsafeKdTree<', r'^small_gicp::UnsafeKdTree<.*>::~', r'^void tbb::.*parallel_for<', r'blocked_range<unsigned long> const&\)::operator\(\)', r'^std::vector<.*>::~vector\(']
E3 = float(1e-3)

def solver_offs(u):
    """m_eivec at 0 (9 doubles); m_eivalues after it (layout checked in the IR)"""
    m = re.search(r'^%"class\.Eigen::SelfAdjointEigenSolver[^"]*" = type <?\{ ([^}]*) \}', u.text, re.M)
    if not m: return
    els = re.findall(r'%"[^"]*"|\w+', m.group(1)); t = re.search(r'^%s = type \{ (.*) \}' % re.escape(els[0]), u.text, re.M)
    if not t: raise ProofGap('eigen-solver layout')

def prove_one(ctx, u, o, s, t):
    box = {}
    wants_n, wants_c = s in 'NB', s in 'CB'
    def setup(ex, st):
        box.clear(); cl = box['cl'] = mk_cloud(ex, st, o, 'cloud'); cl.rn.const = cl.rc.const = False
        tr = box['tree'] = Region('tree', size=128, const=True); k, i = box['k'], box['i'] = z3.Ints('num_neighbors i')
        inner = box['inner'] = Region('unsafe_tree', size=128, const=True)
        st.assume(z3.And(1 <= k, k < 2 ** 31, 0 <= i, i < cl.n, cl.n < 2 ** 31)); j = z3.Int('j_')
        A = cl.P(j)[3]; st.assume(forall(j, A == 1, [A])); st.assume([cl.P(i)[3] == 1]); box['r0'] = {}
        for r, on in ((cl.rn, wants_n), (cl.rc, wants_c)):
            if not on: r.const = True
        def on_store(ex, st, p, v, kind):
            if p.r in (cl.rn, cl.rc): ex.oblige(st, iv(p.key[-1]) == i, 'only the attributes of the point itself are written', 'frame')
        ex.on_store = on_store
        return [Ptr(cl.r), Ptr(tr), k, i]
    def vec(ex, st, ins, a):
        if '~vector' in ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]: return UNDEF
        n = iv(ex.toU(st, ex.asint(st, a[1]), 64)) if len(a) > 1 else z3.IntVal(0); kd = 'double' if 'vector<double' in ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)] else 'i64'
        r = Region('k_dists' if kd == 'double' else 'k_indices', 1, 8, [(0, kd)], length=n)
        for d, q in ((0, z3.IntVal(0)), (8, n), (16, n)): ex.store(st, ex.padd_const(a[0], d), Ptr(r, (q,)), 'ptr')
        return UNDEF
    def knn_(ex, st, ins, a):
        cl, i = box['cl'], box['i']
        if len(a) != 6: raise Unsupported('search signature')
        this, q, k, pi, pd, se = a
        ex.oblige(st, z3.BoolVal(isinstance(this, Ptr) and this.r is box['tree']), 'the given tree is searched', 'pre')
        for c in range(3): ex.oblige(st, rv(ex.asreal(ex.load(st, ex.padd_const(q, 8 * c), 'double'))) == rv(cl.P(i)[c]), 'the query is the point [%d]' % c, 'pre')
        kk = iv(ex.asint(st, k)); ex.oblige(st, kk == box['k'], 'the configured number of neighbours is requested', 'pre')
        ex.oblige(st, rv(ex.asreal(ex.load(st, se, 'double'))) == 0, 'the search is exact', 'pre')
        for p in (pi, pd): ex.oblige(st, z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r.nkeys == 1 and p.off == 0), iv(p.key[-1]) == 0, iv(p.r.length) >= kk), 'the result buffers hold k entries', 'pre')
        n = fint('found'); A = z3.Array(fresh_name('neighbour'), IntS, IntS); st.mem[(pi.r, 0, 'i64')] = A; st.mem[(pd.r, 0, 'double')] = z3.Array(fresh_name('dist'), IntS, RealS)
        j, l = z3.Ints('j_ l_'); st.assume([0 <= n, n <= kk, n <= cl.n, forall(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= A[j], A[j] < cl.n)), [A[j]])])
        X = lambda j, c: rv(cl.P(A[j])[c])
        terms = [(c,) for c in range(3)] + [(c, d) for c in range(3) for d in range(c, 3)]
        S = {t_: z3.Function(fresh_name('sum_' + ''.join(map(str, t_))), IntS, RealS) for t_ in terms}
        for f in S.values(): st.assume(f(0) == 0)
        def step(q):
            out = [z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= A[q], A[q] < cl.n, rv(cl.P(A[q])[3]) == 1))]
            for t_, f in S.items(): out.append(f(q + 1) == f(q) + (X(q, t_[0]) if len(t_) == 1 else X(q, t_[0]) * X(q, t_[1])))
            return out
        box['knn'] = dict(n=n, A=A, S=S, step=step, X=X); st.mem[('mark', 'knn')] = box['knn']
        return n
    def eig(ex, st, ins, a):
        K = st.mem.get(('mark', 'knn'))
        if not K: raise Unsupported('eigen-solver before the search')
        n = z3.ToReal(K['n']); S = K['S']; st.assume(n >= 1)
        M = [[rv(ex.asreal(ex.load(st, ex.padd_const(a[1], 8 * (r + 3 * c)), 'double'))) for c in range(3)] for r in range(3)]
        for r in range(3):
            for c in range(r + 1):
                want = (S[(c, r)](K['n']) - (S[(r,)](K['n']) / n) * S[(c,)](K['n'])) / n
                ex.oblige(st, M[r][c] == want, 'the analysed matrix is the sample covariance of the neighbours [%d,%d]' % (r, c), 'pre', assume=False)
        U = [[freal('U%d%d' % (r, c)) for c in range(3)] for r in range(3)]; L = [freal('lambda%d' % c) for c in range(3)]
        for r in range(3):
            for c in range(3): ex.store(st, ex.padd_const(a[0], 8 * (r + 3 * c)), U[r][c], 'double')
        for c in range(3): ex.store(st, ex.padd_const(a[0], 72 + 8 * c), L[c], 'double')
        d = lambda a_, b_: U[0][a_] * U[0][b_] + U[1][a_] * U[1][b_] + U[2][a_] * U[2][b_]
        e = lambda a_, b_: U[a_][0] * U[b_][0] + U[a_][1] * U[b_][1] + U[a_][2] * U[b_][2]
        st.assume([d(p, q) == (1 if p == q else 0) for p in range(3) for q in range(p + 1)] + [L[0] <= L[1], L[1] <= L[2]])
        st.mem[('mark', 'U')] = U
        return a[0]
    def loops(L):
        ex, st = L.ex, L.st; K = box.get('knn'); out = []
        if not K or ('mark', 'knn') not in st.mem: return []
        n, S = K['n'], K['S']
        for nm in L.phis:
            if not (L.tys[nm].k == 'i' and L.tys[nm].n > 1 or isinstance(L.cur[nm], Ptr) and L.cur[nm].r.name == 'k_indices'): continue
            q = L.cur[nm]; q = iv(q.key[-1]) if isinstance(q, Ptr) else iv(q.term() if isinstance(q, Scaled) else q)
            st.assume(K['step'](q)); out += [('%s<=found' % nm, q <= n), ('%s<found' % nm, q < n), ('%s>=0' % nm, q >= 0)]
            cells = [(x, rv(ex.asreal(L.cur[x])), None) for x in L.phis if L.tys[x].k == 'double'] + [('%s+%d' % (k[0].name, k[1]), rv(ex.asreal(st.mem[k][1])), (k[0].size, k[1])) for k in L.mods if len(k) == 2 and isinstance(k[0], Region) and k in st.mem and st.mem[k][0] == 'double' and not isinstance(st.mem[k][1], Undef)]
            for x, v, loc in cells:
                for t_, f in S.items(): out.append(('%s is the sum %s of the neighbours before %s' % (x, t_, nm), v == f(q)))
                out.append(('%s counts' % x, v == z3.ToReal(q)))
        return out
    def post(ex, st0, st, ret, a):
        cl, i = box['cl'], box['i']; K = st.mem.get(('mark', 'knn')); U = st.mem.get(('mark', 'U')); out = []
        N = [rv(ex.asreal(ex.load(st, Ptr(cl.rn, (i,), 8 * c), 'double'))) for c in range(4)]; C = [[rv(ex.asreal(ex.load(st, Ptr(cl.rc, (i,), 8 * (r + 4 * c)), 'double'))) for c in range(4)] for r in range(4)]
        if not K: return [('the neighbours are searched', z3.BoolVal(False))]
        P = [rv(x) for x in cl.P(i)]
        if U is None:
            out.append(('only fewer than five neighbours are insufficient', K['n'] < 5))
            if wants_n: out += [('zero normal [%d]' % c, N[c] == 0) for c in range(4)]
            if wants_c: out += [('identity covariance [%d,%d]' % (r, c), C[r][c] == (1 if r == c and r < 3 else 0)) for r in range(4) for c in range(4)]
        else:
            out.append(('five neighbours are sufficient', K['n'] >= 5))
            if wants_n:
                out += [('the normal is the least-variance direction or its opposite', z3.Or(z3.And([N[c] == U[c][0] for c in range(3)]), z3.And([N[c] == -U[c][0] for c in range(3)]))), ('normal[3]', N[3] == 0), ('the normal faces the sensor origin', N[0] * P[0] + N[1] * P[1] + N[2] * P[2] <= 0)]
            if wants_c:
                e3 = rv(Fraction(E3))
                out += [('regularised covariance [%d,%d]' % (r, c), C[r][c] == (e3 * U[r][0] * U[c][0] + U[r][1] * U[c][1] + U[r][2] * U[c][2] if r < 3 and c < 3 else 0)) for r in range(4) for c in range(4)]
        return out
    def prepost(ex, st0, st, ret, a): return post(ex, st0, st, ret, a)
    ex = ctx.exec(u, contracts=[(KNN, knn_), (EIG, eig), (VEC, vec)])
    ctx.verify(ex, u.one(r'^vp_one%s%s\(' % (s, t)), 'estimate_local_features<%s, %s>' % (dict((a, b) for a, b, _ in SETTERS)[s], {'U': 'UnsafeKdTree', 'K': 'KdTree'}[t]), setup, prepost, loops=loops)

class Spec(ParSpec):
    strict = True
    def __init__(s, box): s.box = box
    def space(s, ex, st, lo, hi): return [('starts at the first point', lo == 0), ('ends at the last point', hi == s.box['cl'].n)]
    def begin(s, ex, st, lo, hi):
        c = z3.Const(fresh_name('estimated'), z3.ArraySort(IntS, IntS)); st.mem[('ghost', 'cnt')] = c; j = z3.Int('j_')
        st.assume(forall(j, z3.Implies(z3.And(lo <= j, j < hi), c[j] == 0), [c[j]]))
    def end(s, ex, st, lo, hi):
        c = st.mem[('ghost', 'cnt')]; j = z3.Int('jc'); return [('every point of the chunk is estimated once', z3.Implies(z3.And(lo <= j, j < hi), c[j] == 1))]
    def leave(s, ex, st): pass
    def after(s, ex, st, lo, hi):
        c = z3.Const(fresh_name('estimated'), z3.ArraySort(IntS, IntS)); st.mem[('ghost', 'cnt')] = c; j = z3.Int('j_')
        st.assume(forall(j, z3.Implies(z3.And(lo <= j, j < hi), c[j] == 1), [c[j]]))

def prove_driver(ctx, u, o, s, b, t):
    box = {}; setter = dict((a, c) for a, c, _ in SETTERS)[s]
    def setup(ex, st):
        box.clear(); cl = box['cl'] = mk_cloud(ex, st, o, 'cloud'); st.assume(cl.n < 2 ** 31)
        for off, q in ((o.pc_p, cl.rp), (o.pc_n, cl.rn), (o.pc_c, cl.rc)): st.mem[(cl.r, off + 8)] = st.mem[(cl.r, off + 16)] = ('ptr', Ptr(q, (cl.n,)))
        c = z3.Const('estimated', z3.ArraySort(IntS, IntS)); st.mem[('ghost', 'cnt')] = c; j = z3.Int('j_'); st.assume(forall(j, c[j] == 0, [c[j]]))
        st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')] = z3.IntVal(0), cl.n; st.mem[('ghost', 'sized')] = z3.IntVal(0)
        k, nt = box['k'], box['nt'] = z3.Ints('num_neighbors num_threads'); st.assume(z3.And(1 <= k, k < 2 ** 31, 1 <= nt, nt < 2 ** 31)); box['tree'] = Region('tree', size=128, const=True)
        return [Ptr(cl.r)] + ([Ptr(box['tree'])] if t != '0' else []) + [k, nt]
    def resize(ex, st, ins, a):
        ex.oblige(st, z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is box['cl'].r), iv(ex.asint(st, a[1])) == box['cl'].n), 'the attributes are given the size of the cloud', 'pre'); st.mem[('ghost', 'sized')] = z3.IntVal(1); return UNDEF
    def ctor(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(t == '0' and isinstance(a[1], Ptr) and a[1].r is box['cl'].r), 'the tree is built over the cloud', 'pre'); st.mem[('mark', 'tree')] = a[0].r; box['built'] = a[0]; return UNDEF
    def one(ex, st, ins, a):
        cl = box['cl']; dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
        ex.oblige(st, z3.BoolVal(split_targs(dem)[0].startswith('small_gicp::%s<' % setter)), 'the requested attribute is estimated', 'pre')
        c, tr, k, i = a[:4]; i = iv(ex.asint(st, i))
        ex.oblige(st, z3.BoolVal(isinstance(c, Ptr) and c.r is cl.r), 'the attributes of the given cloud are estimated', 'pre')
        ok = isinstance(tr, Ptr) and (tr.r is box['tree'] if t != '0' else box.get('built') is not None and tr.r is box['built'].r and tr.off == box['built'].off)
        ex.oblige(st, z3.BoolVal(ok), 'neighbours come from ' + ('the given tree' if t != '0' else 'a tree over the cloud'), 'pre')
        ex.oblige(st, iv(ex.asint(st, k)) == box['k'], 'the given neighbour count is used', 'pre')
        ex.oblige(st, st.mem[('ghost', 'sized')] == 1, 'the attributes have been sized before they are written', 'pre')
        n = st.mem[('ghost', 'cnt')]; lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        ex.oblige(st, z3.And(lo <= i, i < hi), 'the point belongs to the chunk', 'pre'); ex.oblige(st, n[i] == 0, 'no point is estimated twice', 'pre')
        c1 = z3.Const(fresh_name('estimated'), n.sort()); j = z3.Int('j_'); st.mem[('ghost', 'cnt')] = c1
        st.assume([c1[i] == 1, n[i] == n[i]] + [forall(j, z3.Implies(j != i, c1[j] == n[j]), [x]) for x in (c1[j], n[j])])
        return UNDEF
    def loops(L):
        ex, st = L.ex, L.st; out = []; cl = box['cl']; j = z3.Int('j_'); cnt = st.mem[('ghost', 'cnt')]; lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        for nm in L.phis:
            if not (L.tys[nm].k == 'i' and L.tys[nm].n > 1): continue
            q = L.cur[nm]; q = iv(q.term() if isinstance(q, Scaled) else q)
            out += [('%s<=n' % nm, q <= cl.n), ('%s<n' % nm, q < cl.n), ('%s>=lo' % nm, q >= lo), ('%s<=hi' % nm, q <= hi), ('%s<hi' % nm, q < hi),
                    ('points from %s on' % nm, forall(j, z3.Implies(z3.And(q <= j, j < hi), cnt[j] == 0), [cnt[j]])), ('points before %s' % nm, forall(j, z3.Implies(z3.And(lo <= j, j < q), cnt[j] == 1), [cnt[j]]))]
        return out
    def post(ex, st0, st, ret, a):
        j = z3.Int('j0'); c = st.mem[('ghost', 'cnt')]; return [('every point is estimated exactly once', z3.Implies(z3.And(0 <= j, j < box['cl'].n), c[j] == 1)), ('the attributes are sized', z3.Or(box['cl'].n == 0, st.mem[('ghost', 'sized')] == 1))]
    cs = [(ONE, one), (r'PointCloud::resize\(', resize), (r'^small_gicp::UnsafeKdTree<.*>::UnsafeKdTree<', ctor), (r'^small_gicp::UnsafeKdTree<.*>::~|^std::vector<.*>::~vector\(|operator<<|ostream|std::endl|std::flush|~shared_ptr|~__shared_count|_M_release', nop)]
    cs += omp_contracts(lambda ex, st, fn, args: Spec(box)) + tbb_for(lambda ex, st, fn, args: Spec(box), o)
    ctx.verify(ctx.exec(u, contracts=cs), u.one(r'^vp_drv%s%d%s\(' % (s, b, t)), '%s%s%s' % (dict((a, c) for a, _, c in SETTERS)[s], ('', '_omp', '_tbb')[b], '(cloud, tree, k)' if t != '0' else '(cloud, k)'), setup, post, loops=loops)

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    u = ctx.unit('c17', src1() + off_src(OFFS), keep=KEEP1, passes=UNROLL); o = Offs(u)
    solver_offs(u)
    for s, _, _ in SETTERS:
        for t, _ in TREES: ctx.guard('one %s%s' % (s, t), lambda s=s, t=t: prove_one(ctx, u, o, s, t))
    u2 = ctx.unit('c17d', src2() + RANGE_SRC + off_src(OFFS), keep=KEEP2, extra_flags=OMPFLAGS); o2 = Offs(u2)
    for s, _, _ in SETTERS:
        for b in range(3):
            for t in '0K': ctx.guard('driver %s%d%s' % (s, b, t), lambda s=s, b=b, t=t: prove_driver(ctx, u2, o2, s, b, t))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c17', deep, flags=('-fopenmp', '-ltbb', '-fsanitize=address'))
