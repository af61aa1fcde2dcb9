"""C20: projective search only returns genuine neighbours from its window."""
from ..common import *
from .. import knn
from . import c01
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['projections lie in [-512,512]^2 for points and [0,1]x[-512,512] for queries (the equirectangular projection is proved to lie in [0,1]^2)', 'asin in [-pi/2,pi/2], atan2 in [-pi,pi] (axioms)', 'the map is at least 2*h+1 columns wide when it wraps around, at most 2^20 columns and rows; fewer than 2^31 points; windows below 2^20',
               'Eigen::Matrix(rows, cols) and setConstant are assumed contracts', 'squared distances are below DBL_MAX']
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/projective_search.hpp>
using namespace small_gicp;
struct Prj { Eigen::Vector2d operator()(const Eigen::Vector3d& p) const; };
using PR = UnsafeProjectiveSearch<PointCloud, Prj>; using PC_ = UnsafeProjectiveSearch<PointCloud, Prj, BorderClamp, BorderClamp>; using MI = Eigen::Matrix<std::uint32_t, -1, -1>;
size_t vp_rk(const PR& t, const Eigen::Vector4d& q, int k, size_t* i, double* d) { return t.knn_search(q, k, i, d); }
size_t vp_r1(const PR& t, const Eigen::Vector4d& q, int k, size_t* i, double* d) { return t.nearest_neighbor_search(q, i, d); }
size_t vp_ck(const PC_& t, const Eigen::Vector4d& q, int k, size_t* i, double* d) { return t.knn_search(q, k, i, d); }
void vp_build(PR* o, int w, int h, const PointCloud& p) { new (o) PR(w, h, p); }
void vp_eq(const Eigen::Vector3d& p, Eigen::Vector2d* o) { EquirectangularProjection e; *o = e(p); }
'''
def src():
    return SRC + knn.list_src() + off_src([('pts', 'small_gicp::PointCloud', 'points'), ('t_pc', 'PR', 'points'), ('t_map', 'PR', 'index_map'), ('t_h', 'PR', 'search_window_h'), ('t_v', 'PR', 'search_window_v'),
        ('m_d', 'MI', 'm_storage.m_data'), ('m_r', 'MI', 'm_storage.m_rows'), ('m_c', 'MI', 'm_storage.m_cols')]).replace("offsetof(PR, points)", "0") + size_src([('t', 'PR'), ('pc', 'small_gicp::PointCloud')])
KEEP = knn.KEEP + [r'^Prj::', r'Eigen::Matrix<unsigned int, -1, -1, 0, -1, -1>::Matrix<', r'::setConstant\(', r'Matrix<unsigned int, -1, -1, 0, -1, -1>::~', r'PlainObjectBase<Eigen::Matrix<unsigned int, -1, -1.*>::(resize|setConstant)']

class World:
    def __init__(s, ex, st, o, build=False):
        s.ex, s.o = ex, o
        s.N, s.R, s.C, s.h, s.v = z3.Ints('N rows cols window_h window_v')
        st.assume([s.N >= 0, s.N < 2 ** 31, s.R >= 1, s.R < 2 ** 20, s.C >= 1, s.C < 2 ** 20, s.h >= 0, s.h < 2 ** 20, s.v >= 0, s.v < 2 ** 20])
        s.P = Region('points', 1, 32, V4F(), length=s.N, const=True); s.pc = Region('cloud', size=o.pc)
        for k, q in ((0, 0), (8, s.N), (16, s.N)): st.mem[(s.pc, o.pts + k)] = ('ptr', Ptr(s.P, (iv(q),)))
        s.pc.const = True; s.L = [ex.named_arr(st, s.P, 8 * k, 'double') for k in range(4)]
        s.M = Region('index_map', 1, 4, [(0, 'i32')])
        s.U, s.V = [z3.Function(n, RealS, RealS, RealS, RealS) for n in ('proj_u', 'proj_v')]
        s.cu, s.cv, s.cell = [z3.Function(n, IntS, IntS) for n in ('column_of', 'row_of', 'cell_of')]
        s.q = Region('query', size=32, const=True); s.qv = [rv(ex.asreal(ex.load(st, Ptr(s.q, (), 8 * k), 'double'))) for k in range(4)]
        s.inmap = z3.Function('stored_in_map', IntS, BoolS)
        s.Dist = z3.Function('Dist', IntS, RealS)
        s.t = Region('search', size=o.t)
        if not build:
            st.mem[(s.t, o.t_pc)] = ('ptr', Ptr(s.pc)); m = o.t_map
            st.mem[(s.t, m + o.m_d)] = ('ptr', Ptr(s.M, (z3.IntVal(0),))); st.mem[(s.t, m + o.m_r)] = ('i64', s.R); st.mem[(s.t, m + o.m_c)] = ('i64', s.C)
            st.mem[(s.t, o.t_h)] = ('i32', s.h); st.mem[(s.t, o.t_v)] = ('i32', s.v); s.t.const = True; s.M.const = True
    def dist(s, k): return sum(((s.L[i][k] - s.qv[i]) * (s.L[i][k] - s.qv[i]) for i in range(1, 4)), (s.L[0][k] - s.qv[0]) * (s.L[0][k] - s.qv[0]))
    def ghost(s):
        def inst(ex, st, key): return [s.Dist(key) == s.dist(key), s.Dist(key) < DMAX, s.Dist(key) >= 0]
        return knn.Ghost(lambda k: s.Dist(k), inst=inst)
    def split(s, key):
        """(column, row) of a flattened map index row + column * rows"""
        key = z3.simplify(key)
        terms = key.children() if z3.is_add(key) else [key]
        u, v = None, []
        for t in terms:
            fs = t.children() if z3.is_mul(t) else [t]
            if any(f.eq(s.R) for f in fs):
                fs = list(fs); fs.remove(next(f for f in fs if f.eq(s.R)))
                w = fs[0] if fs else z3.IntVal(1)
                for f in fs[1:]: w = w * f
                u = w if u is None else u + w
            else: v.append(t)
        return (u if u is not None else z3.IntVal(0)), (sum(v[1:], v[0]) if v else z3.IntVal(0))
    def access(s, ex, st, p):
        u, v = s.split(iv(p.key[-1]))
        ex.oblige(st, z3.And(u >= 0, u < s.C, v >= 0, v < s.R), 'the index map is only accessed inside the map', 'bounds')
        return u, v
    def wrap(s, u, a, b, cu, repeat):
        """column cu is among u+a .. u+b-1 (wrapped around)"""
        d = cu - u; w = lambda d: z3.And(d >= a, d < b)
        return z3.Or(w(d), w(d + s.C), w(d - s.C)) if repeat else w(d)

def contracts(box):
    def proj(ex, st, ins, a):
        W = box['W']; p = [rv(ex.asreal(ex.load(st, ex.padd_const(a[2], 8 * k), 'double'))) for k in range(3)]
        U, V = W.U(*p), W.V(*p); q = z3.And([x == y for x, y in zip(p, W.qv)])
        for x in (U, V): st.assume(z3.And(x >= -512, x <= 512))
        if box.get('query'): st.assume(z3.Implies(q, z3.And(U >= 0, U <= 1)))
        ex.store(st, a[0], U, 'double'); ex.store(st, ex.padd_const(a[0], 8), V, 'double'); return UNDEF
    def mat(ex, st, ins, a):
        W = box['W']; o = W.o; r, c = [iv(ex.asint(st, ex.load(st, x, 'i32'))) if isinstance(x, Ptr) else iv(ex.asint(st, x)) for x in a[1:3]]
        ex.oblige(st, z3.And(r == W.R, c == W.C), 'the index map has the requested height and width', 'pre')
        for k, kd, v in ((o.m_d, 'ptr', Ptr(W.M, (z3.IntVal(0),))), (o.m_r, 'i64', W.R), (o.m_c, 'i64', W.C)): ex.store(st, ex.padd_const(a[0], k), v, kd)
        return UNDEF
    def setc(ex, st, ins, a):
        W = box['W']; v = iv(ex.asint(st, ex.load(st, a[1], 'i32')))
        ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is W.t and a[0].off == W.o.t_map), 'the index map is filled', 'pre')
        st.mem[(W.M, 0, 'i32')] = z3.K(IntS, v); return a[0]
    return [(r'^Prj::operator', proj), (r'Eigen::Matrix<unsigned int, -1, -1, 0, -1, -1>::Matrix<', mat), (r'::setConstant\(', setc)]

def prove_search(ctx, u, o, fn, N, repeat, name):
    box = {'query': True}
    def setup(ex, st):
        W = box['W'] = World(ex, st, o)
        if repeat: st.assume(W.C >= 2 * W.h + 1)
        k = z3.Int('k'); st.assume(z3.And(k >= 1, k < 2 ** 31 - 1)); box['cap'] = k if N < 0 else iv(N)
        ri = Region('out_indices', 1, 8, [(0, 'i64')], length=box['cap']); rd = Region('out_dists', 1, 8, [(0, 'double')], length=box['cap']); box['I'], box['D'] = ri, rd
        t = z3.Int('t_')
        st.assume(forall(t, z3.Implies(W.inmap(t), z3.And(t >= 0, t < W.N, W.cu(t) >= 0, W.cu(t) < W.C, W.cv(t) >= 0, W.cv(t) < W.R)), [W.inmap(t)]))
        def on_load(ex, st, p, kind):
            if p.r is W.M:
                a, b = W.access(ex, st, p); m = ex.named_arr(st, W.M, 0, 'i32')[iv(p.key[-1])]; t = z3.Int('t_')
                # the map as the constructor leaves it: a cell is empty or holds one point that projects to it
                st.assume(z3.Or(m == -1, z3.And(W.inmap(m), m >= 0, m < W.N, W.cu(m) == a, W.cv(m) == b)))
                st.assume(forall(t, z3.Implies(z3.And(W.inmap(t), W.cu(t) == a, W.cv(t) == b), t == m), [W.inmap(t)]))
        ex.on_load = on_load
        return [Ptr(W.t), Ptr(W.q), k, Ptr(ri, (0,)), Ptr(rd, (0,))]
    def uv(W, st):
        q = W.qv; tr = lambda x: z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)); out = []
        for x in (W.U(*q[:3]) * z3.ToReal(W.C), W.V(*q[:3]) * z3.ToReal(W.R)): n = ex.named_fptoi(x); st.assume(n == tr(x)); out.append(n)
        return out
    def loops(L):
        ex, st = L.ex, L.st; W = box['W']; out = []
        R = None
        for (r, off) in [k for k in st.mem if len(k) == 2 and isinstance(k[0], Region)]:
            pass
        R = box['R']
        if R is None: return []
        v = R.at(st); S, P = knn.seen(ex, st), knn.pos(ex, st)
        out = [(nm, f) for nm, f in c01.inv(v)] + [(nm, f) for nm, f in knn.rinv(v, S, P, W.ghost())]
        qu, qw = uv(W, st); t = z3.Int('t_'); S0 = knn.seen(ex, L.pre)
        ints = [(n, iv(L.cur[n].term() if isinstance(L.cur[n], Scaled) else L.cur[n])) for n in L.phis if L.tys[n].k == 'i' and L.tys[n].n > 1]
        for n, x in ints:
            for nm, w in (('h', W.h), ('v', W.v)): out += [('%s>=-%s' % (n, nm), x >= -w), ('%s<=%s+1' % (n, nm), x <= w + 1)]
            row = z3.And(W.cv(t) - qw >= -W.v, W.cv(t) - qw < x); allc = W.wrap(qu, -W.h, W.h + 1, W.cu(t), repeat)
            vis = z3.And(W.inmap(t), row, allc)
            out.append(('offered: the rows before ' + n, forall(t, S[t] == vis, [S[t]]))); out.append(('offered: the rows before %s (2)' % n, forall(t, S[t] == vis, [W.inmap(t)])))
            # inner: seen so far plus the cells of the current row
            cur = box.get('dv', {}).get(id(L.pre))
            for m, y in outer(L):
                visr = z3.And(W.inmap(t), W.cv(t) == y, W.wrap(qu, -W.h, x, W.cu(t), repeat))
                out += [('offered in row %s before %s' % (m, n), forall(t, S[t] == z3.Or(S0[t], visr), [S[t]])), ('offered in row %s before %s (2)' % (m, n), forall(t, S[t] == z3.Or(S0[t], visr), [W.inmap(t)]))]
        return out
    def outer(L):
        from ..ds import outer_ints
        ex, st = L.ex, L.st; inside = set(i.res for b in L.loop.body for i in L.f.blocks[b] if i.res); seen = {}; out = []
        for b in L.loop.body:
            for i in L.f.blocks[b]:
                for x in i.a or []:
                    if getattr(x, 'k', None) == 'reg' and x.v not in inside and x.v in st.env and x.v not in seen:
                        v = st.env[x.v]; v = v.term() if isinstance(v, Scaled) else v; seen[x.v] = 1
                        if isz(v) and v.sort() == IntS and not z3.is_int_value(v): out.append((x.v, v))
        return out
    def post(ex, st0, st, ret, a):
        W, cap = box['W'], box['cap']; I, D = ex.named_arr(st, box['I'], 0, 'i64'), ex.named_arr(st, box['D'], 0, 'double')
        S, P = knn.seen(ex, st), knn.pos(ex, st); i, j, t = z3.Ints('i0 j0 t0'); r = iv(ex.asint(st, ret)); qu, qw = uv(W, st)
        st.assume([D[cap - 1] == D[cap - 1], D[r - 1] == D[r - 1], D[r] == D[r], W.Dist(I[cap - 1]) >= 0])   # squared distances are not negative
        win = lambda t: z3.And(W.inmap(t), W.cv(t) >= qw - W.v, W.cv(t) <= qw + W.v, W.wrap(qu, -W.h, W.h + 1, W.cu(t), repeat))
        return [('at most k', z3.And(r >= 0, r <= cap)), ('ascending', z3.Implies(z3.And(0 <= i, i <= j, j < r), D[i] <= D[j])),
                ('points of the window with their true squared distances', z3.Implies(z3.And(0 <= j, j < r, S[I[j]] == S[I[j]]), z3.And(win(I[j]), I[j] >= 0, I[j] < W.N, D[j] == W.Dist(I[j])))),
                ('distinct', z3.Implies(z3.And(0 <= i, i < j, j < r), I[i] != I[j])),
                ('no point of the window left out is closer than the last one returned', z3.Implies(z3.And(win(t), S[t] == S[t], W.Dist(t) < DMAX), z3.Or(z3.And(P[t] >= 0, P[t] < r, I[P[t]] == t), z3.And(r == cap, W.Dist(t) >= D[r - 1]))))]
    ex = ctx.exec(u); ex.name_fptoi = {}; ex.drop_nonlin = True
    def lazy(i):
        def h(ex, st, ins, args):
            if 'ctor' in knn.contracts(o, None)[i][0] or i == 1:
                box['R'] = knn.res_at(ex, o, args[0], knn.parse_N(ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]))
            return knn.contracts(o, box['W'].ghost())[i][1](ex, st, ins, args)
        return h
    box['R'] = None
    ex.contracts = [(knn.contracts(o, None)[i][0], lazy(i)) for i in (0, 1)] + contracts(box)
    ctx.verify(ex, u.one(r'^%s\(' % fn), name, setup, post, loops=loops)

def prove_build(ctx, u, o):
    box = {}
    def setup(ex, st):
        W = box['W'] = World(ex, st, o, build=True)
        j = z3.Int('j_'); tr = lambda x: z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        pu = lambda i: tr(W.U(*[W.L[k][i] for k in range(3)]) * z3.ToReal(W.C)); pv = lambda i: tr(W.V(*[W.L[k][i] for k in range(3)]) * z3.ToReal(W.R))
        box['def'] = lambda i: [W.cu(i) == pu(i), W.cv(i) == pv(i), W.cell(i) == W.cv(i) + W.cu(i) * W.R]
        box['in'] = lambda i: z3.And(W.cu(i) >= 0, W.cu(i) < W.C, W.cv(i) >= 0, W.cv(i) < W.R)
        def on_store(ex, st, p, v, kind):
            if p.r is W.M:
                a, b = W.access(ex, st, p)
                x = iv(ex.asint(st, v)); st.assume(box['def'](x))
                ex.oblige(st, z3.And(a == W.cu(x), b == W.cv(x)), 'a point is stored in the cell it projects to', 'post')
                st.assume(z3.Implies(z3.And(a == W.cu(x), b == W.cv(x)), iv(p.key[-1]) == W.cell(x)))
        ex.on_store = on_store
        return [Ptr(W.t), W.C, W.R, Ptr(W.pc)]
    def inv(W, M, q):
        c, j = z3.Ints('c_ j_')
        return [('cells hold points that project to them', forall(c, z3.Or(M[c] == -1, z3.And(M[c] >= 0, M[c] < q, box['in'](M[c]), W.cell(M[c]) == c)), [M[c]])),
                ('every point inside the map has a non-empty cell', forall(j, z3.Implies(z3.And(0 <= j, j < q, box['in'](j)), M[W.cell(j)] != -1), [W.cell(j)]))]
    def loops(L):
        ex, st = L.ex, L.st; W = box['W']; out = []
        for n in L.phis:
            if L.tys[n].k == 'i' and L.tys[n].n > 1:
                q = iv(L.cur[n].term() if isinstance(L.cur[n], Scaled) else L.cur[n]); M = ex.named_arr(st, W.M, 0, 'i32'); st.assume(box['def'](q))
                out += [(n + '<=N', q <= W.N)] + [(nm + ' below ' + n, f) for nm, f in inv(W, M, q)]
        return out
    def post(ex, st0, st, ret, a):
        W = box['W']; M = ex.named_arr(st, W.M, 0, 'i32'); ld = lambda k, kd: ex.load(st, Ptr(W.t, (), k), kd); c, j = z3.Ints('c0 j0')
        st.assume(M[c] == M[c])
        p, m = ld(o.t_pc, 'ptr'), ld(o.t_map + o.m_d, 'ptr')
        return [('a cell is empty or holds one point that projects to it', z3.Or(M[c] == -1, z3.And(M[c] >= 0, M[c] < W.N, box['in'](M[c]), W.cell(M[c]) == c))),
                ('points inside the map have a non-empty cell', z3.Implies(z3.And(0 <= j, j < W.N, box['in'](j)), M[W.cell(j)] != -1)),
                ('the search refers to the given cloud and map', z3.BoolVal(isinstance(p, Ptr) and p.r is W.pc and isinstance(m, Ptr) and m.r is W.M)),
                ('window sizes are not negative', z3.And(iv(ex.asint(st, ld(o.t_h, 'i32'))) >= 0, iv(ex.asint(st, ld(o.t_v, 'i32'))) >= 0))]
    ctx.verify(ctx.exec(u, contracts=contracts(box)), u.one(r'^vp_build\('), 'UnsafeProjectiveSearch::UnsafeProjectiveSearch', setup, post, loops=loops)

def prove_eq(ctx, u):
    box = {}; pi = z3.RealVal('3.141592653589793115997963468544185161590576171875')
    rng = lambda lo, hi: lambda ex, st, ins, a: (lambda v: (st.assume(z3.And(v >= lo, v <= hi)), v)[1])(freal('angle'))
    def setup(ex, st):
        p = Region('point', size=24, const=True); box['o'] = Region('uv', size=16); return [Ptr(p), Ptr(box['o'])]
    def post(ex, st0, st, ret, a):
        u_, v_ = [rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double'))) for k in range(2)]
        return [('horizontal coordinate in [0,1]', z3.And(u_ >= 0, u_ <= 1)), ('vertical coordinate in [0,1]', z3.And(v_ >= 0, v_ <= 1))]
    sq = lambda ex, st, ins, a: (lambda v: (st.assume(z3.And(v >= 0, v * v == rv(ex.asreal(a[0])))), v)[1])(freal('sqrt'))
    ctx.verify(ctx.exec(u, contracts=[(r'^asin$', rng(-pi / 2, pi / 2)), (r'^atan2$', rng(-pi, pi)), (r'sqrt', sq)]), u.one(r'^vp_eq\('), 'EquirectangularProjection', setup, post)

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    knn.push_lemma(ctx)
    c01.prove_push(ctx, (('d', -1), ('s1', 1)))
    u1, v1, u2, v2, R = z3.Ints('u1 v1 u2 v2 R')
    ctx.lemma('flattened cell numbers are injective', [0 <= v1, v1 < R, 0 <= v2, v2 < R, v1 + u1 * R == v2 + u2 * R, u1 < u2, (u2 - u1) * R >= R], z3.BoolVal(False), 'nra')
    u = ctx.unit('c20', src(), keep=KEEP); o = Offs(u)
    ctx.fork('rk', lambda: prove_search(ctx, u, o, 'vp_rk', -1, True, 'UnsafeProjectiveSearch<repeat,clamp>::knn_search'))
    ctx.fork('r1', lambda: prove_search(ctx, u, o, 'vp_r1', 1, True, 'UnsafeProjectiveSearch<repeat,clamp>::nearest_neighbor_search'))
    ctx.fork('ck', lambda: prove_search(ctx, u, o, 'vp_ck', -1, False, 'UnsafeProjectiveSearch<clamp,clamp>::knn_search'))
    ctx.fork('build', lambda: prove_build(ctx, u, o))
    prove_eq(ctx, u)

def harness(ctx, deep):
    return run_harness(ctx, 'h_c20', deep, flags=('-fsanitize=address',))
