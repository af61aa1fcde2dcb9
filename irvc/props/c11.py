"""C11: voxel-map search returns the nearest stored points of the searched cells."""
from ..common import *
from .. import knn
from . import c01
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['|query / leaf size| < 2^30, fewer than 2^31 voxels and 2^32 points per voxel, cell coordinates below 2^30; k < 2^31-1; squared distances below DBL_MAX',
               'unordered_map::find is an assumed contract (finds exactly the stored coordinate); the coordinate table and the voxel storage describe the same voxels (subject of C08)',
               'std::vector<Eigen::Vector3i> operations (clear, emplace_back, assignment) are assumed contracts']
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
using namespace small_gicp;
using VP = FlatContainerPoints; using VN = FlatContainerNormalCov; using VG = GaussianVoxel;
using MP = IncrementalVoxelMap<VP>; using MG = IncrementalVoxelMap<VG>; using MN = IncrementalVoxelMap<VN>;
using pP = std::pair<VoxelInfo, VP>; using pG = std::pair<VoxelInfo, VG>; using pN = std::pair<VoxelInfo, VN>;
size_t vp_k(const MP& m, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return m.knn_search(q, k, i, d); }
size_t vp_1(const MP& m, const Eigen::Vector4d& q, size_t* i, double* d) { return m.nearest_neighbor_search(q, i, d); }
size_t vp_gk(const MG& m, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return m.knn_search(q, k, i, d); }
size_t vp_g1(const MG& m, const Eigen::Vector4d& q, size_t* i, double* d) { return m.nearest_neighbor_search(q, i, d); }
void vp_off(MP& m, int n) { m.set_search_offsets(n); }
size_t vp_ci(const MP& m, size_t v, size_t i) { return m.calc_index(v, i); }
size_t vp_vi(const MP& m, size_t v) { return m.voxel_id(v); }
size_t vp_pi(const MP& m, size_t v) { return m.point_id(v); }
void vp_tp(const MP& m, size_t v, Eigen::Vector4d* o) { *o = traits::point(m, v); }
void vp_tnp(const MN& m, size_t v, Eigen::Vector4d* o) { *o = traits::point(m, v); }
void vp_tn(const MN& m, size_t v, Eigen::Vector4d* o) { *o = traits::normal(m, v); }
void vp_tc(const MN& m, size_t v, Eigen::Matrix4d* o) { *o = traits::cov(m, v); }
void vp_gp(const MG& m, size_t v, Eigen::Vector4d* o) { *o = traits::point(m, v); }
void vp_gc(const MG& m, size_t v, Eigen::Matrix4d* o) { *o = traits::cov(m, v); }
size_t vp_fk(const VP& m, const Eigen::Vector4d& q, int k, size_t* i, double* d) { return m.knn_search(q, k, i, d); }
size_t vp_f1(const VP& m, const Eigen::Vector4d& q, size_t* i, double* d) { return m.nearest_neighbor_search(q, i, d); }
size_t vp_gvk(const VG& m, const Eigen::Vector4d& q, int k, size_t* i, double* d) { return traits::Traits<VG>::knn_search(m, q, k, i, d); }
size_t vp_gv1(const VG& m, const Eigen::Vector4d& q, size_t* i, double* d) { return traits::Traits<VG>::nearest_neighbor_search(m, q, i, d); }
'''
def src():
    l = []
    for p in 'PGN':
        l += [('%s_leaf' % p, 'M' + p, 'inv_leaf_size'), ('%s_off' % p, 'M' + p, 'search_offsets'), ('%s_flat' % p, 'M' + p, 'flat_voxels'), ('%s_tab' % p, 'M' + p, 'voxels'), ('%s_snd' % p, 'p' + p, 'second')]
    l += [('VP_pts', 'VP', 'points'), ('VN_pts', 'VN', 'points'), ('VN_nrm', 'VN', 'normals'), ('VN_cov', 'VN', 'covs'), ('VG_mean', 'VG', 'mean'), ('VG_cov', 'VG', 'cov'), ('VI_lru', 'VoxelInfo', 'lru'), ('VI_coord', 'VoxelInfo', 'coord')]
    return SRC + off_src(l) + size_src([('M' + p, 'M' + p) for p in 'PGN'] + [('p' + p, 'p' + p) for p in 'PGN'] + [('V' + p, 'V' + p) for p in 'PGN'])
CONTAINER = r'^(void |unsigned long )?small_gicp::(traits::Traits<small_gicp::(FlatContainer<\w+, \w+>|GaussianVoxel)>|FlatContainer<\w+, \w+>|GaussianVoxel)::knn_search<'
VEC3I = r'^(.* )?std::vector<Eigen::Matrix<int, 3, 1, 0, 3, 1>, .*>::'
KEEP = [r'^small_gicp::KnnResult<.*>::push\(unsigned', r'^small_gicp::KnnResult<.*>::KnnResult\(unsigned', r'^std::unordered_map<.*>::(find|count)\(', CONTAINER, VEC3I + r'(emplace_back|push_back|clear|operator=|assign|reserve)']

def res_offs(u, fn):
    """member offsets of the KnnResult instantiation used by function fn (index_transform, capacity, num_found, indices, distances)"""
    body = re.search(r'^define [^\n]*' + re.escape(fn if fn.startswith('@') else '@' + fn) + r'\(.*?^}', u.text, re.M | re.S).group(0)
    nm = re.search(r'getelementptr inbounds (%"struct\.small_gicp::KnnResult[^"]*")', body)
    if not nm: raise ProofGap('KnnResult layout not found')
    els = re.search(r'^' + re.escape(nm.group(1)) + r' = type \{ (.*) \}', u.text, re.M).group(1)
    els = re.findall(r'%"[^"]*"|%[\w.]+|\w+', els)
    if els[1:] != ['i32', 'i32', 'ptr', 'ptr']: raise ProofGap('KnnResult layout changed')
    base = 16 if re.search(r'^' + re.escape(els[0]) + r' = type \{ ptr, ptr \}', u.text, re.M) else 4 if 'identity' in els[0] else None
    if base is None: raise ProofGap('index transform layout changed')
    return dict(cap=base, nf=base + 4, idx=base + 8 + (4 if base == 4 else 0), dst=base + 16 + (4 if base == 4 else 0), lam=base == 16)
class PO:
    """offsets object for the shared KnnResult contracts"""
    def __init__(s, d): s.d = d
    def __getitem__(s, n): return s.d[n.split('_', 1)[1]]

def fn_of(ex, ins): return ex.m.aliases.get(ins.x, ins.x)
B32 = 2 ** 32; B31 = 2 ** 31
class Keys:
    """global index key <-> (voxel, point); Dist: squared distance of that point to the query"""
    def __init__(s):
        s.vo, s.io, s.Dist = z3.Function('voxel_of', IntS, IntS), z3.Function('point_of', IntS, IntS), z3.Function('Dist', IntS, RealS)
        t = z3.Int('t_')
        s.facts = [forall(t, z3.And(t == s.vo(t) * B32 + s.io(t), s.io(t) >= 0, s.io(t) < B32), [s.vo(t)])]
    def enc(s, v, i): return v * B32 + i
    def at(s, v, i):
        k = s.enc(v, i)
        return z3.Implies(z3.And(0 <= i, i < B32), z3.And(s.vo(k) == v, s.io(k) == i))

def push_contracts(u, G, key, seen_mark=None):
    """KnnResult contracts of any instantiation; key(arg) is the transformed index"""
    def mk(i):
        def h(ex, st, ins, a):
            o = PO(res_offs(u, fn_of(ex, ins)))
            if i == 0: a = [a[0], key(ex, st, iv(ex.asint(st, a[1])), o)] + list(a[2:])
            elif o.d['lam']:
                for k in (0, 8): ex.store(st, ex.padd_const(a[0], k), ex.load(st, ex.padd_const(a[4], k), 'ptr'), 'ptr')
            return knn.contracts(o, G)[i][1](ex, st, ins, a)
        return h
    return [(KEEP[0], mk(0)), (KEEP[1], mk(1))]

# ---------------------------------------------------------------- KnnResult::push with the voxel map's index transform
def prove_push(ctx, u):
    for fn in u.find(r'^small_gicp::KnnResult<.*>::push\(unsigned'):
        d = res_offs(u, fn)
        if not d['lam']: continue
        N = knn.parse_N(u.dem[fn]); o = PO(d); box = {}
        def setup(ex, st):
            cap = z3.Int('cap'); n = N if N > 0 else cap
            ri, rd = Region('indices', 1, 8, [(0, 'i64')], length=n), Region('distances', 1, 8, [(0, 'double')], length=n)
            ro = Region('result', size=64); R = c01.Res(ex, o, knn.PFX[N], N, st, Ptr(ro)); box['R'] = R
            st.mem[(ro, R.o_idx)] = ('ptr', Ptr(ri, (0,))); st.mem[(ro, R.o_dst)] = ('ptr', Ptr(rd, (0,)))
            if N < 0: st.mem[(ro, R.o_cap)] = ('i32', cap); st.assume(z3.And(cap >= 1, cap < 2 ** 31 - 1))
            box['cap'] = {}
            for k in (0, 8):
                r = Region('captured%d' % k, size=512, const=True); st.mem[(ro, k)] = ('ptr', Ptr(r)); box['cap'][r] = None
            def on_load(ex, st, p, kind):
                if p.r in box['cap']: box['cap'][p.r] = (p.off, kind)
            ex.on_load = on_load
            R.dist = z3.Real('distance')
            for nm, f in c01.inv(R.at(st)): st.assume(f)
            i = z3.Int('index'); st.assume(z3.And(R.dist < DMAX, 0 <= i, i < B32))
            v = box['v'] = z3.Int('voxel_index'); st.assume(z3.And(v >= 0, v < B31))
            for r in box['cap']: st.mem[(r, 0)] = ('i64', v)
            return [R.ptr, i, R.dist]
        def post(ex, st0, st, ret, a):
            used = [x for x in box['cap'].values() if x is not None]
            return [('the index transform reads one captured voxel index', z3.BoolVal(all(x == (0, 'i64') for x in used) and len(used) <= 1))] + c01.push_post(box['R'], None, None, eq_index=lambda i: box['v'] * B32 + i)(ex, st0, st, ret, a)
        nm = 'GaussianVoxel' if 'IncrementalVoxelMap<small_gicp::GaussianVoxel' in u.dem[fn] else 'FlatContainer'
        ctx.verify(ctx.exec(u), fn, 'KnnResult<%d, voxel map index>::push (%s)' % (N, nm), setup, post, loops=lambda L, box=box: c01.shift_loop(box['R'])(L))

# ---------------------------------------------------------------- search inside one container
class Box(dict): pass
def container(ex, st, u, o, kind):
    """(region, count, per-index lanes) of a symbolic container"""
    n = z3.Int('stored')
    if kind == 'VG':
        r = Region('voxel', size=o.VG); L = [z3.Real('mean%d' % k) for k in range(4)]
        for k in range(4): st.mem[(r, o.VG_mean + 8 * k)] = ('double', L[k])
        r.const = True
        return r, z3.IntVal(1), [(lambda i, k=k: L[k]) for k in range(4)]
    st.assume(z3.And(n >= 0, n < B32))
    r = Region('container', size=getattr(o, kind)); P = Region('points', 1, 32, V4F(), length=n, const=True)
    for k, q in ((0, 0), (8, n), (16, n)): st.mem[(r, getattr(o, kind + '_pts') + k)] = ('ptr', Ptr(P, (iv(q),)))
    r.const = True
    A = [ex.named_arr(st, P, 8 * k, 'double') for k in range(4)]
    return r, n, [(lambda i, k=k: A[k][i]) for k in range(4)]

def query(ex, st):
    q = Region('query', size=32, const=True)
    return q, [rv(ex.asreal(ex.load(st, Ptr(q, (), 8 * k), 'double'))) for k in range(4)]
def sqd(L, i, qv): return sum(((L[k](i) - qv[k]) * (L[k](i) - qv[k]) for k in range(1, 4)), (L[0](i) - qv[0]) * (L[0](i) - qv[0]))

def container_contract(u, o, box):
    """the callee side: every point of the container is offered once"""
    def h(ex, st, ins, a):
        K, W = box['K'], box['W']
        c, q, res = a[0], a[1], a[2]
        W.pre_container(ex, st, c, q, res)
        v = W.voxel(ex, st, c)
        R = c01.Res(ex, PO(box['ro']), knn.PFX[box['N']], box['N'], st, res); w = R.at(st); G = W.ghost()
        S, P = knn.seen(ex, st), knn.pos(ex, st); t = z3.Int('t_'); t0 = z3.Int(fresh_name('t0'))
        for n, f in c01.inv(w) + knn.rinv(w, S, P, G): ex.oblige(st, f, 'pre of container search: ' + n, 'precondition')
        ex.oblige(st, z3.Implies(z3.And(K.vo(t0) == v, W.stored(t0)), z3.Not(S[t0])), 'pre of container search: no point is offered twice', 'precondition')
        w2 = knn.fresh_list(ex, st, R, w)
        S2 = z3.Const(fresh_name('ghost_seen'), knn.SeenS); P2 = z3.Const(fresh_name('ghost_pos'), knn.PosS)
        body = S2[t] == z3.Or(S[t], z3.And(K.vo(t) == v, W.stored(t)))
        st.assume([forall(t, body, [S2[t]]), forall(t, body, [S[t]]), forall(t, body, [K.vo(t)])])
        st.mem[('ghost', 'seen')] = S2; st.mem[('ghost', 'pos')] = P2
        for n, f in c01.inv(w2) + knn.rinv(w2, S2, P2, G): st.assume(f)
        return UNDEF
    return (CONTAINER, h)

def prove_container(ctx, u, o, fn):
    """Traits<X>::knn_search<Result>(voxel, pt, result): offers every stored point with its squared distance and its transformed index"""
    dem = u.dem[fn]
    kind = 'VG' if 'GaussianVoxel' in dem.split('knn_search<')[0] else 'VP'
    N = knn.parse_N(dem); lam = 'identity_transform' not in dem.split('(small_gicp::')[0]
    pu = [f for f in u.find(r'^small_gicp::KnnResult<.*>::push\(unsigned') if knn.parse_N(u.dem[f]) == N and ('identity_transform' in u.dem[f]) == (not lam)]
    d = res_offs(u, pu[0])
    box = {'ro': d, 'N': N}
    def setup(ex, st):
        K = box['K'] = Keys()
        for f in K.facts: st.assume(f)
        r, n, L = container(ex, st, u, o, kind); box['n'] = n
        q, qv = query(ex, st); v = box['v'] = z3.Int('voxel_index') if lam else z3.IntVal(0)
        st.assume(z3.And(v >= 0, v < B31))
        class W:
            pre_container = lambda s, ex, st, c, qq, res: ex.oblige(st, z3.BoolVal(c.r is r and c.off == 0 and qq.r is q and qq.off == 0 and res.r is ro), 'the query, container and result are passed on', 'pre')
            voxel = lambda s, ex, st, c: v
            stored = lambda s, t: z3.And(K.vo(t) == v, K.io(t) < n)
            def ghost(s):
                return knn.Ghost(lambda k: K.Dist(k), inst=lambda ex, st, k: [K.Dist(k) == sqd(L, K.io(k), qv), K.Dist(k) < DMAX, K.Dist(k) >= 0])
        W = box['W'] = W()
        ro = Region('result', size=64); R = c01.Res(ex, PO(d), knn.PFX[N], N, st, Ptr(ro)); box['R'] = R
        cap = z3.Int('cap'); m = N if N > 0 else cap
        ri, rd = Region('indices', 1, 8, [(0, 'i64')], length=m), Region('distances', 1, 8, [(0, 'double')], length=m)
        st.mem[(ro, R.o_idx)] = ('ptr', Ptr(ri, (0,))); st.mem[(ro, R.o_dst)] = ('ptr', Ptr(rd, (0,)))
        st.mem[(ro, R.o_cap)] = ('i32', cap)
        if N < 0: st.assume(z3.And(cap >= 1, cap < 2 ** 31 - 1))
        S, P = knn.seen(ex, st), knn.pos(ex, st); t = z3.Int('t_')
        for nm, f in c01.inv(R.at(st)) + knn.rinv(R.at(st), S, P, W.ghost()): st.assume(f)
        st.assume(forall(t, z3.Implies(W.stored(t), z3.Not(S[t])), [S[t]])); st.assume(forall(t, z3.Implies(W.stored(t), z3.Not(S[t])), [K.vo(t)]))
        box['S0'] = S
        return [Ptr(r), Ptr(q), Ptr(ro)]
    def key(ex, st, i, o_):
        K, v = box['K'], box['v']; st.assume(K.at(v, i)); return K.enc(v, i)
    def loops(L):
        ex, st = L.ex, L.st; K, W, t = box['K'], box['W'], z3.Int('t_'); S = knn.seen(ex, st); out = []
        v = box['R'].at(st)
        out = c01.inv(v) + knn.rinv(v, S, knn.pos(ex, st), W.ghost())
        qs = [(n, iv(L.cur[n].term() if isinstance(L.cur[n], Scaled) else L.cur[n])) for n in L.phis if L.tys[n].k == 'i' and L.tys[n].n > 1]
        qs += [(n, iv(L.cur[n].key[-1])) for n in L.phis if isinstance(L.cur[n], Ptr) and L.cur[n].r.nkeys == 1]
        for n, x in qs:
            body = S[t] == z3.Or(box['S0'][t], z3.And(K.vo(t) == box['v'], K.io(t) < x))
            st.assume(K.at(box['v'], x))
            out += [(n + '<=n', x <= box['n']), ('offered: the points before ' + n, forall(t, body, [S[t]])), ('offered: the points before %s (2)' % n, forall(t, body, [K.vo(t)]))]
        return out
    def post(ex, st0, st, ret, a):
        K, W = box['K'], box['W']; S, t = knn.seen(ex, st), z3.Int('t0'); v = box['R'].at(st)
        return [('every stored point is offered exactly once', S[t] == z3.Or(box['S0'][t], W.stored(t)))] + c01.inv(v) + knn.rinv(v, S, knn.pos(ex, st), W.ghost())
    class G:
        def __getattr__(s, n): return getattr(box['W'].ghost(), n)
    ex = ctx.exec(u, contracts=push_contracts(u, G(), key) + [container_contract(u, o, box)])
    ctx.verify(ex, fn, '%s search, %s (%s)' % ('GaussianVoxel' if kind == 'VG' else 'FlatContainer', 'Traits' if 'Traits<' in dem.split('knn_search<')[0] else 'member', 'KnnResult<%d%s>' % (N, ', voxel map index' if lam else '')), setup, post, loops=loops)

# ---------------------------------------------------------------- public search functions of one container
def prove_public(ctx, u, o, fn, kind, N):
    box = {'N': N}
    def setup(ex, st):
        K = box['K'] = Keys()
        for f in K.facts: st.assume(f)
        r, n, L = container(ex, st, u, o, kind); box['n'] = n; q, qv = query(ex, st); v = box['v'] = z3.IntVal(0); box['d0'] = sqd(L, iv(0), qv)
        cap = z3.Int('k'); st.assume(z3.And(cap >= 1, cap < 2 ** 31 - 1)); m = box['cap'] = iv(N) if N > 0 else cap
        ri, rd = Region('out_indices', 1, 8, [(0, 'i64')], length=m), Region('out_dists', 1, 8, [(0, 'double')], length=m); box['I'], box['D'] = ri, rd
        class W:
            pre_container = lambda s, ex, st, c, qq, res: ex.oblige(st, z3.BoolVal(c.r is r and c.off == 0 and qq.r is q and qq.off == 0), 'the query and container are passed on', 'pre')
            voxel = lambda s, ex, st, c: v
            stored = lambda s, t: z3.And(K.vo(t) == v, K.io(t) < n)
            def ghost(s): return knn.Ghost(lambda k: K.Dist(k), inst=lambda ex, st, k: [K.Dist(k) == sqd(L, K.io(k), qv), K.Dist(k) < DMAX, K.Dist(k) >= 0])
        box['W'] = W()
        return [Ptr(r), Ptr(q)] + ([cap] if N < 0 else []) + [Ptr(ri, (0,)), Ptr(rd, (0,))]
    def post(ex, st0, st, ret, a):
        K, W, cap = box['K'], box['W'], box['cap']; r = iv(ex.asint(st, ret))
        if ('ghost', 'seen') not in st.mem and kind == 'VG':   # one stored point, written directly
            I, D = ex.named_arr(st, box['I'], 0, 'i64'), ex.named_arr(st, box['D'], 0, 'double')
            return [('the one stored point with its squared distance', z3.And(r == 1, I[0] == 0, D[0] == box['d0']))]
        if ('ghost', 'seen') not in st.mem: return [('only an empty container returns without a search', z3.And(box['n'] == 0, r == 0))]
        return result_post(ex, st, box, r, W.stored)
    class G:
        def __getattr__(s, n): return getattr(box['W'].ghost(), n)
    def key(ex, st, i, o_): K = box['K']; st.assume(K.at(iv(0), i)); return i
    def loops(L):
        ex, st = L.ex, L.st; K, W, t = box['K'], box['W'], z3.Int('t_')
        if 'R' not in box: return []
        return []
    ids = [f for f in u.find(r'^small_gicp::KnnResult<%d, small_gicp::identity_transform>::push\(unsigned' % N)]
    box['ro'] = res_offs(u, ids[0])
    ex = ctx.exec(u, contracts=push_contracts(u, G(), key) + [container_contract(u, o, box)])
    ctx.verify(ex, u.one(r'^%s\(' % fn), '%s::%s' % ({'VP': 'FlatContainer', 'VG': 'GaussianVoxel'}[kind], 'nearest_neighbor_search' if N == 1 else 'knn_search'), setup, post, loops=loops)

def result_post(ex, st, box, r, sel):
    """the caller's buffers hold the k nearest of the selected keys"""
    K, cap = box['K'], box['cap']; I, D = ex.named_arr(st, box['I'], 0, 'i64'), ex.named_arr(st, box['D'], 0, 'double')
    S, P = knn.seen(ex, st), knn.pos(ex, st); i, j, t = z3.Ints('i0 j0 t0')
    st.assume([D[cap - 1] == D[cap - 1], D[r - 1] == D[r - 1], D[r] == D[r], K.Dist(t) < DMAX])
    return [('at most k', z3.And(r >= 0, r <= cap)), ('ascending', z3.Implies(z3.And(0 <= i, i <= j, j < r), D[i] <= D[j])),
            ('stored points of the searched cells with their true squared distances', z3.Implies(z3.And(0 <= j, j < r, S[I[j]] == S[I[j]]), z3.And(sel(I[j]), D[j] == K.Dist(I[j])))),
            ('each at most once', z3.Implies(z3.And(0 <= i, i < j, j < r), I[i] != I[j])),
            ('no point of the searched cells left out is closer than the last one returned', z3.Implies(z3.And(sel(t), S[t] == S[t]), z3.Or(z3.And(P[t] >= 0, P[t] < r, I[P[t]] == t), z3.And(r == cap, K.Dist(t) >= D[r - 1]))))]

# ---------------------------------------------------------------- the map
class Map:
    def __init__(s, ex, st, o, p, vkind):
        s.n, s.nO = z3.Ints('num_voxels num_offsets'); st.assume(z3.And(s.n >= 0, s.n < B31, s.nO >= 0, s.nO <= 27))
        s.O = Region('search_offsets', 1, 12, [(0, 'i32'), (4, 'i32'), (8, 'i32')], length=s.nO, const=True)
        fields = [(o.VI_lru, 'i64')] + [(o.VI_coord + 4 * k, 'i32') for k in range(3)]; snd = o['%s_snd' % p]; ptrs = {}
        s.cnt = z3.Function('points_in', IntS, IntS)
        v = z3.Int('v_')
        if vkind == 'VG': fields += [(snd + o.VG_mean + 8 * k, 'double') for k in range(4)] + [(snd + o.VG_cov + 8 * k, 'double') for k in range(16)]
        else:
            s.sub = {}
            for nm, stride, F in (('pts', 32, V4F()), ('nrm', 32, V4F()), ('cov', 128, M4F())):
                if nm != 'pts' and vkind != 'VN': continue
                R = Region(nm, 2, stride, F, length=lambda key, st: s.cnt(iv(key[0])), const=True); s.sub[nm] = R; b = snd + o['%s_%s' % (vkind, nm)]
                for k in (0, 8, 16): ptrs[b + k] = (R, True)
        s.V = Region('voxels', 1, o['p' + p], fields, length=s.n, ptrs=ptrs)
        for b in ptrs:
            a = z3.Array('voxels.%d.ptr' % b, IntS, IntS); st.mem[(s.V, b, 'ptr')] = a
            st.assume(forall(v, z3.Implies(z3.And(0 <= v, v < s.n), a[v] == (0 if min(abs(b - x) for x in ptrs if (b - x) % 24 == 0) == 0 and b in [snd + o['%s_%s' % (vkind, nm)] for nm in s.sub] else s.cnt(v))), [a[v]]))
        st.assume(forall(v, z3.And(s.cnt(v) >= 0, s.cnt(v) < B32), [s.cnt(v)]))
        s.V.const = True
        s.F = Region('flat_voxels', 1, 16, [], length=s.n, ptrs={0: (s.V, False)})
        f = z3.Array('flat_voxels.ptr', IntS, IntS); st.mem[(s.F, 0, 'ptr')] = f; s.F.const = True
        st.assume(forall(v, z3.Implies(z3.And(0 <= v, v < s.n), f[v] == v), [f[v]]))
        s.map = Region('map', size=o['M' + p]); s.inv = z3.Real('inv_leaf_size'); st.assume(s.inv > 0)
        st.mem[(s.map, o['%s_leaf' % p])] = ('double', s.inv)
        for b, R, n in (('off', s.O, s.nO), ('flat', s.F, s.n)):
            for k, q in ((0, iv(0)), (8, n), (16, n)): st.mem[(s.map, o['%s_%s' % (p, b)] + k)] = ('ptr', Ptr(R, (q,)))
        s.map.const = True
        s.M = z3.Function('voxel_at', IntS, IntS, IntS, IntS); s.c = [z3.Function('coord%d' % k, IntS, IntS) for k in range(3)]
        s.opos = z3.Function('position_in_pattern', IntS, IntS, IntS, IntS); s.oa = [ex.named_arr(st, s.O, 4 * k, 'i32') for k in range(3)]
        x = z3.Int('o_'); ox = [s.oa[k][x] for k in range(3)]; ins = z3.And(0 <= x, x < s.nO)
        for a in s.oa: st.assume(forall(x, z3.Implies(ins, z3.And([s.opos(*ox) == x] + [z3.And(e >= -1, e <= 1) for e in ox])), [a[x]]))
        vv = z3.Int('v_'); cv = [s.c[k](vv) for k in range(3)]
        st.assume(forall(vv, z3.Implies(z3.And(0 <= vv, vv < s.n), z3.And([s.M(*cv) == vv] + [z3.And(e > -2 ** 30, e < 2 ** 30) for e in cv])), [s.c[0](vv)]))
        s.o, s.p, s.snd = o, p, snd
    def find(s):
        def h(ex, st, ins, a):
            ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is s.map and a[0].off == s.o['%s_tab' % s.p]), 'the coordinate table of the map is searched', 'pre')
            c = [iv(ex.asint(st, ex.load(st, ex.padd_const(a[1], 4 * k), 'i32'))) for k in range(3)]
            m = s.M(*c); st.assume(z3.And(m >= -1, m < s.n))
            t, f = st.copy(), st
            nd = Region('table_node', size=64, local=True)
            t.assume([m >= 0] + [s.c[k](m) == c[k] for k in range(3)])
            f.assume(m == -1)
            t.mem[(nd, 24)] = ('i64', m)
            for k in range(3): t.mem[(nd, 8 + 4 * k)] = ('i32', c[k])
            return [(t, Ptr(nd)), (f, NULL)]
        return (r'^std::unordered_map<.*>::find\(', h)

def prove_search(ctx, u, o, fn, p, vkind, N):
    box = {'N': N}
    def setup(ex, st):
        K = box['K'] = Keys(); M = box['M'] = Map(ex, st, o, p, vkind)
        for f in K.facts: st.assume(f)
        q, qv = query(ex, st)
        cap = z3.Int('k'); st.assume(z3.And(cap >= 1, cap < 2 ** 31 - 1)); m = box['cap'] = iv(N) if N > 0 else cap
        ri, rd = Region('out_indices', 1, 8, [(0, 'i64')], length=m), Region('out_dists', 1, 8, [(0, 'double')], length=m); box['I'], box['D'] = ri, rd
        for k in range(3): st.assume(z3.And(qv[k] * M.inv > -2 ** 30, qv[k] * M.inv < 2 ** 30))
        st.assume(z3.And(qv[3] * M.inv > -2 ** 30, qv[3] * M.inv < 2 ** 30))
        cen = box['cen'] = [z3.Int('centre%d' % k) for k in range(3)]
        for k in range(3): st.assume(cen[k] == z3.ToInt(qv[k] * M.inv))
        pos = lambda v: M.opos(*[M.c[k](v) - cen[k] for k in range(3)])
        v = z3.Int('v_')
        # the pattern position of a voxel, when it has one, is where that offset is stored
        st.assume(forall(v, z3.Implies(z3.And(pos(v) >= 0, pos(v) < M.nO), z3.And([M.oa[k][pos(v)] == M.c[k](v) - cen[k] for k in range(3)])), [M.c[0](v)]))
        box['sel'] = lambda t, j: z3.And(K.vo(t) >= 0, K.vo(t) < M.n, pos(K.vo(t)) >= 0, pos(K.vo(t)) < j, W_.stored(t), M.c[0](K.vo(t)) == M.c[0](K.vo(t)))
        class W:
            def pre_container(s, ex, st, c, qq, res):
                ex.oblige(st, z3.BoolVal(c.r is M.V and c.off == M.snd and qq.r is q and qq.off == 0 and isinstance(res, Ptr) and res.r.local), 'the contents of a voxel are searched for the query', 'pre')
                vi = [ex.load(st, Ptr(x.r, x.key, x.off), 'i64') for k in (0, 8) for x in [ex.load(st, ex.padd_const(res, k), 'ptr')] if isinstance(x, Ptr) and x.r is not M.map]
                ex.oblige(st, z3.And([iv(ex.asint(st, x)) == iv(c.key[-1]) for x in vi]) if len(vi) == 1 else z3.BoolVal(False), 'the index transform refers to the searched voxel', 'pre')
            voxel = lambda s, ex, st, c: iv(c.key[-1])
            stored = lambda s, t: (z3.And(K.io(t) < M.cnt(K.vo(t))) if vkind != 'VG' else K.io(t) == 0)
            def ghost(s): return knn.Ghost(lambda k: K.Dist(k))
        W_ = box['W'] = W()
        return [Ptr(M.map), Ptr(q)] + ([cap] if N < 0 else []) + [Ptr(ri, (0,)), Ptr(rd, (0,))]
    class G:
        def __getattr__(s, n): return getattr(box['W'].ghost(), n)
    def loops(L):
        ex, st = L.ex, L.st; K, M, t = box['K'], box['M'], z3.Int('t_')
        if 'R' not in box: return []
        v = box['R'].at(st); S = knn.seen(ex, st)
        out = c01.inv(v) + knn.rinv(v, S, knn.pos(ex, st), box['W'].ghost())
        qs = [(n, iv(L.cur[n].term() if isinstance(L.cur[n], Scaled) else L.cur[n])) for n in L.phis if L.tys[n].k == 'i' and L.tys[n].n > 1]
        qs += [(n, iv(L.cur[n].key[-1])) for n in L.phis if isinstance(L.cur[n], Ptr) and L.cur[n].r is M.O]
        for n, x in qs:
            body = S[t] == box['sel'](t, x)
            out += [(n + ' in pattern', z3.And(x >= 0, x <= M.nO)), ('offered: the cells before ' + n, forall(t, body, [S[t]])), ('offered: the cells before %s (2)' % n, forall(t, body, [K.vo(t)]))]
        return out
    def post(ex, st0, st, ret, a):
        M = box['M']; r = iv(ex.asint(st, ret))
        if ('ghost', 'seen') not in st.mem: return [('the cells are searched', z3.BoolVal(False))]
        return result_post(ex, st, box, r, lambda t: box['sel'](t, M.nO))
    pc = push_contracts(u, G(), lambda ex, st, i, o_: i)
    def ctor(ex, st, ins, a):
        box['ro'] = res_offs(u, fn_of(ex, ins)); box['R'] = c01.Res(ex, PO(box['ro']), knn.PFX[N], N, None, a[0])
        if knn.parse_N(u.dem[fn_of(ex, ins)]) != N: raise Unsupported('unexpected list capacity')
        return pc[1][1](ex, st, ins, a)
    def push(ex, st, ins, a): raise Unsupported('unexpected push')
    ex = ctx.exec(u, contracts=[(pc[0][0], push), (pc[1][0], ctor), container_contract(u, o, box), (r'^std::unordered_map<.*>::find\(', lambda *a: box['M'].find()[1](*a))])
    ctx.verify(ex, u.one(r'^%s\(' % fn), 'IncrementalVoxelMap<%s>::%s' % ({'VP': 'FlatContainer', 'VG': 'GaussianVoxel'}[vkind], 'nearest_neighbor_search' if N == 1 else 'knn_search'), setup, post, loops=loops)

# ---------------------------------------------------------------- search patterns
PAT = {1: [(0, 0, 0)], 7: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)], 27: [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]}
def prove_offsets(ctx, u, o):
    KEY = ('mark', 'pattern')
    def i32(ex, st, p): return ex.asint(st, ex.load(st, p, 'i32'))
    def tri(ex, st, p): return tuple(i32(ex, st, ex.padd_const(p, 4 * k)) for k in range(3))
    def vec(ex, st, ins, a):
        nm = re.search(VEC3I + r'(operator=|\w+)', u.dem[fn_of(ex, ins)]).group(2)
        ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].off == o.P_off and a[0].r.name == 'map'), 'the search offsets of the map are set', 'pre')
        cur = st.mem[KEY]
        if nm == 'clear': st.mem[KEY] = ()
        elif nm == 'reserve': pass
        elif nm in ('emplace_back', 'push_back'): st.mem[KEY] = cur + ((tuple(i32(ex, st, x) for x in a[1:4]) if len(a) == 4 else tri(ex, st, a[1])),)
        elif nm in ('operator=', 'assign') and len(a) == 3 and isinstance(a[2], int): st.mem[KEY] = tuple(tri(ex, st, ex.padd_const(a[1], 12 * k)) for k in range(a[2]))
        else: raise Unsupported('vector operation ' + nm)
        return a[0] if nm == 'operator=' else UNDEF
    nop = lambda ex, st, ins, a: a[0] if a else UNDEF
    def setup(ex, st):
        m = Region('map', size=o.MP); st.mem[KEY] = ('previous',); n = z3.Int('num_offsets'); st.assume(z3.And(n >= -2 ** 31, n < 2 ** 31)); return [Ptr(m), n]
    def post(ex, st0, st, ret, a):
        n = iv(ex.asint(st, a[1])); cur = st.mem[KEY]; out = []
        ok = lambda P: z3.BoolVal(len(cur) == len(P) and all(isinstance(c, tuple) and all(isinstance(x, int) for x in c) for c in cur) and set(cur) == set(P))
        for k in (1, 7, 27): out.append(('pattern %d: exactly its cells, each once, nothing of the previous pattern' % k, z3.Implies(n == k, ok(PAT[k]))))
        out.append(('other values select the centre cell', z3.Implies(z3.And(n != 1, n != 7, n != 27), ok(PAT[1]))))
        return out
    ex = ctx.exec(u, contracts=[(VEC3I, vec), (r'operator<<|ostream|std::endl|std::flush', nop)]); ex.run_concrete = True
    ctx.verify(ex, u.one(r'^vp_off\('), 'IncrementalVoxelMap::set_search_offsets', setup, post)
    # distinctness and range of the patterns, as the searches assume them
    for k, P in PAT.items():
        assert len(set(P)) == len(P)

# ---------------------------------------------------------------- indices
def prove_index(ctx, u, o):
    v, i = z3.Ints('v i')
    rng = [0 <= v, v < B31, 0 <= i, i < B32]
    def simple(fn, args, want, label):
        def setup(ex, st):
            st.assume(rng); return [Ptr(Region('map', size=o.MP))] + args
        ctx.verify(ctx.exec(u), u.one(r'^%s\(' % fn), label, setup, lambda ex, st0, st, ret, a: [('value', (lambda r: z3.If(r < 0, r + 2 ** 64, r))(iv(ex.asint(st, ret))) == want)])
    simple('vp_ci', [v, i], v * B32 + i, 'calc_index')
    enc = z3.If(v * B32 + i >= 2 ** 63, v * B32 + i - 2 ** 64, v * B32 + i)
    simple('vp_vi', [enc], v, 'voxel_id of calc_index'); simple('vp_pi', [enc], i, 'point_id of calc_index')
    for fn, p, vk, nm, m in (('vp_tp', 'P', 'VP', 'pts', 4), ('vp_tnp', 'N', 'VN', 'pts', 4), ('vp_tn', 'N', 'VN', 'nrm', 4), ('vp_tc', 'N', 'VN', 'cov', 16), ('vp_gp', 'G', 'VG', 'mean', 4), ('vp_gc', 'G', 'VG', 'cov', 16)):
        box = {}
        def setup(ex, st, p=p, vk=vk):
            st.assume(rng); M = box['M'] = Map(ex, st, o, p, vk); st.assume(z3.And(v < M.n, (i < M.cnt(v)) if vk != 'VG' else i == 0))
            box['o'] = Region('out', size=8 * 16); return [Ptr(M.map), enc, Ptr(box['o'])]
        def post(ex, st0, st, ret, a, vk=vk, nm=nm, m=m):
            M = box['M']; out = []
            for k in range(m):
                x = rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double')))
                w = ex.named_arr(st, M.V, M.snd + o['VG_' + nm] + 8 * k, 'double')[v] if vk == 'VG' else ex.named_arr(st, M.sub[nm], 8 * k, 'double')[v, i]
                out.append(('entry %d is that of point i of voxel v' % k, x == w))
            return out
        ctx.verify(ctx.exec(u), u.one(r'^%s\(' % fn), 'traits of an IncrementalVoxelMap (%s)' % fn, setup, post)

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    knn.push_lemma(ctx)
    u = ctx.unit('c11', src(), keep=KEEP); o = Offs(u)
    ctx.guard('push', lambda: prove_push(ctx, u))
    ctx.guard('containers', lambda: [prove_container(ctx, u, o, f) for f in u.find(CONTAINER)])
    ctx.guard('public', lambda: [prove_public(ctx, u, o, f, k, n) for f, k, n in (('vp_fk', 'VP', -1), ('vp_f1', 'VP', 1), ('vp_gvk', 'VG', -1), ('vp_gv1', 'VG', 1))])
    ctx.guard('maps', lambda: [prove_search(ctx, u, o, f, p, k, n) for f, p, k, n in (('vp_k', 'P', 'VP', -1), ('vp_1', 'P', 'VP', 1), ('vp_gk', 'G', 'VG', -1), ('vp_g1', 'G', 'VG', 1))])
    ctx.guard('patterns', lambda: prove_offsets(ctx, u, o))
    ctx.guard('indices', lambda: prove_index(ctx, u, o))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c11', deep, flags=('-fopenmp', '-ltbb', '-fsanitize=address'))
