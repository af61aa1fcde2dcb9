"""C08: the incremental voxel map stays consistent over every insertion history."""
from ..common import *
from ..par import nop, split_targs
from .. import stdc
from ..native import run_harness
from . import c11
from .c12 import mk_cloud

TIMEOUT = 40
ASSUMPTIONS = ['|coordinate / leaf size| < 2^30, fewer than 2^31 voxels, fewer than 2^62 insertions and an LRU horizon below 2^62; the clear cycle is positive; the pose has last row 0 0 0 1 and points have fourth component 1',
               'std::unordered_map operations (find, emplace_hint, operator[], clear, end) behave as a finite map from coordinates to indices, equal coordinates being one key (XORVector3iHash is a function of the coordinate: any function is admissible)',
               'std::vector emplace_back / erase, std::remove_if (survivors move to the front, each once; the predicate handed to it is executed, not assumed), std::make_shared and shared_ptr ownership are assumed contracts of the standard library']
VARS = [('P', 'FlatContainerPoints'), ('N', 'FlatContainerNormalCov'), ('G', 'GaussianVoxel')]
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
using namespace small_gicp;
''' + ''.join('''using V%(n)s = %(t)s; using M%(n)s = IncrementalVoxelMap<V%(n)s>; using p%(n)s = std::pair<VoxelInfo, V%(n)s>;
void vp_ins%(n)s(M%(n)s& m, const PointCloud& p, const Eigen::Isometry3d& T) { m.insert(p, T); }
void vp_ctor%(n)s(M%(n)s* m, double leaf) { new (m) M%(n)s(leaf); }
''' % dict(n=n, t=t) for n, t in VARS)
def src():
    l = [('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs'), ('VI_lru', 'VoxelInfo', 'lru'), ('VI_coord', 'VoxelInfo', 'coord')]
    for n, _ in VARS:
        l += [('%s_%s' % (n, f), 'M' + n, m) for f, m in (('leaf', 'inv_leaf_size'), ('hor', 'lru_horizon'), ('cyc', 'lru_clear_cycle'), ('cnt', 'lru_counter'), ('off', 'search_offsets'), ('set', 'voxel_setting'), ('flat', 'flat_voxels'), ('tab', 'voxels'))] + [('%s_snd' % n, 'p' + n, 'second')]
    for n in 'PN': l.append(('V%s_pts' % n, 'V' + n, 'points'))
    l += [('VN_nrm', 'VN', 'normals'), ('VN_cov', 'VN', 'covs')]
    l += [('VG_%s' % f, 'VG', f) for f in ('finalized', 'num_points', 'mean', 'cov')]
    return SRC + off_src(l) + size_src([('M' + n, 'M' + n) for n, _ in VARS] + [('V' + n, 'V' + n) for n, _ in VARS])
UMAP = r'^(.* )?std::unordered_map<.*>::'
VSP = r'^(.* )?std::vector<std::shared_ptr<.*::'
KEEP = [r'^(void )?small_gicp::(FlatContainer<.*>|GaussianVoxel)::(add<|finalize)', UMAP + r'(find|emplace_hint|operator\[\]|clear|end|emplace|try_emplace|insert|insert_or_assign|at|count|contains|reserve|rehash)[<(]',
        r'^std::shared_ptr<.*std::make_shared<', r'^std::(shared_ptr|__shared_ptr)<.*>::~', VSP + r'(emplace_back|push_back|erase|resize|clear|reserve)[<(]', r'^(.* )?std::(__)?remove_if<', r'~__shared_count|_M_release|~_Vector_base|small_gicp::FlatContainer<.*>::~',
        r"'lambda\d*'\(std::shared_ptr<.*::operator\(\)\(", r'^(.* )?std::vector<Eigen::Matrix<double, 4, .*::(reserve|~vector)\(', c11.VEC3I + r'(emplace_back|push_back|clear|operator=|assign|reserve|resize)', r'^(unsigned long|bool) small_gicp::traits::Traits<small_gicp::(FlatContainer<.*>|GaussianVoxel)>::size']
B31 = 2 ** 31; B62 = 2 ** 62

class World:
    """symbolic map: flat_voxels slots -> voxel objects (regions), coordinate table as a ghost array over coordinate codes"""
    def __init__(s, ex, st, o, p):
        s.ex, s.o, s.p = ex, o, p
        s.E = z3.Function('code', IntS, IntS, IntS, IntS); s.D = [z3.Function('decode%d' % k, IntS, IntS) for k in range(3)]
        s.n0, s.nid0 = z3.Ints('num_voxels num_allocated'); st.assume(z3.And(0 <= s.n0, s.n0 < B31, s.n0 <= s.nid0))
        s.snd = o[p + '_snd']
        s.V = Region('voxels', 1, 4096, [(o.VI_lru, 'i64')] + [(o.VI_coord + 4 * k, 'i32') for k in range(3)], length=lambda key, st: st.mem[('ghost', 'allocated')])
        s.F = Region('flat_voxels', 1, 16, [], length=lambda key, st: s.end(st), ptrs={0: (s.V, False)})
        s.map = Region('map', size=o['M' + p])
        st.mem[('ghost', 'allocated')] = s.nid0
        for nm, sort in (('table', IntS), ('code_of', IntS), ('last', IntS), ('final', z3.BoolSort())): st.mem[('ghost', nm)] = z3.Array('ghost_' + nm, IntS, sort)
        st.mem[('ghost', 'added')] = z3.IntVal(0)
        for k, v in ((0, 0), (8, s.n0), (16, z3.Int('capacity'))): st.mem[(s.map, o[p + '_flat'] + k)] = ('ptr', Ptr(s.F, (iv(v),)))
        s.f0 = z3.Array('flat_voxels.ptr', IntS, IntS); st.mem[(s.F, 0, 'ptr')] = s.f0
        s.inv = z3.Real('inv_leaf_size'); st.assume(s.inv > 0); st.mem[(s.map, o[p + '_leaf'])] = ('double', s.inv)
        s.hor, s.cyc, s.cnt = z3.Ints('lru_horizon lru_clear_cycle lru_counter'); st.assume(z3.And(0 <= s.hor, s.hor < B62, 1 <= s.cyc, s.cyc < B62, 0 <= s.cnt, s.cnt < B62))
        for f, v in (('hor', s.hor), ('cyc', s.cyc), ('cnt', s.cnt)): st.mem[(s.map, o[p + '_' + f])] = ('i64', v)
        s.c0 = s.coords(st)
        for nm, f in s.invariant(st): st.assume(f)
    def end(s, st): return iv(st.mem[(s.map, s.o[s.p + '_flat'] + 8)][1].key[-1])
    def flat(s, st): return s.ex.get_arr(st, s.F, 0, 'ptr')
    def coords(s, st): return [s.ex.named_arr(st, s.V, s.o.VI_coord + 4 * k, 'i32') for k in range(3)]
    def lru(s, st): return s.ex.named_arr(st, s.V, s.o.VI_lru, 'i64')
    def g(s, st, nm): return st.mem[('ghost', nm)]
    def upd(s, st, nm, old, key, val):
        """pointwise update, by quantified frame (both directions are triggers)"""
        x = z3.Const(fresh_name(nm), old.sort()); i = z3.Int('i_')
        st.assume([x[key] == val, old[key] == old[key], forall(i, z3.Implies(i != key, x[i] == old[i]), [x[i]]), forall(i, z3.Implies(i != key, x[i] == old[i]), [old[i]])]); return x
    def put(s, st, nm, old, key, val): st.mem[('ghost', nm)] = s.upd(st, 'ghost_' + nm, old, key, val)
    def codes(s, st, *cs):
        """decoding facts for the coordinates used"""
        e = s.E(*cs); st.assume([s.D[k](e) == cs[k] for k in range(3)]); return e
    def code_at(s, st, v): return s.g(st, 'code_of')[v]
    def reach(s, st, n):
        j, e = z3.Ints('j_ e_'); f, C, M = s.flat(st), s.g(st, 'code_of'), s.g(st, 'table'); v = f[j]
        return [('every stored voxel is found under its own coordinate', forall(j, z3.Implies(z3.And(0 <= j, j < n), M[C[v]] == j), [v])),
                ('every table entry is a voxel index', forall(e, z3.And(M[e] >= -1, M[e] < n), [M[e]])),
                ('every table entry leads to a stored voxel with that coordinate', forall(e, z3.Implies(M[e] >= 0, e == C[f[M[e]]]), [M[e]]))]
    def link(s, st):
        v, j = z3.Ints('v_ j_'); c, C, nid = s.coords(st), s.g(st, 'code_of'), s.g(st, 'allocated'); f = s.flat(st)
        return [('a voxel carries its coordinate', forall(v, z3.Implies(z3.And(0 <= v, v < nid), z3.And(C[v] == s.E(*[x[v] for x in c]), *[s.D[k](C[v]) == c[k][v] for k in range(3)])), [C[v]])),
                ('slots hold allocated voxels', forall(j, z3.Implies(z3.And(0 <= j, j < s.end(st)), z3.And(0 <= f[j], f[j] < nid)), [f[j]]))]
    def invariant(s, st):
        f, c, M, n = s.flat(st), s.coords(st), s.g(st, 'table'), s.end(st); j = z3.Int('j_'); L, T = s.lru(st), s.g(st, 'last')
        return s.reach(st, n) + s.link(st) + [('the stamp of every stored voxel is its last insertion', forall(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(L[f[j]] == T[f[j]], L[f[j]] >= 0, L[f[j]] < B62)), [f[j]])), ('n', z3.And(0 <= n, n < B31, n <= s.g(st, 'allocated')))]
    def frame(s, st):
        """existing voxels keep their coordinate and, until a clear, their slot"""
        v = z3.Int('v_'); c = s.coords(st); f = s.flat(st)
        return [('voxels keep their coordinate', forall(v, z3.Implies(z3.And(0 <= v, v < s.nid0), z3.And([c[k][v] == s.c0[k][v] for k in range(3)])), [c[0][v]])), ('allocated', s.g(st, 'allocated') >= s.nid0),
                ('slots', forall(v, z3.Implies(z3.And(0 <= v, v < s.n0), f[v] == s.f0[v]), [f[v]])), ('size', s.end(st) >= s.n0)]

def contracts(u, box):
    W = lambda: box['W']
    def is_tab(ex, st, p): ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.r is W().map and p.off == W().o[W().p + '_tab']), 'the coordinate table of the map is used', 'pre')
    def is_flat(ex, st, p): ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.r is W().map and p.off == W().o[W().p + '_flat']), 'the voxel storage of the map is used', 'pre')
    def coord(ex, st, p):
        out = []
        for k in range(3):
            q = ex.padd_const(p, 4 * k); e = iv(ex.asint(st, ex.load(st, q, 'i32')))
            if e.num_args() and not p.r.nkeys:   # a name for the computed coordinate
                x = fint('coord'); st.assume(x == e); st.mem[(q.r, q.off)] = ('i32', x); e = x
            out.append(e)
        return out
    def node(ex, st, e, cs, val):
        nd = Region('table_node', size=64, local=True); st.mem[(nd, 24)] = ('i64', val)
        for k in range(3): st.mem[(nd, 8 + 4 * k)] = ('i32', cs[k])
        return nd
    def floors(ex, st, cs):
        w = W(); i = w.g(st, 'added'); P = box['pt'](i)
        for k in range(3): ex.oblige(st, z3.And(z3.ToReal(cs[k]) <= P[k] * w.inv, P[k] * w.inv < z3.ToReal(cs[k]) + 1), 'the coordinate looked up is the cell of the transformed point [%d]' % k, 'pre')
    def find(ex, st, ins, a):
        is_tab(ex, st, a[0]); w = W(); cs = coord(ex, st, a[1]); floors(ex, st, cs); e = w.codes(st, *cs); m = fint('found'); st.assume(m == w.g(st, 'table')[e])
        t, f = st.copy(), st
        t.assume(m >= 0); f.assume(m < 0)
        return [(t, Ptr(node(ex, t, e, cs, m))), (f, NULL)]
    def end(ex, st, ins, a): is_tab(ex, st, a[0]); return NULL
    def count(ex, st, ins, a):
        is_tab(ex, st, a[0]); w = W(); e = w.codes(st, *coord(ex, st, a[1])); m = w.g(st, 'table')[e]; t, f = st.copy(), st
        t.assume(m >= 0); f.assume(m < 0); return [(t, 1), (f, 0)]
    def insert(ex, st, a, kp, vp):
        is_tab(ex, st, a); w = W(); cs = coord(ex, st, kp); e = w.codes(st, *cs); M = w.g(st, 'table'); val = iv(ex.asint(st, ex.load(st, vp, 'i64')))
        ex.oblige(st, z3.And(0 <= val, val < B31), 'a table entry is a voxel index', 'pre')
        nv = fint('entry'); st.assume(nv == z3.If(M[e] >= 0, M[e], val)); W().put(st, 'table', M, e, nv)
        return node(ex, st, e, cs, nv)
    def emplace(ex, st, ins, a):
        dem = ex.unit.dem[c11.fn_of(ex, ins)]; h = 'emplace_hint' in dem or 'hint' in dem
        if 'emplace_hint' not in dem: raise Unsupported('table insertion: ' + dem[:100])
        return Ptr(insert(ex, st, a[0], a[2], a[3]))
    def index(ex, st, ins, a):
        is_tab(ex, st, a[0]); w = W(); cs = coord(ex, st, a[1]); e = w.codes(st, *cs); M = w.g(st, 'table'); nv = fint('entry'); st.assume(nv == z3.If(M[e] >= 0, M[e], 0))
        W().put(st, 'table', M, e, nv)
        nd = node(ex, st, e, cs, nv); box.setdefault('slots', {})[nd] = e; return Ptr(nd, (), 24)
    def clear(ex, st, ins, a): is_tab(ex, st, a[0]); M = z3.Array(fresh_name('ghost_table'), IntS, IntS); e = z3.Int('e_'); st.assume(forall(e, M[e] == -1, [M[e]])); st.mem[('ghost', 'table')] = M; return UNDEF
    def make(ex, st, ins, a):
        w = W(); o = w.o; info, cont = a[1], a[2]; nid = w.g(st, 'allocated')
        ld = lambda q, k: ex.load(st, q, k)
        if w.p == 'G':
            e = z3.And([iv(ex.asint(st, ld(ex.padd_const(cont, o.VG_num_points), 'i64'))) == 0] + [rv(ex.asreal(ld(ex.padd_const(cont, b + 8 * k), 'double'))) == 0 for b, m in ((o.VG_mean, 4), (o.VG_cov, 16)) for k in range(m)])
        else:
            q = [ld(ex.padd_const(cont, o['V%s_%s' % (w.p, v)] + k), 'ptr') for v in (('pts',) if w.p == 'P' else ('pts', 'nrm', 'cov')) for k in (0, 8)]
            e = z3.And([z3.BoolVal(q[i] is q[i + 1]) if not isinstance(q[i], Ptr) else z3.BoolVal(False) for i in range(0, len(q), 2)])
        ex.oblige(st, e, 'a new voxel starts empty', 'pre')
        lru = iv(ex.asint(st, ex.load(st, ex.padd_const(info, o.VI_lru), 'i64'))); cs = coord(ex, st, ex.padd_const(info, o.VI_coord))
        st.mem[('ghost', 'allocated')] = nid + 1; w.put(st, 'code_of', w.g(st, 'code_of'), nid, w.codes(st, *cs))
        for off, kind, v in [(o.VI_lru, 'i64', lru)] + [(o.VI_coord + 4 * k, 'i32', cs[k]) for k in range(3)]: st.mem[(w.V, off, kind)] = w.upd(st, 'voxels.%d' % off, ex.named_arr(st, w.V, off, kind), nid, v)
        ex.store(st, a[0], Ptr(w.V, (nid,)), 'ptr'); ex.store(st, ex.padd_const(a[0], 8), NULL, 'ptr')
        return UNDEF
    def append(ex, st, ins, a):
        is_flat(ex, st, a[0]); w = W(); v = ex.load(st, a[1], 'ptr'); n = w.end(st)
        if not (isinstance(v, Ptr) and v.r is w.V and v.off == 0): raise Unsupported('appended voxel')
        st.assume(n + 1 < B31); st.mem[(w.map, w.o[w.p + '_flat'] + 8)] = ('ptr', Ptr(w.F, (n + 1,)))
        st.mem[(w.F, 0, 'ptr')] = w.upd(st, 'flat_voxels', w.flat(st), n, iv(v.key[-1])); return Ptr(w.F, (n,))
    def erase(ex, st, ins, a):
        w = W(); is_flat(ex, st, a[0]); b, e = a[1], a[2]
        ex.oblige(st, z3.And(z3.BoolVal(isinstance(b, Ptr) and b.r is w.F and isinstance(e, Ptr) and e.r is w.F), iv(e.key[-1]) == w.end(st), 0 <= iv(b.key[-1]), iv(b.key[-1]) <= w.end(st)), 'the tail of the storage is dropped', 'pre')
        st.mem[(w.map, w.o[w.p + '_flat'] + 8)] = ('ptr', b); return b
    def remove_if(ex, st, ins, a):
        w = W(); dem = ex.unit.dem[c11.fn_of(ex, ins)]; b, e = a[0], a[1]
        ex.oblige(st, z3.And(z3.BoolVal(isinstance(b, Ptr) and b.r is w.F and isinstance(e, Ptr) and e.r is w.F), iv(b.key[-1]) == 0, iv(e.key[-1]) == w.end(st)), 'every stored voxel is examined', 'pre')
        ops = [n for n in ex.m.funcs if re.search(r"::'lambda\d*'\(std::shared_ptr<.*::operator\(\)\(", ex.unit.dem.get(n, '')) and pat_of(w.p) in ex.unit.dem[n]]
        if len(ops) != 1: raise Unsupported('predicate of std::remove_if not identified (%d)' % len(ops))
        f, n, M, T, c = w.flat(st), w.end(st), w.g(st, 'table'), w.g(st, 'last'), w.coords(st)
        x = z3.Int(fresh_name('slot')); s2 = st.copy(); s2.assume([0 <= x, x < n, f[x] == f[x]])
        lam = stdc.lambda_ptr(ex, s2, a[2:])
        pred, _ = stdc.functor(ex, s2, ops[0], lam, [Ptr(w.F, (x,))]); pred = bv_(ex.asbool(pred))
        cnt = iv(ex.asint(st, ex.load(st, Ptr(w.map, (), w.o[w.p + '_cnt']), 'i64')))
        ex.oblige(s2, pred == (T[f[x]] + w.hor < cnt), 'exactly the voxels not touched within the horizon are removed', 'post', assume=False)
        keep = lambda i: T[f[i]] + w.hor >= cnt
        f1 = z3.Const(fresh_name('flat_voxels'), f.sort()); m = fint('survivors'); sr, ps = z3.Function(fresh_name('src'), IntS, IntS), z3.Function(fresh_name('pos'), IntS, IntS)
        i = z3.Int('i_'); st.assume(z3.And(0 <= m, m <= n))
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= sr(i), sr(i) < n, ps(sr(i)) == i, f1[i] == f[sr(i)], keep(sr(i)))), [f1[i]]))
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < n, keep(i)), z3.And(0 <= ps(i), ps(i) < m, sr(ps(i)) == i, f1[ps(i)] == f[i])), [f[i]]))
        # the removed tail may hold moved-from pointers
        st.mem[(w.F, 0, 'ptr')] = f1
        st.mem[('mark', 'cleared')] = dict(f=f, n=n, M=M, keep=keep, ps=ps, sr=sr, m=m, c=c)
        box['clr'] = st.mem[('mark', 'cleared')]
        return Ptr(w.F, (m,))
    def add(ex, st, ins, a):
        w = W(); o = w.o; cont, setting, pt, pts, i, T = a; i = iv(ex.asint(st, i))
        ok = isinstance(cont, Ptr) and cont.r is w.V and cont.off == w.snd
        ex.oblige(st, z3.BoolVal(ok), 'the point goes into the contents of a voxel', 'pre')
        if not ok: return UNDEF
        v = fint('voxel'); st.assume(v == iv(cont.key[-1])); c = w.coords(st); cl = box['cl']
        ex.oblige(st, z3.BoolVal(isinstance(setting, Ptr) and setting.r is w.map and setting.off == o[w.p + '_set']), 'the container settings of the map are used', 'pre')
        ex.oblige(st, z3.BoolVal(isinstance(pts, Ptr) and pts.r is cl.r and isinstance(T, Ptr) and T.r is box['T'].r), 'cloud and pose are passed on', 'pre')
        ad = w.g(st, 'added')
        ex.oblige(st, z3.And(i == ad, 0 <= i, i < cl.n), 'every point is offered once', 'pre'); st.mem[('ghost', 'added')] = ad + 1
        P = box['pt'](i)
        for k in range(4): ex.oblige(st, rv(ex.asreal(ex.load(st, ex.padd_const(pt, 8 * k), 'double'))) == P[k], 'the offered position is the transformed point [%d]' % k, 'pre', assume=False)
        for k in range(3): ex.oblige(st, z3.And(z3.ToReal(c[k][v]) <= P[k] * w.inv, P[k] * w.inv < z3.ToReal(c[k][v]) + 1), 'the voxel is the one the transformed point floors to [%d]' % k, 'pre', assume=False)
        ex.oblige(st, w.g(st, 'table')[w.code_at(st, v)] >= 0, 'the voxel is in the map', 'pre', assume=False)
        ex.oblige(st, w.flat(st)[w.g(st, 'table')[w.code_at(st, v)]] == v, 'the voxel is the stored one of its coordinate', 'pre', assume=False)
        ex.oblige(st, w.lru(st)[v] == w.cnt, 'the voxel is stamped with the current insertion', 'pre', assume=False)
        w.put(st, 'last', w.g(st, 'last'), v, w.cnt); w.put(st, 'final', w.g(st, 'final'), v, z3.BoolVal(False))
        if ('mark', 'lru') in st.mem:   # the stores of the stamp, as pointwise frame facts (consequences of the store)
            old, key, i = st.mem[('mark', 'lru')] + (z3.Int('i_'),); L = w.lru(st); st.assume([forall(i, z3.Implies(i != key, L[i] == old[i]), [t]) for t in (L[i], old[i])])
        return UNDEF
    def finalize(ex, st, ins, a):
        w = W(); ok = isinstance(a[0], Ptr) and a[0].r is w.V and a[0].off == w.snd
        ex.oblige(st, z3.BoolVal(ok), 'the contents of a voxel are finalised', 'pre')
        if ok: w.put(st, 'final', w.g(st, 'final'), iv(a[0].key[-1]), z3.BoolVal(True))
        return UNDEF
    return [(UMAP + r'find\(', find), (UMAP + r'(end|cend)\(', end), (UMAP + r'(count|contains)\(', count), (UMAP + r'emplace(_hint)?<', emplace), (UMAP + r'operator\[\]\(', index), (UMAP + r'clear\(', clear), (UMAP + r'(reserve|rehash)\(', nop),
            (r'^std::shared_ptr<.*std::make_shared<', make), (VSP + r'(emplace_back<|push_back\()', append), (VSP + r'erase\(', erase), (VSP + r'reserve\(', nop), (r'^(.* )?std::(__)?remove_if<', remove_if),
            (r'^(void )?small_gicp::(FlatContainer<.*>|GaussianVoxel)::add<', add), (r'^small_gicp::(FlatContainer<.*>|GaussianVoxel)::finalize', finalize),
            (r'^std::(shared_ptr|__shared_ptr)<.*>::~|~__shared_count|_M_release|~_Vector_base|::~vector\(|FlatContainer<.*>::~|^(.* )?std::vector<Eigen::Matrix<double, 4, .*::reserve\(', nop)]

def pat_of(p): return {'P': 'FlatContainer<false, false>', 'N': 'FlatContainer<true, true>', 'G': 'GaussianVoxel'}[p]

def prove_insert(ctx, u, o, p):
    box = {}
    def setup(ex, st):
        w = box['W'] = World(ex, st, o, p); cl = box['cl'] = mk_cloud(ex, st, o, 'points'); st.assume(cl.n < 2 ** 31); box['preg'] = cl.rp
        for off, q in ((o.pc_p, cl.rp), (o.pc_n, cl.rn), (o.pc_c, cl.rc)): st.mem[(cl.r, off + 8)] = ('ptr', Ptr(q, (cl.n,)))
        X = Region('T', size=128, const=True); box['T'] = Ptr(X)
        T = [[rv(ex.load(st, Ptr(X, (), 8 * (a + 4 * b)), 'double')) for b in range(4)] for a in range(4)]
        for b in range(4): st.mem[(X, 8 * (3 + 4 * b))] = ('double', Fraction(1 if b == 3 else 0))
        def pt(i):
            q = [rv(cl.P(i)[k]) for k in range(4)]
            return [sum((T[a][b] * q[b] for b in range(1, 4)), T[a][0] * q[0]) for a in range(3)] + [rv(1)]
        box['pt'] = pt
        def on_load(ex, st, q, kind):
            if q.r is box.get('preg') and kind == 'double':
                i = iv(q.key[-1]); P = pt(i); st.assume([rv(cl.P(i)[3]) == 1] + [z3.And(P[k] * w.inv > -2 ** 30, P[k] * w.inv < 2 ** 30) for k in range(3)])
        ex.on_load = on_load
        def on_store(ex, st, q, v, kind):
            if q.r is w.V: ex.oblige(st, z3.BoolVal(q.off == o.VI_lru), 'coordinates and contents of a stored voxel are never overwritten', 'frame')
            if q.r is w.V and q.off == o.VI_lru: st.mem[('mark', 'lru')] = (w.lru(st), iv(q.key[-1]))
            if q.r in box.get('slots', {}) and q.off == 24:
                M = w.g(st, 'table'); x = iv(ex.asint(st, v)); w.put(st, 'table', M, box['slots'][q.r], x)
        ex.on_store = on_store
        return [Ptr(w.map), Ptr(cl.r), Ptr(X)]
    def loops(L):
        ex, st = L.ex, L.st; w = box['W']; out = []; j, e = z3.Ints('j_ e_')
        cl = st.mem.get(('mark', 'cleared'))
        f, c, M, n = w.flat(st), w.coords(st), w.g(st, 'table'), w.end(st)
        qs = [(nm, iv(L.cur[nm].term() if isinstance(L.cur[nm], Scaled) else L.cur[nm]), True) for nm in L.phis if L.tys[nm].k == 'i' and L.tys[nm].n > 1]
        qs += [(nm, iv(L.cur[nm].key[-1]), False) for nm in L.phis if isinstance(L.cur[nm], Ptr) and L.cur[nm].r is w.F]
        if not cl: out += w.invariant(st) + w.frame(st)
        fin = w.g(st, 'final')
        for nm, q, isint in qs:
            out += [('%s = points offered' % nm, q == w.g(st, 'added')), ('%s <= points' % nm, q <= box['cl'].n), ('%s <= voxels' % nm, q <= n)]
            if cl: out += [(t + ' (the first %s)' % nm, g) for t, g in w.reach(st, q)]
            if p == 'G': out.append(('the first %s are finalised' % nm, forall(j, z3.Implies(z3.And(0 <= j, j < q), fin[f[j]]), [f[j]])))
        if cl: out += w.invariant(st)
        return out
    def post(ex, st0, st, ret, a):
        w = box['W']; M, f, n, c = w.g(st, 'table'), w.flat(st), w.end(st), w.coords(st); cl = st.mem.get(('mark', 'cleared')); out = [('after the insertion: ' + t, g) for t, g in w.invariant(st)]
        out.append(('every point was offered', w.g(st, 'added') == box['cl'].n))
        ct = iv(ex.asint(st, ex.load(st, Ptr(w.map, (), o[p + '_cnt']), 'i64')))
        out.append(('the insertion clock advances by one', ct == w.cnt + 1))
        out.append(('removal happens exactly at the clear cycle', ((w.cnt + 1) % w.cyc == 0) if cl else ((w.cnt + 1) % w.cyc != 0)))
        e, j = z3.Ints('e0 j0')
        if cl:
            F, N, M1, keep = cl['f'], cl['n'], cl['M'], cl['keep']
            x = M1[e]
            out.append(('a voxel survives exactly if it was touched within the horizon', z3.Implies(z3.And(x >= 0, M[e] == M[e], F[x] == F[x]), (M[e] >= 0) == keep(x))))
            out.append(('a surviving coordinate still leads to its voxel', z3.Implies(z3.And(M[e] >= 0, x == x, F[x] == F[x], f[M[e]] == f[M[e]]), z3.And(x >= 0, f[M[e]] == F[x]))))
        else: out += [(t, g) for t, g in w.frame(st)]
        if p == 'G': out.append(('every stored voxel is finalised', z3.Implies(z3.And(0 <= j, j < n), w.g(st, 'final')[f[j]])))
        # parameters untouched
        for nm, v in (('hor', w.hor), ('cyc', w.cyc)): out.append(('setting %s unchanged' % nm, iv(ex.asint(st, ex.load(st, Ptr(w.map, (), o[p + '_' + nm]), 'i64'))) == v))
        return out
    ex = ctx.exec(u, contracts=contracts(u, box)); ex.linear_houdini = True; ex.drop_nonlin = True
    ctx.verify(ex, u.one(r'^vp_ins%s\(' % p), 'IncrementalVoxelMap<%s>::insert' % pat_of(p), setup, post, loops=loops)

# ---------------------------------------------------------------- global index lists
IDX_SRC = '''
void vp_idxP(const MP& m, std::vector<size_t>& o) { auto r = traits::point_indices(m); o.swap(r); }
void vp_idxG(const MG& m, std::vector<size_t>& o) { auto r = traits::point_indices(m); o.swap(r); }
void vp_idxN(const MN& m, std::vector<size_t>& o) { auto r = traits::point_indices(m); o.swap(r); }
size_t vp_szP(const MP& m) { return traits::size(m); }
'''
VUL = r'^(.* )?std::vector<unsigned long, .*::'
def prove_indices(ctx, u, o, p):
    box = {}
    def setup(ex, st):
        K = box['K'] = c11.Keys(); M = box['M'] = c11.Map(ex, st, o, p, 'V' + p)
        for f in K.facts: st.assume(f)
        S = z3.Array('ghost_listed', IntS, z3.BoolSort()); st.mem[('ghost', 'listed')] = S; t = z3.Int('t_')
        st.assume(forall(t, z3.Not(S[t]), [S[t]]))
        out = Region('out', size=24); st.mem[(out, 0)] = st.mem[(out, 8)] = st.mem[(out, 16)] = ('ptr', NULL)
        return [Ptr(M.map), Ptr(out)]
    stored = lambda t: z3.And(0 <= box['K'].vo(t), box['K'].vo(t) < box['M'].n, (box['K'].io(t) < box['M'].cnt(box['K'].vo(t))) if p != 'G' else box['K'].io(t) == 0)
    def append(ex, st, ins, a):
        K = box['K']; x = ex.load(st, a[1], 'i64') if isinstance(a[1], Ptr) else a[1]; t = fint('index'); x = iv(ex.asint(st, x)); st.assume(t == z3.If(x < 0, x + 2 ** 64, x)); v = fint('voxel'); st.assume([v == K.vo(t)])
        S = st.mem[('ghost', 'listed')]; vs = box.get('cur', [])
        ex.oblige(st, stored(t), 'every listed index decodes to a stored point', 'pre', assume=False)
        ex.oblige(st, z3.Not(S[t]), 'no point is listed twice', 'pre', assume=False)
        S2 = z3.Const(fresh_name('ghost_listed'), S.sort()); i = z3.Int('i_'); st.mem[('ghost', 'listed')] = S2
        st.assume([S2[t]] + [forall(i, z3.Implies(i != t, S2[i] == S[i]), [q]) for q in (S2[i], S[i])])
        return Ptr(Region('element', size=8, local=True))
    def loops(L):
        ex, st = L.ex, L.st; K, M = box['K'], box['M']; S = st.mem[('ghost', 'listed')]; t = z3.Int('t_'); out = []
        own = [(nm, iv(L.cur[nm].term() if isinstance(L.cur[nm], Scaled) else L.cur[nm])) for nm in L.phis if L.tys[nm].k == 'i' and L.tys[nm].n > 1] + [(nm, iv(L.cur[nm].key[-1])) for nm in L.phis if isinstance(L.cur[nm], Ptr) and L.cur[nm].r is M.F]
        outer = [iv(x.term() if isinstance(x, Scaled) else x) for b in L.f.blocks for i in L.f.blocks[b] if i.op == 'phi' and i.res and b not in L.loop.body and i.res in L.pre.env for x in [L.pre.env[i.res]] if isinstance(x, Scaled) or isz(x) and x.sort() == IntS]
        outer += [iv(x.key[-1]) for b in L.f.blocks for i in L.f.blocks[b] if i.op == 'phi' and i.res and b not in L.loop.body and i.res in L.pre.env for x in [L.pre.env[i.res]] if isinstance(x, Ptr) and x.r is M.F]
        for nm, v in own:
            body = S[t] == z3.And(K.vo(t) < v, stored(t)); out += [(nm + ' <= voxels', z3.And(0 <= v, v <= M.n))] + [('listed: the voxels before %s%d' % (nm, k), forall(t, body, [q])) for k, q in enumerate((S[t], K.vo(t)))]
            for w in outer:
                st.assume([K.at(w, v), z3.Implies(z3.And(0 <= w, w < B31, 0 <= v, v < c11.B32), z3.Function('or64', IntS, IntS, IntS)(w * c11.B32, v) == w * c11.B32 + v), M.cnt(w) < c11.B32])   # the bit or of disjoint ranges is their sum
                body = S[t] == z3.And(stored(t), z3.Or(K.vo(t) < w, z3.And(K.vo(t) == w, K.io(t) < v)))
                out += [('%s <= points of the voxel %s' % (nm, w), z3.And(0 <= v, v <= M.cnt(w)))] + [('listed: before %s of the current voxel %s%d' % (nm, w, k), forall(t, body, [q])) for k, q in enumerate((S[t], K.vo(t)))]
        return out
    def post(ex, st0, st, ret, a):
        t = z3.Int('t0'); S = st.mem[('ghost', 'listed')]
        return [('exactly the stored points are listed', z3.Implies(box['K'].vo(t) == box['K'].vo(t), S[t] == stored(t)))]
    ex = ctx.exec(u, contracts=[(VUL + r'(emplace_back|push_back)[<(]', append), (VUL + r'(reserve|~vector)\(|~_Vector_base', nop), (VUL + r'swap\(', nop), (VUL + r'vector\(', nop)])
    ctx.verify(ex, u.one(r'^vp_idx%s\(' % p), 'point_indices<IncrementalVoxelMap<%s>>' % pat_of(p), setup, post, loops=loops)

def prove_size(ctx, u, o):
    box = {}
    def setup(ex, st): M = box['M'] = c11.Map(ex, st, o, 'P', 'VP'); return [Ptr(M.map)]
    ctx.verify(ctx.exec(u), u.one(r'^vp_szP\('), 'IncrementalVoxelMap::size', setup, lambda ex, st0, st, ret, a: [('number of voxels', iv(ex.asint(st, ret)) == box['M'].n)])

def prove_ctor(ctx, u, o, p):
    box = {}
    def setup(ex, st):
        m = box['m'] = Region('map', size=o['M' + p]); leaf = box['leaf'] = z3.Real('leaf_size'); st.assume(leaf > 0); return [Ptr(m), leaf]
    def post(ex, st0, st, ret, a):
        m = box['m']; ld = lambda f, k, d=0: ex.load(st, Ptr(m, (), o['%s_%s' % (p, f)] + d), k); N = lambda f: iv(ex.asint(st, ld(f, 'i64')))
        return [('scale is the inverse leaf size', rv(ex.asreal(ld('leaf', 'double'))) * box['leaf'] == 1), ('no insertion so far', N('cnt') == 0), ('the clear cycle is positive', N('cyc') >= 1),
                ('no voxel', z3.BoolVal(all(not isinstance(ld('flat', 'ptr', k), Ptr) for k in (0, 8)))), ('empty table', iv(ex.asint(st, ld('tab', 'i64', 24))) == 0), ('empty table chain', z3.BoolVal(not isinstance(ld('tab', 'ptr', 16), Ptr)))]
    ex = ctx.exec(u, contracts=[(c11.VEC3I, nop), (r'operator<<|ostream|std::endl|std::flush', nop)])
    ctx.verify(ex, u.one(r'^vp_ctor%s\(' % p), 'IncrementalVoxelMap<%s> constructor' % pat_of(p), setup, post)

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    u2 = ctx.unit('c08i', c11.src() + IDX_SRC, keep=c11.KEEP + [VUL + r'(emplace_back|push_back|reserve|swap|~vector|vector)[<(]']); o2 = Offs(u2)
    ctx.guard('indices', lambda: c11.prove_index(ctx, u2, o2))
    ctx.guard('size', lambda: prove_size(ctx, u2, o2))
    for p in 'PGN': ctx.guard('point_indices ' + p, lambda p=p: prove_indices(ctx, u2, o2, p))
    u = ctx.unit('c08', src(), keep=KEEP); o = Offs(u)
    for p, _ in VARS: ctx.guard('ctor ' + p, lambda p=p: prove_ctor(ctx, u, o, p))
    for p, _ in VARS: ctx.guard('insert ' + p, lambda p=p: prove_insert(ctx, u, o, p))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c08', deep, flags=('-fopenmp', '-ltbb', '-fsanitize=address'))
