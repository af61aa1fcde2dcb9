"""Shared machinery for the voxel-grid sampling functions (C04, C05, C22): layouts, key specification, contracts of the library calls around the two phases."""
from .common import *
from .par import *
from .unit import OMPFLAGS

SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
using namespace small_gicp;
using QE = decltype(std::declval<Eigen::Vector4d&>() / 1.0);
void vp_evalq(const QE& e, Eigen::Vector4d* o) { *o = e; }
void vp_ff(const Eigen::Array4d& p, Eigen::Array4i* o) { *o = fast_floor(p); }
std::shared_ptr<PointCloud> vp_ser(const PointCloud& p, double leaf) { return voxelgrid_sampling(p, leaf); }
std::shared_ptr<PointCloud> vp_omp(const PointCloud& p, double leaf, int nt) { return voxelgrid_sampling_omp(p, leaf, nt); }
std::shared_ptr<PointCloud> vp_tbb(const PointCloud& p, double leaf) { return voxelgrid_sampling_tbb(p, leaf); }
'''
KEEP = [r"'lambda\d*'\(.*::operator\(\)<std::pair<unsigned long, unsigned long>", r'^void std::sort<', r'PointCloud::resize\(', r'make_shared<', r'std::vector<.*>::vector\(', r'std::vector<.*>::~vector\(', r'std::shared_ptr<.*>::~shared_ptr|__shared_count<.*>::~|_M_release', r'void tbb::.*parallel_for<', r'parallel_sort',
        r'^void small_gicp::quick_sort_omp<.*\)$', r'blocked_range<unsigned long> const&\)::operator\(\)', r'vector<Eigen::Matrix<double, 4, 1, 0, 4, 1>, .*::(reserve|emplace_back<|push_back|_M_realloc)']
SORT = r'^void std::(stable_)?sort<|parallel_sort<std::vector|quick_sort_omp<|merge_sort_omp<|radix_sort_tbb<|parallel_stable_sort'

def src(): return SRC + RANGE_SRC + off_src([('pts', 'small_gicp::PointCloud', 'points'), ('nrm', 'small_gicp::PointCloud', 'normals'), ('cov', 'small_gicp::PointCloud', 'covs')]) + size_src([('pc', 'small_gicp::PointCloud')])
def unit(ctx): return ctx.unit('ds', src(), keep=KEEP, extra_flags=OMPFLAGS)

def mentions(f, c):
    seen, stack = set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.eq(c): return True
        stack.extend([e.body()] if z3.is_quantifier(e) else e.children())
    return False

class Cloud:
    """an input cloud of n points (n < 2^31, homogeneous coordinate one) and the voxel key of each point"""
    def __init__(s, ex, st, o):
        s.n = z3.Int('n'); s.leaf = z3.Real('leaf_size')
        s.P = Region('points', 1, 32, V4F(), length=s.n, const=True)
        s.pc = Region('cloud', size=o.pc, const=False)
        st.mem[(s.pc, o.pts)] = ('ptr', Ptr(s.P, (0,))); st.mem[(s.pc, o.pts + 8)] = ('ptr', Ptr(s.P, (s.n,))); st.mem[(s.pc, o.pts + 16)] = ('ptr', Ptr(s.P, (s.n,)))
        s.pc.const = True
        s.ptr = Ptr(s.pc)
        s.L = [ex.named_arr(st, s.P, 8 * k, 'double') for k in range(4)]
        s.K = ex.func('K', IntS, IntS)               # voxel key of a point; -1 (all ones) outside the supported range
        s.inv = ex.func('inv_leaf', RealS)() if False else z3.Real('inv_leaf')
        i = z3.Int('i_'); n0 = len(st.pc)
        st.assume([s.n >= 0, s.n < 2 ** 31, s.leaf > 0, s.inv * s.leaf == 1, s.inv == 1 / s.leaf, s.inv > 0, s.inv < 2 ** 30])
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < s.n), z3.And([z3.And(s.x(k, i) > -2 ** 30, s.x(k, i) < 2 ** 30) for k in range(3)])), [s.L[0][i]]))
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < s.n), s.L[3][i] == 1), [s.L[3][i]]))
        st.assume(forall(i, s.K(i) == s.key(i), [s.K(i)]))
        st.assume(forall(i, z3.And(s.L[0][i] == s.L[0][i], s.K(i) == s.key(i)), [s.L[0][i]]))
        s.hard = set(f.get_id() for f in st.pc[n0:] if mentions(f, s.leaf)); s.facts = st.pc[n0:]
    def x(s, k, i): return s.L[k][i] * (1 / s.leaf)
    def vox(s, k, i): return z3.ToInt(s.x(k, i))
    def key(s, i):
        c = [s.vox(k, i) + 2 ** 20 for k in range(3)]
        return z3.If(z3.And([z3.And(x >= 0, x <= 2 ** 21 - 1) for x in c]), c[0] + 2 ** 21 * c[1] + 2 ** 42 * c[2], z3.IntVal(-1))

def vec_ctor(cl, box):
    """std::vector<std::pair<uint64, size_t>>(n) / vector(): storage of n value-initialised elements"""
    def h(ex, st, ins, args):
        this, n = args[0], ex.asint(st, args[1]) if len(args) > 1 and not isinstance(args[1], Ptr) else 0
        r = Region('coord_pt', 1, 16, [(0, 'i64'), (8, 'i64')], length=iv(n))
        box['C'] = r; box['Cn'] = iv(n)
        for k, q in ((0, 0), (8, n), (16, n)): ex.store(st, ex.padd_const(this, k), Ptr(r, (q,)), 'ptr')
        return UNDEF
    return (r'^std::vector<std::pair<unsigned long, unsigned long>, .*>::vector\(', h)

def keyed(cl, ex, st, C, j):
    a, b = ex.named_arr(st, C, 0, 'i64'), ex.named_arr(st, C, 8, 'i64')
    return z3.And(a[j] == cl.K(j), b[j] == j)

def key_loop(cl, box):
    """loop candidates of the key phase: every index from the start of the range to the loop position carries its key"""
    def f(L):
        ex, st = L.ex, L.st
        if 'C' not in box: return []
        C = box['C']; lo = L.st.mem.get(('ghost', 'lo'), z3.IntVal(0))
        a, b = ex.named_arr(st, C, 0, 'i64'), ex.named_arr(st, C, 8, 'i64')
        j = z3.Int('j_')
        out = []
        for n in L.phis:
            if L.tys[n].k != 'i' or L.tys[n].n == 1: continue
            q = L.cur[n]; q = iv(q.term() if isinstance(q, Scaled) else q)
            out += [('keys up to ' + n, forall(j, z3.Implies(z3.And(lo <= j, j < q), z3.And(a[j] == cl.K(j), b[j] == j)), [a[j]])), ('ids up to ' + n, forall(j, z3.Implies(z3.And(lo <= j, j < q), z3.And(a[j] == cl.K(j), b[j] == j)), [b[j]])),
                    (n + '<=n', q <= cl.n), (n + '>=lo', q >= lo)]
            h = L.st.mem.get(('ghost', 'hi'))
            if h is not None: out += [(n + '<=hi', q <= h)]
        return out
    return f

class KeySpec(ParSpec):
    def __init__(s, cl, box): s.cl, s.box, s.shared = cl, box, (box['C'],)
    def space(s, ex, st, lo, hi): return [('starts at the first point', lo == 0), ('ends at the last point', hi == s.cl.n)]
    def havoc(s, ex, st):
        for off in (0, 8): st.mem[(s.box['C'], off, 'i64')] = z3.Const(fresh_name('C%d' % off), z3.ArraySort(IntS, IntS))
    def begin(s, ex, st, lo, hi): s.havoc(ex, st)
    def writable(s, ex, st, p, kind, lo, hi): return z3.And(lo <= p.key[-1], p.key[-1] < hi)
    def end(s, ex, st, lo, hi):
        j = z3.Int('jc')
        return [('every point of the chunk has its voxel key', z3.Implies(z3.And(lo <= j, j < hi), keyed(s.cl, ex, st, s.box['C'], j)))]
    def after(s, ex, st, lo, hi):
        s.havoc(ex, st)
        a, b = [ex.named_arr(st, s.box['C'], k, 'i64') for k in (0, 8)]
        j = z3.Int('j_'); body = z3.Implies(z3.And(lo <= j, j < hi), z3.And(a[j] == s.cl.K(j), b[j] == j))
        st.assume(forall(j, body, [a[j]])); st.assume(forall(j, body, [b[j]]))

# ------------------------------------------------------------------ grouping phase
class Sorted:
    """the sorted (key, id) array: a permutation of (K(i), i), ordered by unsigned key; V valid entries. G/R: group index and running group sums of the run starting at s (defined recursively)"""
    def __init__(s, cl, ex, st, C):
        s.cl, s.C = cl, C
        s.a, s.b = z3.Const(fresh_name('key'), z3.ArraySort(IntS, IntS)), z3.Const(fresh_name('id'), z3.ArraySort(IntS, IntS))
        st.mem[(C, 0, 'i64')], st.mem[(C, 8, 'i64')] = s.a, s.b
        s.V = fint('V'); s.Q = z3.Function(fresh_name('pos'), IntS, IntS)
        s.G = z3.Function(fresh_name('group'), IntS, IntS, IntS); s.R = [z3.Function(fresh_name('sum%d' % k), IntS, IntS, RealS) for k in range(4)]
        s.M = [z3.Function(fresh_name('mean%d' % k), IntS, IntS, RealS) for k in range(3)]
        n = cl.n
        st.assume(z3.And(0 <= s.V, s.V <= n))
        for f in s.facts(): st.assume(f)
        C.const = True
    def facts(s):
        i, j = z3.Ints('i_ j_'); n = s.cl.n
        ins = lambda x: z3.And(0 <= x, x < n)
        el = z3.Implies(ins(j), z3.And(ins(s.b[j]), s.a[j] == s.cl.K(s.b[j]), s.Q(s.b[j]) == j, (s.a[j] == -1) == (j >= s.V), s.a[j] >= -1))
        return [forall(j, el, [s.a[j]]), forall(j, el, [s.b[j]]), forall(i, z3.Implies(ins(i), z3.And(ins(s.Q(i)), s.b[s.Q(i)] == i)), [s.Q(i)]),
                forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < s.V), s.a[i] <= s.a[j]), [z3.MultiPattern(s.a[i], s.a[j])])]
    def bnd(s, t): return s.a[t - 1] != s.a[t]
    def defs(s, lo, t):
        """definitional instances at (lo, t), t > lo, and at (lo, lo)"""
        p = s.cl.L
        out = [s.G(lo, t) == s.G(lo, t - 1) + z3.If(s.bnd(t), 1, 0)] + [s.R[k](lo, t) == z3.If(s.bnd(t), z3.RealVal(0), s.R[k](lo, t - 1)) + p[k][s.b[t]] for k in range(4)]
        base = [s.G(lo, lo) == 0] + [s.R[k](lo, lo) == p[k][s.b[lo]] for k in range(4)]
        mn = [s.M[k](lo, t) == s.R[k](lo, t) / s.R[3](lo, t) for k in range(3)]
        return [z3.Implies(t > lo, z3.And(out))] + base + mn + [s.b[lo] == s.b[lo], s.b[t] == s.b[t]]
    def mean(s, lo, t, k): return s.M[k](lo, t)
    def out_ok(s, O, lo, t, off=0, k=None):
        """the output of the group whose last position is t"""
        g = s.G(lo, t) + off
        if k is not None: return O[k][g] == (s.mean(lo, t, k) if k < 3 else 1)
        return z3.And([O[k][g] == s.mean(lo, t, k) for k in range(3)] + [O[3][g] == 1])

def sort_contract(box):
    """assumed contract of the sorting routines on the whole (key, id) array: a permutation of the contents ordered by the comparator (checked to be the unsigned key order); proved for the OpenMP quick sort under C07"""
    def sort(ex, st, ins, args, dem=None):
        cl, C = box['cl'], box['C']
        a = args
        if re.search(r'parallel_sort<std::vector|parallel_sort<.*vector<.*>&', ex.unit.dem.get(ins.x, '')): a = [ex.load(st, args[0], 'ptr'), ex.load(st, ex.padd_const(args[0], 8), 'ptr')] + args[1:]
        if not (isinstance(a[0], Ptr) and a[0].r is C and a[1].r is C): raise Unsupported('sort of another range')
        ex.oblige(st, z3.And(iv(a[0].key[-1]) == 0, iv(a[1].key[-1]) == cl.n), 'the whole key array is sorted', 'pre')
        j = z3.Int('jc')
        ex.oblige(st, z3.Implies(z3.And(0 <= j, j < cl.n), keyed(cl, ex, st, C, j)), 'every entry is (voxel key, point index) before sorting', 'pre', assume=False)
        check_cmp(ex, st, ins)
        # the grouping phase does not depend on how keys are computed: drop those hypotheses
        st.pc = [f for f in st.pc if f.get_id() not in cl.hard and not mentions(f, cl.leaf)]
        ex.linear_houdini = 'only'
        box['S'] = Sorted(cl, ex, st, C)
        return UNDEF
    return (SORT, sort)

def check_cmp(ex, st, ins):
    """the comparator used by this sort orders by unsigned key"""
    dem = ex.unit.dem.get(ins.x, '')
    m = [n for n in ex.m.funcs if re.search(r"'lambda\d*'\([^()]*\)::operator\(\)<std::pair<unsigned long, unsigned long>.*\) const$", ex.unit.dem.get(n, '')) and ex.unit.dem[n].startswith('auto ') and not re.search(r'(quick|merge)_sort', ex.unit.dem[n].split("'lambda")[0])]
    if not m: raise Unsupported('comparator not found')
    for fn in m:
        r1, r2 = Region('lhs', size=16), Region('rhs', size=16)
        k1, k2 = z3.Int('lhs_key'), z3.Int('rhs_key')
        s2 = st.copy(); s2.pc = []; s2.pcset = set()
        for r, k in ((r1, k1), (r2, k2)):
            s2.mem[(r, 0)] = ('i64', k); s2.mem[(r, 8)] = ('i64', fint('id')); s2.assume(z3.And(k >= -1, k < 2 ** 63)); r.const = True
        for t, r in ex.run_function(fn, s2, [Ptr(Region('cmp', size=1)), Ptr(r1), Ptr(r2)]):
            u = lambda k: z3.If(k < 0, k + 2 ** 64, k)
            ex.oblige(t, bv_(ex.asbool(r)) == (u(k1) < u(k2)), 'the comparator orders by voxel key', 'pre', assume=False)

def cloud_contracts(box, o):
    """make_shared<PointCloud>() and PointCloud::resize (the latter is under contract in C21)"""
    def mk(ex, st, ins, args):
        pc = Region('output_cloud', size=o.pc); r = Region('output_points', 1, 32, V4F())
        pc.outP = r
        r.length = lambda key, st: st.mem[('ghost', 'len_%s' % id(pc))] if st is not None else z3.IntVal(0)
        st.mem[('ghost', 'len_%s' % id(pc))] = z3.IntVal(0)
        for v in (o.pts, o.nrm, o.cov):
            for k in (0, 8, 16): st.mem[(pc, v + k)] = ('ptr', Ptr(r, (0,)))
        ex.store(st, args[0], Ptr(pc), 'ptr'); ex.store(st, ex.padd_const(args[0], 8), NULL, 'ptr')
        box.setdefault('pcs', []).append(pc)
        return UNDEF
    def resize(ex, st, ins, args):
        pc = args[0].r; n = iv(ex.toU(st, ex.asint(st, args[1]), 64))
        if not hasattr(pc, 'outP'): raise Unsupported('resize of another cloud')
        if 'on_resize' in box: box['on_resize'](ex, st, n)
        st.mem[('ghost', 'len_%s' % id(pc))] = n
        for k in (8, 16): st.mem[(pc, o.pts + k)] = ('ptr', Ptr(pc.outP, (n,)))
        return UNDEF
    def ctor(ex, st, ins, args):
        r = box.setdefault('subs', {}).get(id(ins)) or Region('sub_points', 1, 32, V4F())
        box['subs'][id(ins)] = r; r.born = set(st.loops); st.mem[('mark', 'sub')] = r
        for k in range(4): st.mem[(r, 8 * k, 'double')] = z3.Const(fresh_name('sub%d' % k), z3.ArraySort(IntS, RealS))
        r.length = lambda key, st, r=r, q=args[0]: iv(st.mem[(q.r, q.off + 8)][1].key[-1]) if st is not None else z3.IntVal(0)
        for k in (0, 8, 16): ex.store(st, ex.padd_const(args[0], k), Ptr(r, (0,)), 'ptr')
        return UNDEF
    def emplace(ex, st, ins, args):
        this = args[0]; e = args[1]
        end = ex.load(st, ex.padd_const(this, 8), 'ptr')
        dem = ex.unit.dem.get(ins.x, '')
        if 'scalar_quotient_op' in dem:
            q = Ptr(Region('value', size=32, local=True))
            rs = ex.run_function(ex.unit.one(r'^vp_evalq\('), st, [e, q])
            if len(rs) != 1: raise Unsupported('expression evaluation branches')
            st.mem = rs[0][0].mem; st.assume(rs[0][0].pc); e = q
        elif 'CwiseBinaryOp' in dem or 'Cwise' in dem: raise Unsupported('expression element')
        v = [ex.load(st, ex.padd_const(e, 8 * k), 'double') for k in range(4)]
        for k in range(4): ex.store(st, ex.padd_const(end, 8 * k), v[k], 'double', check=False)
        ex.store(st, ex.padd_const(this, 8), ex.padd_const(end, 32), 'ptr')
        return end
    return [(r'make_shared<small_gicp::PointCloud', mk), (r'PointCloud::resize\(', resize), (r'std::vector<Eigen::Matrix<double, 4, 1, .*>::vector\(\)', ctor), (r'std::vector<Eigen::Matrix<double, 4, 1, .*>::reserve\(', nop),
            (r'std::vector<Eigen::Matrix<double, 4, 1, .*>::(emplace_back<|push_back)', emplace), (r'std::vector<.*>::~vector\(', nop), (r'~shared_ptr|~__shared_count|_M_release', nop)]

def outer_ints(L):
    """integer values from outside the loop that the loop compares with"""
    ex, st = L.ex, L.pre; out = []
    inside = set(i.res for b in L.loop.body for i in L.f.blocks[b] if i.res)
    for b in L.loop.body:
        for i in L.f.blocks[b]:
            if i.op == 'icmp':
                for x in i.a:
                    if x.k == 'reg' and x.v not in inside and x.v in st.env:
                        v = st.env[x.v]
                        v = v.term() if isinstance(v, Scaled) else v
                        if isz(v) and v.sort() == IntS: out.append((x.v, v))
    return out

def vals(L, kinds=('i', 'double')):
    """loop-carried values: phis and modified scalar slots"""
    out = []
    for n in L.phis:
        t = L.tys[n]
        if t.k == 'i' and t.n > 1:
            v = L.cur[n]; out.append((n, iv(v.term() if isinstance(v, Scaled) else v)))
        elif t.k == 'double': out.append((n, rv(L.ex.asreal(L.cur[n]))))
        elif t.k == 'ptr' and isinstance(L.cur[n], Ptr) and L.cur[n].r.nkeys: out.append((n, iv(L.cur[n].key[-1])))
    for key in sorted((k for k in L.mods if len(k) == 2 and isinstance(k[0], Region)), key=lambda k: (k[0].name, k[1])):
        if key in L.st.mem:
            kd, v = L.st.mem[key]; nm = 'mem:%s+%d' % (key[0].name, key[1])
            if isinstance(v, Ptr) and v.r.nkeys: out.append((nm, iv(v.key[-1])))
            elif kd in ('double',) and not isinstance(v, Undef): out.append((nm, rv(L.ex.asreal(v))))
            elif kd[0] == 'i' and v is not UNDEF and not isinstance(v, (Ptr, Null, Concat)): out.append((nm, iv(L.ex.asint(L.st, v))))
    return out

def group_loop(box, target):
    """loop candidates of the grouping phase; target(L) -> (the four lane arrays receiving the means) or None"""
    def f(L):
        ex, st = L.ex, L.st
        if 'S' not in box: return key_loop(box['cl'], box)(L)
        S, cl = box['S'], box['cl']
        out = []
        vs = vals(L); ints = [(n, v) for n, v in vs if v.sort() == IntS]; dbl = [(n, v) for n, v in vs if v.sort() == RealS]
        lo = L.pre.mem.get(('mark', 's'))
        hi = L.st.mem.get(('ghost', 'hi'))
        phi = [(n, q) for n, q in ints if not n.startswith('mem:')]
        for n, q in ints:
            if hi is not None: out += [(n + '<=hi', q <= hi), (n + '<hi', q < hi)]
            out += [(n + '<=' + m, q <= b) for m, b in outer_ints(L)] + [(n + '>=0', q >= 0), (n + '<=n', q <= cl.n)]
        O = target(L)
        rs = L.pre.mem.get(('mark', 'resv'))
        if rs is not None and O is not None:
            p, m, W = rs; t = z3.Int('t_')
            for n, q in ints: out.append(('copied up to ' + n, z3.And([forall(t, z3.Implies(z3.And(p <= t, t < p + q), O[k][t] == W[k][t - p]), [O[k][t]]) for k in range(4)])))
        elif lo is not None:
            V = S.V; t = z3.Int('t_')
            arrs = O
            pos = []
            for n, q in phi:
                if L.tys[n].k != 'i': continue
                i0 = L.init[n]; i0 = iv(i0.term() if isinstance(i0, Scaled) else i0)
                if ex.quick(L.pre, i0 == lo + 1): pos.append((n, q))
                elif ex.quick(L.pre, i0 == lo): pos.append((n + '+1', q + 1))
            for n, q in pos:
                m = z3.If(q < V, q, V)
                st.assume(S.defs(lo, m - 1)); st.assume(S.defs(lo, m)); st.assume(S.a[q] == S.a[q])
                out += [('%s>s' % n, q > lo)]
                out += [('%s is lane %d of the running sum at %s' % (x, k, n), v == S.R[k](lo, m - 1)) for x, v in dbl for k in range(4) if not x.startswith('mem:') or int(x.rsplit('+', 1)[1]) % 32 == 8 * k]
                out += [('%s counts the groups before %s' % (x, n), z3.And(v == S.G(lo, m - 1), v <= m - 1 - lo)) for x, v in ints if x != n and x + '+1' != n]
                out += [('earlier groups are smaller ' + n, forall(t, z3.Implies(z3.And(lo <= t, t < m - 1, S.a[t] != S.a[t + 1]), S.G(lo, t) < S.G(lo, m - 1)), [S.G(lo, t)]))]
                if arrs is not None: out += [('lane %d of the means of the groups closed before %s' % (k, n), forall(t, z3.Implies(z3.And(lo <= t, t < m - 1, S.a[t] != S.a[t + 1]), S.out_ok(arrs, lo, t, k=k)), [S.G(lo, t)])) for k in range(4)]
            out += [('%s >= 1' % x, v >= 1) for x, v in dbl]
        return out
    return f

def mark_reads(box):
    def on_load(ex, st, p, kind):
        if 'S' in box and p.r is box['C'] and ('mark', 's') not in st.mem: st.mem[('mark', 's')] = iv(p.key[-1])
    return on_load
def lanes(ex, st, r): return [ex.named_arr(st, r, 8 * k, 'double') for k in range(4)]

def run_lemmas(ctx):
    """what the recursive definitions say: groups of a run are its voxels, sums are the sums over the group"""
    a = z3.Array('a', IntS, IntS); V, lo, t, u, v = z3.Ints('V lo t u v'); G = z3.Function('G', IntS, IntS)
    i, j = z3.Ints('i j')
    srt = forall([i, j], z3.Implies(z3.And(lo <= i, i <= j, j < V), a[i] <= a[j]))
    stp = G(t + 1) == G(t) + z3.If(a[t] != a[t + 1], 1, 0)
    ih = lambda t, u: z3.And((G(u) == G(t)) == (a[u] == a[t]), G(u) <= G(t), G(u) >= 0)
    hy = [srt, stp, lo <= t, t + 1 < V, forall(u, z3.Implies(z3.And(lo <= u, u <= t), ih(t, u)), [G(u)])]
    ctx.lemma('groups are voxels: step', hy + [lo <= v, v <= t + 1, G(v) == G(v)], ih(t + 1, v))
    ctx.lemma('groups are voxels: base', [G(lo) == 0], ih(lo, lo))
    W = z3.Function('W', IntS, IntS, RealS); R = z3.Function('R', IntS, RealS); P = z3.Array('P', IntS, RealS); g = z3.Int('g')
    defs = [stp, forall(g, W(t + 1, g) == W(t, g) + z3.If(G(t + 1) == g, P[t + 1], z3.RealVal(0)), [W(t + 1, g)]), R(t + 1) == z3.If(a[t] != a[t + 1], z3.RealVal(0), R(t)) + P[t + 1]]
    inv = lambda t: z3.And(R(t) == W(t, G(t)), forall(g, z3.Implies(g > G(t), W(t, g) == 0), [W(t, g)]))
    ctx.lemma('the running sum is the sum over the group: step', defs + [inv(t), W(t + 1, G(t + 1)) == W(t + 1, G(t + 1)), W(t, G(t + 1)) == W(t, G(t + 1))], R(t + 1) == W(t + 1, G(t + 1)))
    ctx.lemma('the running sum is the sum over the group: later groups are empty', defs + [inv(t), v > G(t + 1), W(t, v) == W(t, v)], W(t + 1, v) == 0)
    ctx.lemma('closed groups keep their sum', defs + [v < G(t + 1)], W(t + 1, v) == W(t, v))
