"""C03: kd-tree construction (serial, OpenMP, TBB) yields a valid tree: the validity assumed by C02."""
from ..common import *
from .. import stdc
from ..unit import OMPFLAGS

KINDS = {'ser': ('KdTreeBuilder', 'kdtree.hpp'), 'omp': ('KdTreeBuilderOMP', 'kdtree_omp.hpp'), 'tbb': ('KdTreeBuilderTBB', 'kdtree_tbb.hpp')}
PROJ = {'a': 'AxisAlignedProjection', 'n': 'NormalProjection'}

def src(kind):
    B, h = KINDS[kind]
    s = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/%s>
using namespace small_gicp;
using TreeA = UnsafeKdTree<PointCloud, AxisAlignedProjection>;
using TreeN = UnsafeKdTree<PointCloud, NormalProjection>;
void vp_build_a(const %s& b, TreeA& t, const PointCloud& p) { b.build_tree(t, p); }
void vp_build_n(const %s& b, TreeN& t, const PointCloud& p) { b.build_tree(t, p); }
''' % (h, B, B)
    for p, t in (('a', 'TreeA'), ('n', 'TreeN')):
        s += off_src([(p + '_indices', t, 'indices'), (p + '_root', t, 'root'), (p + '_nodes', t, 'nodes')])
        nd = t + '::Node'
        s += off_src([(p + '_left', nd, 'left'), (p + '_right', nd, 'right'), (p + '_first', nd, 'node_type.lr.first'), (p + '_last', nd, 'node_type.lr.last'), (p + '_thresh', nd, 'node_type.sub.thresh'), (p + '_proj', nd, 'node_type.sub.proj')])
        s += size_src([(p + '_node', nd)])
    s += off_src([('pc_points', 'PointCloud', 'points'), ('b_leaf', B, 'max_leaf_size'), ('b_ps', B, 'projection_setting')] + ([('b_threads', B, 'num_threads')] if kind == 'omp' else []))
    return s

U = lambda x: z3.If(x >= 0, x, x + 2 ** 32)
SetS = z3.ArraySort(IntS, BoolS)

class World:
    def __init__(s, ex, st, offs, kind, p):
        s.ex, s.kind, s.p, s.o = ex, kind, p, offs
        o = offs
        s.N, s.M = z3.Int('N'), z3.Int('M')
        st.assume(z3.And(s.N >= 1, s.N < 2 ** 31, s.M >= 0, s.M < 2 ** 32 - 1))
        pj = s.pj = o[p + '_proj']
        NF = [(o[p + '_first'], 'i32'), (o[p + '_last'], 'i32'), (o[p + '_thresh'], 'double'), (o[p + '_left'], 'i32'), (o[p + '_right'], 'i32')]
        NF += [(pj, 'i32')] if p == 'a' else [(pj, 'double'), (pj + 8, 'double'), (pj + 16, 'double')]
        s.NF = NF = list(dict.fromkeys(NF))
        s.rp = Region('points', 1, 32, V4F(), length=s.N, const=True)
        s.ri = Region('tree.indices', 1, 8, [(0, 'i64')], length=s.N)
        s.rn = Region('tree.nodes', 1, o['%s_node' % p], NF, length=s.M)
        s.rc = Region('cloud', size=72, const=True)
        s.rt = Region('tree', size=128)
        s.rb = Region('builder', size=64, const=True)
        s.rk = Region('node_count', size=8)
        m = st.mem
        def vec(r, off, data, n):
            m[(r, off)] = ('ptr', Ptr(data, (0,))); m[(r, off + 8)] = ('ptr', Ptr(data, (n,))); m[(r, off + 16)] = ('ptr', Ptr(data, (n,)))
        s.vec = vec
        vec(s.rc, o.pc_points, s.rp, s.N)
        m[(s.rt, 0)] = ('ptr', Ptr(s.rc))
        vec(s.rt, o[p + '_indices'], s.ri, s.N); vec(s.rt, o[p + '_nodes'], s.rn, s.M)
        s.leaf = z3.Int('max_leaf_size'); st.assume(z3.And(s.leaf >= 1, s.leaf < 2 ** 31))
        m[(s.rb, o.b_leaf)] = ('i32', s.leaf)
        s.X = [ex.named_arr(st, s.rp, 8 * i, 'double') for i in range(4)]
        s.PA = z3.Function('PA', IntS, IntS, RealS); s.PN = z3.Function('PN', RealS, RealS, RealS, IntS, RealS)
        if kind == 'ser':
            s.cnt0 = z3.Int('count0'); m[(s.rk, 0)] = ('i64', s.cnt0); st.assume(z3.And(s.cnt0 >= 0, s.cnt0 < 2 ** 33))
        s.proj = None
        for nm, srt in (('alloc', SetS), ('mine', SetS), ('lo', stdc.PermS), ('hi', stdc.PermS), ('mid', stdc.PermS), ('credit', IntS)): m[('ghost', nm)] = z3.Const('ghost_' + nm + '0', srt)
        x = z3.Int('x_')
        st.assume(forall(x, z3.Not(m[('ghost', 'mine')][x]), [m[('ghost', 'mine')][x]]))

    def view(s, st):
        ex, o, p = s.ex, s.o, s.p
        v = type('V', (), {})()
        v.idx = ex.named_arr(st, s.ri, 0, 'i64')
        for f in ('first', 'last', 'left', 'right'): setattr(v, f, ex.named_arr(st, s.rn, o[p + '_' + f], 'i32'))
        v.th = ex.named_arr(st, s.rn, o[p + '_thresh'], 'double')
        if p == 'a': v.axis = ex.named_arr(st, s.rn, s.pj, 'i32')
        else: v.nv = [ex.named_arr(st, s.rn, s.pj + 8 * i, 'double') for i in range(3)]
        for g in ('alloc', 'mine', 'lo', 'hi', 'mid'): 
            a = st.mem[('ghost', g)]
            if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                c = z3.Const(fresh_name('ghost_' + g), a.sort()); st.assume(c == a); st.mem[('ghost', g)] = c; a = c
            setattr(v, g, a)
        v.credit = st.mem[('ghost', 'credit')]
        if s.kind == 'ser' and (s.rk, 0) in st.mem:
            # serial builder: the allocated nodes are those below the counter
            v.cnt = iv(st.mem[(s.rk, 0)][1])
            v.alloc = z3.Const(fresh_name('ghost_alloc'), SetS); x = z3.Int('x_')
            st.assume(forall(x, v.alloc[x] == z3.And(0 <= x, x < v.cnt), [v.alloc[x]]))
        return v
    def K(s, v, n, i):
        return s.PA(v.axis[n], i) if s.p == 'a' else s.PN(v.nv[0][n], v.nv[1][n], v.nv[2][n], i)
    def Kdef(s, pr, i):
        """meaning of the projection of point i, written independently of the code"""
        c = [x[i] for x in s.X]
        if s.p == 'a': return s.PA(pr[0], i) == z3.If(pr[0] == 0, c[0], z3.If(pr[0] == 1, c[1], c[2]))
        return s.PN(pr[0], pr[1], pr[2], i) == pr[0] * c[0] + pr[1] * c[1] + pr[2] * c[2]
    def Kp(s, pr, i): return s.PA(pr[0], i) if s.p == 'a' else s.PN(pr[0], pr[1], pr[2], i)
    def fields(s, v):
        return [v.first, v.last, v.left, v.right, v.th] + ([v.axis] if s.p == 'a' else v.nv)
    def need(s, n):
        """upper bound of the number of nodes of a tree over n points"""
        return z3.If(s.leaf >= 3, z3.If(n <= s.leaf, z3.IntVal(1), n - 1), 2 * n - 1)
    def pre(s, v, a, b):
        i, n = z3.Ints('i_ n_')
        r = [('range', z3.And(0 <= a, a < b, b <= s.N)),
             ('indices in range', forall(i, z3.Implies(z3.And(0 <= i, i < s.N), z3.And(v.idx[i] >= 0, v.idx[i] < s.N)), [v.idx[i]])),
             ('unused nodes are default-constructed', forall(n, z3.Implies(z3.And(0 <= n, n < s.M, z3.Not(v.alloc[n])), v.left[n] == -1), [v.left[n]]))]
        need = s.need(b - a)
        if s.kind == 'ser':
            r += [('enough room for the nodes of the subtree', z3.And(v.cnt >= 0, v.cnt + need <= s.M))]
        else:
            r += [('enough room for the nodes of the subtree', z3.And(v.credit >= need, v.credit <= s.M))]
        return r
    def post(s, o, v, mine, r, a, b):
        """r: unsigned root index; mine: set of nodes of the new subtree"""
        i, n = z3.Ints('i_ n_')
        L, R = U(v.left[n]), U(v.right[n])
        leaf = v.left[n] == -1
        K = lambda j: s.K(v, n, v.idx[j])
        out = [('root of the subtree', z3.And(mine[r], v.lo[r] == a, v.hi[r] == b)),
               ('new nodes were unused before', forall(n, z3.Implies(mine[n], z3.And(0 <= n, n < s.M, z3.Not(o.alloc[n]), v.alloc[n])), [mine[n]])),
               ('allocation only grows', forall(n, z3.Implies(o.alloc[n], v.alloc[n]), [o.alloc[n], v.alloc[n]])),
               ('node ranges nest', forall(n, z3.Implies(mine[n], z3.And(a <= v.lo[n], v.lo[n] < v.hi[n], v.hi[n] <= b)), [mine[n]])),
               ('leaves hold their range and respect the leaf size', forall(n, z3.Implies(z3.And(mine[n], leaf), z3.And(U(v.first[n]) == v.lo[n], U(v.last[n]) == v.hi[n], v.hi[n] - v.lo[n] <= s.leaf)), [v.left[n]])),
               ('children are nodes of the subtree', forall(n, z3.Implies(z3.And(mine[n], z3.Not(leaf)), z3.And(mine[L], mine[R])), [v.left[n]])),
               ('children partition the range of their parent', forall(n, z3.Implies(z3.And(mine[n], z3.Not(leaf)), z3.And(v.lo[L] == v.lo[n], v.hi[L] == v.mid[n], v.lo[R] == v.mid[n], v.hi[R] == v.hi[n], v.lo[n] < v.mid[n], v.mid[n] < v.hi[n])), [v.left[n]])),
               ('left points do not project above the threshold', forall([n, i], z3.Implies(z3.And(mine[n], z3.Not(leaf), v.lo[n] <= i, i < v.mid[n]), K(i) <= v.th[n]), [z3.MultiPattern(v.left[n], v.idx[i])])),
               ('right points do not project below the threshold', forall([n, i], z3.Implies(z3.And(mine[n], z3.Not(leaf), v.mid[n] <= i, i < v.hi[n]), K(i) >= v.th[n]), [z3.MultiPattern(v.left[n], v.idx[i])]))]
        if s.p == 'a': out.append(('split axis is a coordinate axis', forall(n, z3.Implies(z3.And(mine[n], z3.Not(leaf)), z3.And(0 <= v.axis[n], v.axis[n] <= 2)), [v.axis[n]])))
        same = [x[n] == y[n] for x, y in zip(s.fields(o), s.fields(v))] + [v.lo[n] == o.lo[n], v.hi[n] == o.hi[n], v.mid[n] == o.mid[n]]
        nm = ['first', 'last', 'left', 'right', 'thresh'] + (['axis'] if s.p == 'a' else ['n0', 'n1', 'n2']) + ['lo', 'hi', 'mid']
        arrs = s.fields(v) + [v.lo, v.hi, v.mid]; arro = s.fields(o) + [o.lo, o.hi, o.mid]
        for q, c, ar, ao in zip(nm, same, arrs, arro): out.append(('other nodes untouched: ' + q, forall(n, z3.Implies(z3.Not(mine[n]), c), [ar[n], ao[n]])))
        if s.kind == 'ser':
            out += [('node count', z3.And(v.cnt > o.cnt, v.cnt <= o.cnt + s.need(b - a))),
                    ('nodes of the subtree', forall(n, mine[n] == z3.And(o.cnt <= n, n < v.cnt), [mine[n]]))]
        return out

def counter_contracts(W):
    """parallel builders: the counter is shared; fetch-add hands out a fresh index (credits account for the capacity), plain reads see anything"""
    def on_load(ex, st, p, kind): pass

class ParExec(Exec):
    """execution of a task body while other tasks run: the shared counter is only known through the credits"""
    W = None
    def atomic(s, st, ins, p, v):
        W = s.W
        if W is not None and p.r is W.rk:
            if not (ins.x == 'add' and s.asint(st, v) == 1): raise Unsupported('counter update is not an increment')
            n = fint('fresh_node')
            s.oblige(st, st.mem[('ghost', 'credit')] >= 1, 'node allocation within the reserved capacity', 'bounds')
            a = st.mem[('ghost', 'alloc')]
            st.assume(z3.And(n >= 0, n < W.M, z3.Not(a[n])))
            a2 = z3.Const(fresh_name('ghost_alloc'), SetS); x = z3.Int('x_')
            st.assume(forall(x, a2[x] == z3.Or(a[x], x == n), [a2[x], a[x]]))
            m = st.mem[('ghost', 'mine')]; m2 = z3.Const(fresh_name('ghost_mine'), SetS)
            st.assume(forall(x, m2[x] == z3.Or(m[x], x == n), [m2[x], m[x]]))
            st.mem[('ghost', 'alloc')] = a2; st.mem[('ghost', 'mine')] = m2
            st.mem[('ghost', 'credit')] = st.mem[('ghost', 'credit')] - 1
            st.env[ins.res] = n
            return
        Exec.atomic(s, st, ins, p, v)
    def load(s, st, p, kind, check=True):
        if s.W is not None and isinstance(p, Ptr) and p.r is s.W.rk and getattr(s, 'shared_counter', True):
            v = fint('racy_read'); st.assume(z3.And(v >= 0, v < 2 ** 33)); return v
        return Exec.load(s, st, p, kind, check)
    def store(s, st, p, v, kind, check=True):
        if s.W is not None and isinstance(p, Ptr) and p.r is s.W.rk and getattr(s, 'shared_counter', True):
            s.oblige(st, z3.BoolVal(False), 'shared node counter written outside an atomic increment', 'frame')
        return Exec.store(s, st, p, v, kind, check)

def create_contract(box, rx):
    def h(ex, st, ins, args):
        W = box['W']
        bld, tree, cnt, pts, gf, a_, b_ = args[:7]
        if isinstance(b_, PtrInt): b_ = b_.p
        if isinstance(a_, PtrInt): a_ = a_.p
        ok = all(isinstance(x, Ptr) and x.r is r and x.off == 0 for x, r in ((bld, W.rb), (tree, W.rt), (cnt, W.rk), (pts, W.rc)))
        if not ok or not all(isinstance(x, Ptr) and x.r is W.ri for x in (gf, a_, b_)): raise Unsupported('recursive call on other objects')
        a, b = iv(a_.key[-1]), iv(b_.key[-1])
        ex.oblige(st, iv(gf.key[-1]) == 0, 'pre of create_node: global_first is the first index', 'precondition')
        o = W.view(st)
        for n, f in W.pre(o, a, b): ex.oblige(st, f, 'pre of create_node: ' + n, 'precondition')
        if box.get('cur'): ex.oblige(st, b - a < box['cur'][1] - box['cur'][0], 'termination: the recursion range shrinks', 'termination')
        # havoc
        stdc.permute(ex, st, W.ri, 'i64', a, b, 'perm')
        for off, k in W.NF: st.mem[(W.rn, off, k)] = z3.Const(fresh_name('nodes.%d' % off), ex._arr_sort(W.rn, k))
        for g in ('alloc', 'lo', 'hi', 'mid'): st.mem[('ghost', g)] = z3.Const(fresh_name('ghost_' + g), o.__dict__[g].sort())
        mineC = z3.Const(fresh_name('ghost_child'), SetS)
        m2 = z3.Const(fresh_name('ghost_mine'), SetS); x = z3.Int('x_')
        st.assume(forall(x, m2[x] == z3.Or(o.mine[x], mineC[x]), [m2[x], mineC[x], o.mine[x]]))
        st.mem[('ghost', 'mine')] = m2
        if W.kind == 'ser':
            c2 = fint('count'); st.mem[(W.rk, 0)] = ('i64', c2); st.assume(z3.And(c2 >= 0, c2 < 2 ** 40))
        else: st.mem[('ghost', 'credit')] = o.credit - W.need(b - a)
        r = fint('root'); ex.rangefact(st, r, 'i32')
        ru = fint('rootu'); st.assume(ru == U(r))
        v = W.view(st)
        for n, f in W.post(o, v, mineC, ru, a, b): st.assume(f)
        st.mem[('ghost', 'last_child')] = (mineC, ru)
        return r
    return (rx, h)

def find_axis_contract(box):
    def h(ex, st, ins, args):
        W = box['W']
        sret = len(args) == 5
        pts, f, l = (args[1:4] if sret else args[:3])
        if isinstance(l, PtrInt): l = l.p
        if not (isinstance(pts, Ptr) and pts.r is W.rc): raise Unsupported('find_axis on another cloud')
        ex.oblige(st, z3.And(iv(f.key[-1]) >= 0, iv(f.key[-1]) < iv(l.key[-1]), iv(l.key[-1]) <= W.N), 'pre of find_axis: non-empty range', 'precondition')
        if W.p == 'a':
            ax = fint('axis'); st.assume(z3.And(ax >= 0, ax <= 2)); pr = [ax]; ret = ax
            box['prS'] = pr
            if sret: ex.store(st, args[0], ax, 'i32', False); return UNDEF
            return ret
        pr = [freal('nrm') for _ in range(3)]
        st.assume(pr[0] * pr[0] + pr[1] * pr[1] + pr[2] * pr[2] == 1)
        box['prS'] = pr
        for i in range(3): ex.store(st, ex.padd_const(args[0], 8 * i), pr[i], 'double', False)
        return UNDEF
    return (r'^small_gicp::\w*Projection small_gicp::\w*Projection::find_axis<', h)

def nth_contract(box, B):
    def h(ex, st, ins, args):
        W = box['W']
        f, nth, l = args[:3]
        ptrs = [x.p if isinstance(x, PtrInt) else x for x in (f, nth, l)]
        if not all(isinstance(x, Ptr) and x.r is W.ri and x.off == 0 for x in ptrs): raise Unsupported('nth_element on another range')
        a, m, b = [iv(x.key[-1]) for x in ptrs]
        ex.oblige(st, z3.And(0 <= a, a <= m, m < b, b <= W.N), 'pre of nth_element: valid range with an element at nth', 'precondition')
        lam = stdc.lambda_ptr(ex, st, args[3:])
        ops = [n for n in ex.m.funcs if re.search(r'%s::create_node<.*%s.*lambda.*::operator\(\)\(unsigned long, unsigned long\)' % (B, PROJ[W.p]), ex.unit.dem.get(n, '')) and '_Iter_' not in ex.unit.dem[n] and 'nth_element' not in ex.unit.dem[n] and not ex.unit.dem[n].startswith('void std::')]
        ops = [n for n in ops if len(ex.m.funcs[n].params) == 3]
        if len(ops) != 1: raise Unsupported('comparator of nth_element not identified (%d)' % len(ops))
        x, y = z3.Ints(fresh_name('x') + ' ' + fresh_name('y'))
        v = W.view(st)
        # every element handed to the comparator comes from the range
        i = z3.Int('i_')
        valid = z3.And(x >= 0, x < W.N, y >= 0, y < W.N)
        fxy, extra = stdc.functor(ex, st, ops[0], lam, [x, y], valid)
        pr = box['prS']
        s2 = st.copy(); s2.assume(valid)
        for e in extra: s2.assume(e)
        s2.assume(W.Kdef(pr, x)); s2.assume(W.Kdef(pr, y))
        ex.oblige(s2, bv_(ex.asbool(fxy)) == (W.Kp(pr, x) < W.Kp(pr, y)), 'comparator of nth_element orders by the projection', 'precondition')
        old, new, P, Q = stdc.permute(ex, st, W.ri, 'i64', a, b, 'perm')
        st.assume(forall(i, z3.Implies(z3.And(a <= i, i < m), W.Kp(pr, new[i]) <= W.Kp(pr, new[m])), [new[i]]))
        st.assume(forall(i, z3.Implies(z3.And(m <= i, i < b), W.Kp(pr, new[i]) >= W.Kp(pr, new[m])), [new[i]]))
        st.assume(W.Kdef(pr, new[m]))
        return UNDEF
    return (r'^void std::nth_element<', h)

def omp_task_contracts(box):
    def alloc(ex, st, ins, args):
        fn = args[5]
        r = Region('omp_task', size=64, local=True); sh = Region('omp_shareds', size=256, local=True)
        st.mem[(r, 0)] = ('ptr', Ptr(sh)); st.mem[(r, 8)] = ('ptr', fn)
        box.setdefault('tasks', {})[id(r)] = (r, fn)
        return Ptr(r)
    def task(ex, st, ins, args):
        k = ('ghost', 'pending'); old = st.mem.get(k, ())
        st.mem[k] = tuple(old) + ((args[2], st.mem[(args[2].r, 8)][1]),)
        return 0
    def wait(ex, st, ins, args):
        states = [st]
        pend = st.mem.get(('ghost', 'pending'), ())
        st.mem[('ghost', 'pending')] = ()
        for p, fn in pend:
            nxt = []
            for s2 in states:
                for t, _ in ex.run_function(fn.n, s2, [0, p]): nxt.append(t)
            states = nxt
        return [(t, 0) for t in states]
    nop = lambda ex, st, ins, args: UNDEF
    gt = lambda ex, st, ins, args: 0
    return [(r'^__kmpc_omp_task_alloc$', alloc), (r'^__kmpc_omp_task$', task), (r'^__kmpc_omp_taskwait$', wait), (r'^__kmpc_omp_task_(begin|complete)_if0$', nop), (r'^__kmpc_global_thread_num$', gt)]

def tbb_invoke(ex, st, ins, args):
    dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
    states = [st]
    # the closures are told apart by the operator() named in the template arguments
    ops = [n for n in ex.m.funcs if re.search(r"create_node<.*lambda\d*'\(\)::operator\(\)\(\)", ex.unit.dem.get(n, '')) and ex.proj_name in ex.unit.dem[n] and not ex.unit.dem[n].startswith('void tbb::')]
    ops.sort(key=lambda n: (re.search(r"lambda(\d*)'\(\)::operator\(\)\(\)", ex.unit.dem[n]).group(1) or '-1').zfill(4))
    want = re.findall(r"lambda(\d*)'\(\)(?!::operator)", dem)
    if len(ops) != 2 or len(args) != 2: raise Unsupported('parallel_invoke closures not identified')
    for op, a in zip(ops, args):
        nxt = []
        for s2 in states:
            for t, _ in ex.run_function(op, s2, [a]): nxt.append(t)
        states = nxt
    return [(t, UNDEF) for t in states]

KEEP = [r'std::nth_element<', r'::find_axis<', r"lambda\d*'\(unsigned long, unsigned long\)::operator\(\)", r"create_node<.*lambda\d*'\(\)::operator\(\)\(\)", r'std::vector<.*>::resize\(', r'parallel_invoke<']

def mk_exec(ctx, u, kind, p, box):
    ex = ParExec(u) if kind != 'ser' else ctx.exec(u)
    B = KINDS[kind][0]
    ex.proj_name = PROJ[p]
    ex.contracts = [find_axis_contract(box), nth_contract(box, B), create_contract(box, r'^unsigned int small_gicp::%s::create_node<[^(]*%s' % (B, PROJ[p]))]
    ex.contracts += omp_task_contracts(box) + [(r'parallel_invoke<', tbb_invoke)]
    ex.inline_bodies = []
    return ex

def prove_create(ctx, u, offs, kind, p):
    box = {}
    ex = mk_exec(ctx, u, kind, p, box)
    B = KINDS[kind][0]
    fn = u.one(r'^unsigned int small_gicp::%s::create_node<[^(]*%s' % (B, PROJ[p]))
    # the operator() of the tasks may themselves be listed as create_node<...>::lambda: the shortest match is the function
    def setup(ex, st):
        W = box['W'] = World(ex, st, offs, kind, p)
        if kind != 'ser': ex.W = W
        a, b = z3.Ints('a b')
        v = W.view(st)
        for n, f in W.pre(v, a, b): st.assume(f)
        box['cur'] = (a, b); box['entry'] = v
        stdc.perm_ghost(ex, st, 'permP'); stdc.perm_ghost(ex, st, 'permQ')
        nparams = len(u.mod.funcs[fn].params)
        last = Ptr(W.ri, (b,))
        ty = u.mod.funcs[fn].params[6][0]
        return [Ptr(W.rb), Ptr(W.rt), Ptr(W.rk), Ptr(W.rc), Ptr(W.ri, (0,)), Ptr(W.ri, (a,)), PtrInt(last) if ty.k == 'i' else last]
    def post(ex, st0, st, ret, args):
        W = box['W']; a, b = box['cur']
        o = box['entry']
        if st.mem.get(('ghost', 'pending'), ()): return [('all tasks are joined before the node is returned', z3.BoolVal(False))]
        r = z3.Int('ret_u'); st.assume(r == U(iv(ret)))
        # ghost assignment of the new node's range
        for g, val in (('lo', a), ('hi', b)): st.mem[('ghost', g)] = z3.Store(st.mem[('ghost', g)], r, val)
        if W.kind == 'ser':
            m = st.mem[('ghost', 'mine')]; m2 = z3.Const(fresh_name('ghost_mine'), SetS); x = z3.Int('x_')
            st.assume(forall(x, m2[x] == z3.Or(m[x], x == r), [m2[x], m[x]])); st.mem[('ghost', 'mine')] = m2
        v = W.view(st)
        l = U(v.left[r])
        st.mem[('ghost', 'mid')] = z3.Store(st.mem[('ghost', 'mid')], r, v.hi[l])
        v = W.view(st)
        P, Q = stdc.perm_ghost(ex, st, 'permP'), stdc.perm_ghost(ex, st, 'permQ')
        res = W.post(o, v, v.mine, r, a, b) + [('indices: ' + n, f) for n, f in stdc.perm_clauses(o.idx, v.idx, P, Q, a, b)]
        if p == 'n':
            nn = v.nv[0][r] * v.nv[0][r] + v.nv[1][r] * v.nv[1][r] + v.nv[2][r] * v.nv[2][r]
            res.append(('split direction of the new node has unit length', z3.Implies(v.left[r] != -1, nn == 1)))
        return res
    ctx.verify(ex, fn, '%s::create_node<%s>' % (B, PROJ[p]), setup, post)

def prove_build(ctx, u, offs, kind, p):
    box = {}
    ex = mk_exec(ctx, u, kind, p, box)
    B = KINDS[kind][0]
    box['cur'] = None
    def vres(ex, st, ins, args):
        W = box['W']; o = offs
        n = iv(ex.asint(st, args[1]))
        off = args[0].off
        if args[0].r is not W.rt: raise Unsupported('resize of another vector')
        if off == o[p + '_indices']:
            W.vec(st.mem and W.rt, off, W.ri, n) if False else None
            for d, x in ((0, 0), (8, n), (16, n)): st.mem[(W.rt, off + d)] = ('ptr', Ptr(W.ri, (x,)))
            box['resized_idx'] = n
            ex.oblige(st, n == W.N, 'one index slot per point', 'post')
            W.ri.length = n
        elif off == o[p + '_nodes']:
            cur = st.mem.get((W.rt, off + 8))
            first = not st.mem.get(('ghost', 'nodes_ready'))
            if first:
                st.mem[('ghost', 'nodes_ready')] = 1
                st.assume(W.M == n); ex.oblige(st, z3.And(n >= 0, n < 2 ** 32 - 1), 'node capacity fits the node index type', 'bounds')
                v = W.view(st); x = z3.Int('x_')
                st.assume(forall(x, z3.Not(v.alloc[x]), [v.alloc[x]]))
                st.assume(forall(x, z3.Implies(z3.And(0 <= x, x < W.M), v.left[x] == -1), [v.left[x]]))
                for d, q in ((0, 0), (8, n), (16, n)): st.mem[(W.rt, off + d)] = ('ptr', Ptr(W.rn, (q,)))
                st.mem[('ghost', 'credit')] = n
            else:
                box['final_n'] = n
                st.mem[('ghost', 'final_n')] = n
                for d, q in ((0, 0), (8, n)): st.mem[(W.rt, off + d)] = ('ptr', Ptr(W.rn, (q,)))
        else: raise Unsupported('resize of an unknown vector')
        return UNDEF
    def fork(ex, st, ins, args):
        fn = args[2]
        # one thread executes the single region, the others only pass through it
        st.mem[('ghost', 'single')] = 0
        gt = Region('gtid', size=4, local=True); st.mem[(gt, 0)] = ('i32', fint('tid'))
        outs = []
        s0 = st.copy(); s0.mem[('ghost', 'single_ret')] = 0
        for t, _ in ex.run_function(fn.n, s0, [Ptr(gt), Ptr(gt)] + list(args[3:])):
            for k, vv in t.mem.items():
                if k in st.mem and not same_val(st.mem[k], vv) and k != ('ghost', 'single_ret'): ex.oblige(t, z3.BoolVal(False), 'a thread outside the single region modifies shared state', 'frame')
        st.mem[('ghost', 'single_ret')] = 1
        return [(t, UNDEF) for t, _ in ex.run_function(fn.n, st, [Ptr(gt), Ptr(gt)] + list(args[3:]))]
    def single(ex, st, ins, args):
        r = st.mem[('ghost', 'single_ret')]
        return r
    nop = lambda ex, st, ins, args: UNDEF
    ex.contracts += [(r'std::vector<.*>::resize\(', vres), (r'^__kmpc_fork_call$', fork), (r'^__kmpc_single$', single), (r'^__kmpc_(end_single|push_num_threads|barrier)$', nop)]
    def setup(ex, st):
        W = box['W'] = World(ex, st, offs, kind, p)
        if kind != 'ser':
            ex.W = W
            W.rk = Region('none')
        o = offs
        for off in (o[p + '_indices'], o[p + '_nodes']):
            for d in (0, 8, 16): st.mem[(W.rt, off + d)] = ('ptr', NULL)
        W.ri.length = None
        stdc.perm_ghost(ex, st, 'permP'); stdc.perm_ghost(ex, st, 'permQ')
        return [Ptr(W.rb), Ptr(W.rt), Ptr(W.rc)]
    # bind the local counter to the world's counter region at the call
    rx, h0 = ex.contracts[2]
    def h(ex, st, ins, args):
        W = box['W']
        cr = args[2].r
        if not (cr.local and args[2].off == 0): raise Unsupported('counter')
        kd, val = st.mem.get((cr, 0), (None, None))
        ex.oblige(st, iv(val) == 0, 'the node counter starts at zero', 'precondition')
        W.rk = cr
        ex.shared_counter = False
        i = z3.Int('i_')
        idx0 = ex.named_arr(st, W.ri, 0, 'i64')
        box['idx0'] = idx0
        P, Q = stdc.perm_ghost(ex, st, 'permP'), stdc.perm_ghost(ex, st, 'permQ')
        r = h0(ex, st, ins, args)
        mineC, _ = st.mem[('ghost', 'last_child')]
        if W.kind != 'ser':
            c = fint('final_count'); n = z3.Int('n_')
            mc = mineC
            st.assume(z3.And(c >= 1, c <= W.M)); st.assume(forall(n, z3.Implies(mc[n], n < c), [mc[n]]))
            st.mem[(cr, 0)] = ('i64', c)
        return r
    ex.contracts[2] = (rx, h)
    def loops(L):
        W = box['W']; ex = L.ex
        idx = ex.named_arr(L.st, W.ri, 0, 'i64')
        i = z3.Int('i_')
        k = iv(L.k)
        out = [('iota', forall(i, z3.Implies(z3.And(0 <= i, i < k), idx[i] == i), [idx[i]])), ('k', k <= W.N)]
        for n in L.phis:
            c = L.cur[n]
            if L.tys[n].k == 'i': out.append((n + '=k', iv(c) == k))
            elif isinstance(c, Ptr): out.append((n + '=k', iv(c.key[-1]) == k))
        return out
    def post(ex, st0, st, ret, args):
        W = box['W']; o = offs
        v = W.view(st)
        mine, ru = st.mem[('ghost', 'last_child')]
        root = iv(ex.load(st, Ptr(W.rt, (), o[p + '_root']), 'i32', False))
        ro = U(root)
        n, i = z3.Ints('n_ i_')
        fin = iv(st.mem[('ghost', 'final_n')])
        P, Q = stdc.perm_ghost(ex, st, 'permP'), stdc.perm_ghost(ex, st, 'permQ')
        base = type('O', (), {})()
        res = [('root is the whole tree', z3.And(mine[ro], v.lo[ro] == 0, v.hi[ro] == W.N)),
               ('no node of the tree is cut off by the final resize', forall(n, z3.Implies(mine[n], z3.And(0 <= n, n < fin)), [mine[n]])),
               ('final size within the allocated nodes', z3.And(fin >= 0, fin <= W.M)),
               ('indices are a permutation of 0..N-1 (range)', forall(i, z3.Implies(z3.And(0 <= i, i < W.N), z3.And(v.idx[i] >= 0, v.idx[i] < W.N, v.idx[i] == P[i])), [v.idx[i]])),
               ('indices are a permutation of 0..N-1 (onto)', forall(i, z3.Implies(z3.And(0 <= i, i < W.N), z3.And(v.idx[Q[i]] == i, 0 <= Q[i], Q[i] < W.N)), [Q[i]])),
               ('index vector size', z3.BoolVal(same_end(st, W, o, p)))]
        nn = z3.Int('nw')
        leaf = v.left[nn] == -1
        L, R = U(v.left[nn]), U(v.right[nn])
        for nm, f in W.post(v, v, mine, ru, z3.IntVal(0), W.N)[3:9]: res.append((nm, f))
        return res
    def same_end(st, W, o, p):
        a = st.mem[(W.rt, o[p + '_indices'])][1]
        return isinstance(a, Ptr) and a.r is W.ri
    ctx.verify(ex, u.one(r'^vp_build_%s\(' % p), '%s::build_tree<%s>' % (B, PROJ[p]), setup, post, loops=loops)

ASSUMPTIONS = ['std::nth_element permutes the range so that nothing before nth compares above it and nothing after compares below it, given a strict weak order (checked: the comparator is key(i) < key(j))',
               'std::vector::resize gives the requested number of value-initialised elements',
               'parallel composition: tasks touch disjoint index ranges and the node records they allocated themselves; node indices come from an atomic fetch-add, which never hands out one index twice; the number of allocations never exceeds the credits handed out (proved: a subtree over n points needs at most 2n-1)',
               'the OpenMP/TBB runtime executes every task exactly once before taskwait/parallel_invoke returns',
               'Eigen computeDirect returns unit eigenvectors (NormalProjection::find_axis)',
               'at most 2^31-1 points']

def prove_find_axis(ctx, u, offs, p):
    ex = ctx.exec(u)
    ex.div_check = False
    box = {}
    fn = u.one(r'^small_gicp::%s small_gicp::%s::find_axis<' % (PROJ[p], PROJ[p]))
    def setup(ex, st):
        W = box['W'] = World(ex, st, offs, 'ser', p)
        a, b = z3.Ints('a b'); st.assume(z3.And(0 <= a, a < b, b <= W.N))
        v = W.view(st); i = z3.Int('i_')
        st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < W.N), z3.And(v.idx[i] >= 0, v.idx[i] < W.N)), [v.idx[i]]))
        W.ri.const = True
        rs = Region('projection_setting', size=4, const=True)
        ms = z3.Int('max_scan_count'); st.assume(z3.And(ms >= 1, ms < 2 ** 31)); st.mem[(rs, 0)] = ('i32', ms)
        ps = u.mod.funcs[fn].params
        args = [Ptr(W.rc), Ptr(W.ri, (a,)), Ptr(W.ri, (b,)), Ptr(rs)]
        if len(ps) == 5:
            ro = Region('result_axis', size=32); args = [Ptr(ro)] + args
        return [PtrInt(x) if t[0].k == 'i' else x for x, t in zip(args, ps)]
    def post(ex, st0, st, ret, args):
        if p == 'a': return [('a coordinate axis', z3.And(iv(ret) >= 0, iv(ret) <= 2))]
        e = box.get('eig')
        out = [ex.load(st, Ptr(args[0].r, (), 8 * i), 'double') for i in range(3)]
        return [('a unit direction', rv(out[0]) * rv(out[0]) + rv(out[1]) * rv(out[1]) + rv(out[2]) * rv(out[2]) == 1)]
    def eig(ex, st, ins, args):
        # SelfAdjointEigenSolver object: m_eivec at the start (3x3), columns are unit vectors
        obj = args[0]
        cols = [[freal('ev') for _ in range(3)] for _ in range(3)]
        for c in range(3):
            st.assume(sum((x * x for x in cols[c]), z3.RealVal(0)) == 1)
            for r in range(3): ex.store(st, ex.padd_const(obj, 8 * (3 * c + r)), cols[c][r], 'double', False)
        return obj
    ex.contracts = [(r'SelfAdjointEigenSolver<.*>::computeDirect', eig)]
    def loops(L):
        W = box['W']
        out = []
        for n in L.phis:
            c = L.cur[n]
            if L.tys[n].k == 'i': out.append((n + '=k', iv(c) == iv(L.k)))
        return out + [('k<=%d' % c, iv(L.k) <= c) for c in (3, 4, 15, 16)]
    ctx.verify(ex, fn, '%s::find_axis' % PROJ[p], setup, post, loops=loops)

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    for kind in ('ser', 'omp', 'tbb'):
        u = ctx.unit('c03' + kind, src(kind), keep=KEEP + ([r'SelfAdjointEigenSolver<.*>::computeDirect']), prefer_heads=[r'::create_node<'], extra_flags=OMPFLAGS if kind == 'omp' else [])
        offs = Offs(u)
        for p in ('a', 'n'):
            prove_create(ctx, u, offs, kind, p)
            prove_build(ctx, u, offs, kind, p)
            if kind == 'ser': prove_find_axis(ctx, u, offs, p)

def harness(ctx, deep):
    from ..native import run_harness
    return run_harness(ctx, 'h_c03', deep, flags=['-fopenmp', '-ltbb', '-g', '-fsanitize=address'], env={'ASAN_OPTIONS': 'detect_leaks=0'})
