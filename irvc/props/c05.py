"""C05: parallel voxel-grid sampling: every block outputs the means of its voxel runs; blocks partition the sorted points; outputs of different blocks never collide."""
from ..ds import *
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['scaled coordinates below 2^30 in magnitude, leaf size above 2^-30; homogeneous coordinate 1; fewer than 2^31 points',
               'quick_sort_omp / tbb::parallel_sort return a permutation ordered by the comparator (the comparator is checked; quick_sort_omp is the subject of C07)',
               'atomic fetch_add hands out pairwise disjoint intervals starting at the initial value; sums are taken in real arithmetic']

class BlockSpec(ParSpec):
    def __init__(s, box, which, st): s.box, s.which, s.st0 = box, which, st; s.atomic = 0
    @property
    def shared(s): return tuple(x for x in (s.box.get('out'), s.box.get('counter')) if x is not None)
    def space(s, ex, st, lo, hi):
        s.hi = hi
        if s.which == 'tbb': return [('starts at the first entry', lo == 0), ('ends at the last entry', hi == s.box['cl'].n)]
        return [('first block', lo == 0)]
    def begin(s, ex, st, lo, hi): s.havoc(ex, st)
    def havoc(s, ex, st):
        for k in range(4): st.mem[(s.box['out'], 8 * k, 'double')] = z3.Const(fresh_name('out%d' % k), z3.ArraySort(IntS, RealS))
    def writable(s, ex, st, p, kind, lo, hi):
        rs = st.mem.get(('mark', 'resv'))
        if rs is None or p.r is not s.box['out']: return z3.BoolVal(False)
        return z3.And(rs[0] <= p.key[-1], p.key[-1] < rs[0] + rs[1])
    def block(s, ex, st, s0, e):
        """obligations on one processed block [s0, e)"""
        S, cl = s.box['S'], s.box['cl']; ob = lambda nm, g: ex.oblige(st, g, 'block: ' + nm, 'post', assume=False)
        rs = st.mem.get(('mark', 'resv'))
        if rs is None: ob('skipped only if it has no valid point', S.V <= s0); return
        p, m, W = rs; t = z3.Int('t')
        last = z3.If(e < S.V, e, S.V) - 1
        st.assume(S.defs(s0, last)); st.assume([S.G(s0, t) == S.G(s0, t), S.a[s0] == S.a[s0]])
        ob('not empty', S.V > s0)
        ob('one output per voxel run', m == S.G(s0, last) + 1)
        g = z3.And(s0 <= t, t <= last, z3.Or(t == last, S.a[t] != S.a[t + 1]))
        for k in range(4): ob('lane %d of every output is that of its group mean' % k, z3.Implies(g, S.out_ok(W, s0, t, k=k)))
        j = z3.Int('j'); O = lanes(ex, st, s.box['out'])
        for k in range(4): ob('lane %d of the reserved slots holds the means' % k, z3.Implies(z3.And(0 <= j, j < m), O[k][p + j] == W[k][j]))
    def end(s, ex, st, lo, hi):
        if s.which == 'tbb':
            s0 = st.mem.get(('mark', 's'))
            ex.oblige(st, s0 == lo if s0 is not None else z3.BoolVal(False), 'block starts at its range', 'post')
            s.block(ex, st, lo, hi)
        return []
    def after(s, ex, st, lo, hi):
        box = s.box; cl = box['cl']
        if s.which == 'omp':
            B = box.get('B')
            if B is None: raise Unsupported('block size not found')
            ex.oblige(st, z3.And(hi * B >= cl.n, (hi - 1) * B < cl.n), 'the blocks cover every entry exactly once', 'post', assume=False)
        if 'counter' not in box: raise Unsupported('no output reservation')
        key = box['ckey']
        ex.oblige(st, iv(ex.asint(st, st.mem[key][1])) == 0, 'the output counter starts at zero', 'pre')
        s.havoc(ex, st)
        box['N'] = z3.Int('reserved_total'); st.assume(z3.And(box['N'] >= 0, box['N'] <= cl.n))
        st.mem[key] = (st.mem[key][0], box['N'])

def prove(ctx):
    u = unit(ctx); o = Offs(u)
    ctx.assume_note(REAL_NOTE); ctx.assume_note(ASSUME)
    run_lemmas(ctx)
    for which in ('omp', 'tbb'):
        one(ctx, u, o, which)

def one(ctx, u, o, which):
    box = {}
    def setup(ex, st):
        cl = Cloud(ex, st, o); box['cl'] = cl
        ex.contracts.insert(0, vec_ctor(cl, box))
        ex.on_load = mark_reads(box); ex.on_atomic = on_atomic; ex.on_backedge = on_back
        box['res'] = Region('result', size=16, local=True)
        return [Ptr(box['res']), cl.ptr, cl.leaf] + ([z3.Int('num_threads')] if which == 'omp' else [])
    def spec_for(ex, st, name, args):
        if 'S' not in box: return KeySpec(box['cl'], box)
        if 'spec' in box: return None
        box['out'] = ex.load(st, Ptr(box['pcs'][-1], off=o.pts), 'ptr').r
        box['spec'] = BlockSpec(box, which, st)
        return box['spec']
    def bounds(st, s0):
        if which == 'tbb': return st.mem[('ghost', 'hi')]
        return z3.If(s0 + box['B'] < box['cl'].n, s0 + box['B'], box['cl'].n)
    def find_block(ex, st, k):
        s0 = st.mem.get(('mark', 's')); lo = st.mem[('ghost', 'lo')]
        if s0 is None: raise Unsupported('a block reads no entry')
        B = z3.simplify(z3.substitute(s0, (lo, z3.IntVal(1)), (k, z3.IntVal(0))))
        if not z3.is_int_value(B): raise Unsupported('block start is not a multiple of the block index: %s' % s0)
        if box.setdefault('B', B.as_long()) != B.as_long(): raise Unsupported('block size varies')
        return s0, lo
    def is_block_loop(ex, f, L):
        at = [b for b in f.blocks if any(i.op == 'atomicrmw' for i in f.blocks[b])]
        if not at: return False
        ls = [l for l in f.loops_.values() if any(b in l.body for b in at)] if hasattr(f, 'loops_') else None
        return any(b in L.body for b in at) and not any(i.op == 'call' and 'dispatch_next' in i.x for i in f.blocks[L.header])
    def on_atomic(ex, st, ins, p, v):
        if ins.op != 'atomicrmw' or 'spec' not in box: return NotImplemented
        sub = st.mem.get(('mark', 'sub'))
        if sub is None or ('mark', 'resv') in st.mem: raise Unsupported('unexpected output reservation')
        spec = box['spec']
        box['counter'] = p.r; box['ckey'] = (p.r, p.off)
        m = iv(ex.asint(st, v)); q = fint('first_output')
        s0 = st.mem[('mark', 's')]
        if which == 'omp':
            h = [c for hd, c in st.loops.items() if 'kcur' in c and mentions(s0, c['kcur'])]
            if h: find_block(ex, st, h[-1]['kcur'])
            else: raise Unsupported('block loop not found')
        ex.oblige(st, z3.And(m >= 0, m <= bounds(st, s0) - s0), 'a block reserves at most one output per point', 'pre')
        st.assume(z3.And(q >= 0, q + m <= box['cl'].n))
        st.mem[('mark', 'resv')] = (q, m, lanes(ex, st, sub))
        return q
    def on_back(ex, f, L, st):
        if 'spec' not in box or which != 'omp' or not is_block_loop(ex, f, L): return
        k = st.loops[L.header]['kcur']
        s0, lo = find_block(ex, st, k)
        ex.oblige(st, s0 == box['B'] * (lo + k), 'block: starts at its index times the block size', 'post')
        box['spec'].block(ex, st, s0, bounds(st, s0))
    def target(L):
        r = L.pre.mem.get(('mark', 'sub'))
        if ('mark', 'resv') in L.pre.mem: return lanes(L.ex, L.st, box['out'])
        return lanes(L.ex, L.st, r) if r is not None else None
    def post(ex, st0, st, ret, a):
        cl = box['cl']; pc = ex.load(st, Ptr(box['res']), 'ptr').r
        n = st.mem[('ghost', 'len_%s' % id(pc))]
        if 'N' not in box or ex.quick(st, cl.n == 0): return [('an empty cloud gives an empty output', z3.And(cl.n == 0, n == 0))]
        return [('the output has exactly the reserved points', z3.Or(n == box['N'], z3.And(cl.n == 0, n == 0)))]
    ex = ctx.exec(u, contracts=[sort_contract(box)] + cloud_contracts(box, o) + omp_contracts(spec_for) + tbb_for(spec_for, o))
    ex.linear_houdini = True; ex.sticky = True
    ctx.assume_note('sorting contract: permutation of the range ordered by the comparator')
    ctx.verify(ex, u.one(r'^vp_%s\(' % which), 'voxelgrid_sampling_%s' % which, setup, post, loops=group_loop(box, target))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c05', deep, flags=('-fopenmp', '-ltbb'))
