"""C04: serial voxel-grid sampling outputs the exact mean of every occupied voxel."""
from ..ds import *
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['scaled coordinates below 2^30 in magnitude, leaf size above 2^-30; homogeneous coordinate 1; fewer than 2^31 points', 'std::sort is assumed to return a permutation ordered by its comparator (the comparator itself is checked)',
               'sums are taken in real arithmetic']

def prove(ctx):
    u = unit(ctx); o = Offs(u)
    ctx.assume_note(REAL_NOTE)
    run_lemmas(ctx)
    box = {}
    def setup(ex, st):
        cl = Cloud(ex, st, o); box['cl'] = cl
        ex.contracts.insert(0, vec_ctor(cl, box))
        ex.on_load = mark_reads(box)
        box['out'] = Region('result', size=16, local=True)
        return [Ptr(box['out']), cl.ptr, cl.leaf]
    def target(L):
        p = L.st.mem.get((box['out'], 0))
        return lanes(L.ex, L.st, p[1].r.outP) if p else None
    def post(ex, st0, st, ret, a):
        cl = box['cl']; pc = ex.load(st, Ptr(box['out']), 'ptr').r
        n = st.mem[('ghost', 'len_%s' % id(pc))]
        if 'S' not in box or ex.quick(st, cl.n == 0): return [('an empty cloud gives an empty output', z3.And(cl.n == 0, n == 0))]
        S = box['S']; t = z3.Int('t'); V = S.V
        O = lanes(ex, st, pc.outP)
        st.assume(S.defs(z3.IntVal(0), V - 1)); st.assume([S.G(0, t) == S.G(0, t), S.a[z3.IntVal(0)] == S.a[z3.IntVal(0)]])
        return [('no valid point: no output', z3.Implies(V == 0, n == 0)), ('one output per voxel', z3.Implies(V > 0, n == S.G(0, V - 1) + 1)),
                ('the output of every voxel is the mean of its points', z3.Implies(z3.And(0 <= t, t < V, z3.Or(t == V - 1, S.a[t] != S.a[t + 1])), S.out_ok(O, z3.IntVal(0), t)))]
    ex = ctx.exec(u, contracts=[sort_contract(box)] + cloud_contracts(box, o))
    ex.linear_houdini = True
    ctx.assume_note('std::sort contract: permutation of the range ordered by the comparator')
    ctx.verify(ex, u.one(r'^vp_ser\('), 'voxelgrid_sampling', setup, post, loops=group_loop(box, target))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c04', deep, flags=('-fopenmp', '-ltbb'))
