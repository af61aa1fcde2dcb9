"""C22: voxel coordinates are exact floors; keys are collision free and identical in the three samplers."""
from ..ds import *
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['scaled coordinates below 2^30 in magnitude, leaf size above 2^-30 (outside, the float-to-int conversion is undefined)', 'point clouds have homogeneous coordinate 1 and fewer than 2^31 points',
               'x / leaf is computed as x * (1 / leaf) in the code; in real arithmetic both are equal, rounding of that product is not modelled']

def prove(ctx):
    u = unit(ctx); o = Offs(u)
    ctx.assume_note(REAL_NOTE)
    # fast_floor
    x = [z3.Real('x%d' % k) for k in range(4)]
    def setup(ex, st):
        p = Region('p', size=32); q = Region('o', size=16)
        for k in range(4):
            st.mem[(p, 8 * k)] = ('double', x[k]); st.assume(z3.And(x[k] > -2 ** 31 + 1, x[k] < 2 ** 31 - 1))
        p.const = True
        return [Ptr(p), Ptr(q)]
    def post(ex, st0, st, ret, a):
        r = [iv(ex.asint(st, ex.load(st, ex.padd_const(a[1], 4 * k), 'i32'))) for k in range(4)]
        return [('lane %d: largest integer not above the coordinate' % k, z3.And(z3.ToReal(r[k]) <= x[k], x[k] < z3.ToReal(r[k]) + 1)) for k in range(4)]
    ctx.verify(ctx.exec(u), u.one(r'^vp_ff\('), 'fast_floor', setup, post)
    # key phase of the three samplers: at the sort call every entry is (key of point i, i)
    for which in ('ser', 'omp', 'tbb'):
        box = {}
        def setup_k(ex, st):
            cl = Cloud(ex, st, o); box['cl'] = cl
            ex.contracts.insert(0, vec_ctor(cl, box))
            out = Region('out_ptr', size=16, local=True)
            return [Ptr(out), cl.ptr, cl.leaf] + ([z3.Int('num_threads')] if which == 'omp' else [])
        def spec_for(ex, st, name, args):
            if 'done' in box: return None
            return KeySpec(box['cl'], box)
        def sort(ex, st, ins, args):
            cl = box['cl']; j = z3.Int('jc')
            ex.oblige(st, box['Cn'] == cl.n, 'one key entry per point', 'post', assume=False)
            ex.oblige(st, z3.Implies(z3.And(0 <= j, j < cl.n), keyed(cl, ex, st, box['C'], j)), 'at the sort every entry is the voxel key of its point and its index', 'post', assume=False)
            box['sorts'] = box.get('sorts', 0) + 1
            return NORETURN
        def mk(ex, st, ins, args): return UNDEF
        ex = ctx.exec(u, contracts=[(SORT, sort), (r'make_shared<', mk)] + omp_contracts(spec_for) + tbb_for(spec_for, o))
        ctx.verify(ex, u.one(r'^vp_%s\(' % which), 'voxel key phase (%s)' % which, setup_k, lambda ex, st0, st, ret, a: [('only an empty cloud returns without sorting', box['cl'].n == 0), ('the sort is reached', z3.BoolVal(box.get('sorts', 0) > 0))], loops=lambda L: key_loop(box['cl'], box)(L))
    # the key separates voxels and never equals the marker
    a, b = z3.Ints('a0 a1 a2'), z3.Ints('b0 b1 b2')
    rng = [z3.And(v >= -2 ** 20, v < 2 ** 20) for v in a + b]
    key = lambda c: (c[0] + 2 ** 20) + 2 ** 21 * (c[1] + 2 ** 20) + 2 ** 42 * (c[2] + 2 ** 20)
    ctx.lemma('equal keys mean equal voxels', rng + [key(a) == key(b)], z3.And([p == q for p, q in zip(a, b)]))
    ctx.lemma('keys fit in 63 bits and never equal the marker', rng, z3.And(key(a) >= 0, key(a) < 2 ** 63))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c22', deep, flags=('-fopenmp', '-ltbb'))
