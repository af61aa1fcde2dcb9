"""C07: parallel sorts return the ordered permutation of their input."""
from ..common import *
from .. import stdc
from ..par import nop, split_targs
from ..unit import OMPFLAGS
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['the comparator is a strict weak order (given as an arbitrary rank of the elements)', 'std::sort, std::partition and std::inplace_merge satisfy their standard contracts; the predicates handed to std::partition are executed, not assumed',
               'the OpenMP runtime executes every task exactly once, before the next taskwait of its parent or the end of the parallel region; tasks are shown to touch disjoint ranges, so any interleaving has the effect of some sequential order', 'fewer than 2^31 elements',
               'radix_sort_tbb: bounded stand-in only (native runs over edge sizes, key widths and tile sizes), not proved']
SRC = '''
#include <cstdint>
#include <cstddef>
#include <iterator>
#include <small_gicp/util/sort_omp.hpp>
using namespace small_gicp;
struct Cmp { int64_t c; bool operator()(const int64_t& a, const int64_t& b) const; };
void vp_mi(int64_t* f, int64_t* l, const Cmp& c) { merge_sort_omp_impl(f, l, c); }
void vp_qi(int64_t* f, int64_t* l, const Cmp& c) { quick_sort_omp_impl(f, l, c); }
void vp_m(int64_t* f, int64_t* l, const Cmp& c, int n) { merge_sort_omp(f, l, c, n); }
void vp_q(int64_t* f, int64_t* l, const Cmp& c, int n) { quick_sort_omp(f, l, c, n); }
'''
KEEP = [r'^void small_gicp::\w+_omp_impl<[^(]*\([^()]*\)$', r'^[^(]*\bstd::(stable_)?sort<', r'^[^(]*\bstd::(stable_)?partition<', r'^[^(]*\bstd::inplace_merge<', r"'lambda\d*'\([^,()]*\)::operator\(\)<"]

class World:
    def __init__(s, ex, st):
        s.ex = ex; s.N = z3.Int('N'); st.assume(z3.And(s.N >= 0, s.N < 2 ** 31))
        s.A = Region('elements', 1, 8, [(0, 'i64')], length=s.N); s.rank = z3.Function('rank', IntS, IntS)
        s.a, s.b = z3.Ints('first last'); st.assume(z3.And(0 <= s.a, s.a <= s.b, s.b <= s.N))
        s.arr0 = ex.named_arr(st, s.A, 0, 'i64'); s.cmp = Region('comparator', size=8, const=True); s.cv = iv(ex.asint(st, ex.load(st, Ptr(s.cmp), 'i64')))
        st.mem[('ghost', 'log')] = (); st.mem[('ghost', 'pending')] = ()
        stdc.perm_ghost(ex, st, 'permP'); stdc.perm_ghost(ex, st, 'permQ')
        s.fp, s.lp = Ptr(s.A, (s.a,)), Ptr(s.A, (s.b,))
    def arr(s, st): return s.ex.named_arr(st, s.A, 0, 'i64')
    def ordered(s, arr, a, b):
        i, j = z3.Ints('i_ j_'); return forall([i, j], z3.Implies(z3.And(a <= i, i <= j, j < b), s.rank(arr[i]) <= s.rank(arr[j])), [z3.MultiPattern(arr[i], arr[j])])
    def touch(s, st, a, b): st.mem[('ghost', 'log')] = st.mem[('ghost', 'log')] + ((a, b),)
    def rng(s, p, q):
        p, q = [x.p if isinstance(x, PtrInt) else x for x in (p, q)]
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is s.A and q.r is s.A and p.off == 0 and q.off == 0): raise Unsupported('call on another range: %r %r' % (p, q))
        return iv(p.key[-1]), iv(q.key[-1])

def contracts(box):
    def valid(ex, st, a, b, what): ex.oblige(st, z3.And(0 <= a, a <= b, b <= box['W'].N), 'pre of %s: a valid range' % what, 'precondition')
    def sort(ex, st, ins, args):
        W = box['W']; a, b = W.rng(args[0], args[1]); valid(ex, st, a, b, 'std::sort'); W.touch(st, a, b)
        cmp_is(ex, st, args[2:])
        old, new, P, Q = stdc.permute(ex, st, W.A, 'i64', a, b); st.assume(W.ordered(new, a, b)); return UNDEF
    def cmp_is(ex, st, rest):
        # the comparator travels by value (empty or one word): nothing to check beyond its type, which is in the callee's name
        return
    def merge(ex, st, ins, args):
        W = box['W']; a, m = W.rng(args[0], args[1]); m, b = W.rng(args[1], args[2]); valid(ex, st, a, m, 'std::inplace_merge'); valid(ex, st, m, b, 'std::inplace_merge'); W.touch(st, a, b)
        arr = W.arr(st); i, j = z3.Ints('ic jc')
        for nm, x, y in (('first', a, m), ('second', m, b)): ex.oblige(st, z3.Implies(z3.And(x <= i, i <= j, j < y), W.rank(arr[i]) <= W.rank(arr[j])), 'pre of std::inplace_merge: the %s half is ordered' % nm, 'precondition', assume=False)
        old, new, P, Q = stdc.permute(ex, st, W.A, 'i64', a, b); st.assume(W.ordered(new, a, b)); return UNDEF
    def partition(ex, st, ins, args):
        W = box['W']; a, b = W.rng(args[0], args[1]); valid(ex, st, a, b, 'std::partition'); W.touch(st, a, b)
        dem = ex.unit.dem.get(ins.x, ins.x)
        fun = split_targs(dem)[1]; ops = [n for n in ex.m.funcs if fun + '::operator()' in ex.unit.dem.get(n, '')]
        if len(ops) != 1: raise Unsupported('predicate of std::partition not identified (%d)' % len(ops))
        x = z3.Int(fresh_name('x')); r = Region('val', size=8, const=True); s2 = st.copy(); s2.mem[(r, 0)] = ('i64', x)
        pred, _ = stdc.functor(ex, s2, ops[0], stdc.lambda_ptr(ex, s2, args[2:]), [Ptr(r)])
        pred = bv_(ex.asbool(pred)); pr = lambda v: z3.substitute(pred, (x, v))
        old, new, P, Q = stdc.permute(ex, st, W.A, 'i64', a, b)
        mid = fint('mid'); i = z3.Int('i_'); st.assume(z3.And(a <= mid, mid <= b))
        st.assume(forall(i, z3.Implies(z3.And(a <= i, i < b), pr(new[i]) == (i < mid)), [new[i]]))
        return Ptr(W.A, (mid,))
    def impl(ex, st, ins, args):
        W = box['W']; a, b = W.rng(args[0], args[1]); valid(ex, st, a, b, 'the recursive sort'); W.touch(st, a, b)
        c = iv(ex.asint(st, ex.load(st, args[2], 'i64')))
        ex.oblige(st, c == W.cv, 'the same comparator is passed on', 'precondition')
        if box.get('rec'): ex.oblige(st, b - a < W.b - W.a, 'termination: the recursion range shrinks', 'termination')
        old, new, P, Q = stdc.permute(ex, st, W.A, 'i64', a, b); st.assume(W.ordered(new, a, b)); return UNDEF
    def cmpop(ex, st, ins, args):
        W = box['W']; v = [iv(ex.asint(st, ex.load(st, x, 'i64'))) for x in args[1:3]]
        return W.rank(v[0]) < W.rank(v[1])
    # ---- tasks
    def alloc(ex, st, ins, args):
        r = Region('omp_task', size=64, local=True); sh = Region('omp_shareds', size=256, local=True)
        st.mem[(r, 0)] = ('ptr', Ptr(sh)); st.mem[(r, 8)] = ('ptr', args[5]); return Ptr(r)
    def task(ex, st, ins, args):
        st.mem[('ghost', 'pending')] = st.mem[('ghost', 'pending')] + ((args[2], st.mem[(args[2].r, 8)][1], len(st.mem[('ghost', 'log')])),); return 0
    def wait(ex, st, ins=None, args=None):
        pend = st.mem[('ghost', 'pending')]; st.mem[('ghost', 'pending')] = (); states = [(st, [])]
        for p, fn, t0 in pend:
            nxt = []
            for s2, own in states:
                n0 = len(s2.mem[('ghost', 'log')])
                for t, _ in ex.run_function(fn.n, s2, [0, p]): nxt.append((t, own + [(t0, n0, len(t.mem[('ghost', 'log')]))]))
            states = nxt
        for t, own in states:
            log = t.mem[('ghost', 'log')]
            for t0, n0, n1 in own:
                for i in range(t0, len(log)):
                    if n0 <= i < n1: continue
                    for j in range(n0, n1):
                        (a, b), (c, d) = log[j], log[i]
                        ex.oblige(t, z3.Or(a >= b, c >= d, b <= c, d <= a), 'a task shares no element with what runs beside it', 'frame')
        return [(t, 0) for t, _ in states]
    box['join'] = wait
    def fork(ex, st, ins, args):
        fn = args[2]; rg = Region('gtid', size=8, local=True); rb = Region('btid', size=8, local=True); outs = []
        for one in (0, 1):
            s2 = st.copy(); s2.mem[(rg, 0)] = ('i32', z3.Int('thread_id')); s2.mem[(rb, 0)] = ('i32', 0); box['single'] = one; box['singles'] = 0
            n0 = len(st.mem[('ghost', 'log')])
            for t, _ in ex.run_function(fn.n, s2, [Ptr(rg), Ptr(rb)] + args[3:]):
                if one: outs += [x for x, _ in wait(ex, t)]
                else: ex.oblige(t, z3.BoolVal(len(t.mem[('ghost', 'log')]) == n0 and not t.mem[('ghost', 'pending')]), 'only one thread of the team starts the sort', 'frame')
        return [(t, UNDEF) for t in outs]
    def single(ex, st, ins, args): return box['single']
    def std_swap(ex, st, ins, args): return UNDEF
    return [(r'^[^(]*\bstd::(stable_)?sort<', sort), (r'^[^(]*\bstd::inplace_merge<', merge), (r'^[^(]*\bstd::(stable_)?partition<', partition), (r'^void small_gicp::\w+_omp_impl<', impl), (r'^Cmp::operator\(\)', cmpop),
            (r'^__kmpc_omp_task_alloc$', alloc), (r'^__kmpc_omp_task$', task), (r'^__kmpc_omp_taskwait$', wait), (r'^__kmpc_fork_call$', fork), (r'^__kmpc_single$', single), (r'^__kmpc_(end_single|barrier|push_num_threads|omp_task_begin_if0|omp_task_complete_if0)$', nop), (r'^__kmpc_global_thread_num$', lambda *a: 0)]

def prove(ctx):
    u = ctx.unit('c07', SRC, keep=KEEP, extra_flags=OMPFLAGS)
    def go(pat, name, rec, nt):
        box = {}
        def setup(ex, st):
            box['W'] = W = World(ex, st); box['rec'] = rec
            def on_load(ex, st, p, kind):
                if p.r is W.A and st.mem[('ghost', 'pending')]: W.touch(st, iv(p.key[-1]), iv(p.key[-1]) + 1)
            ex.on_load = on_load; ex.on_store = lambda ex, st, p, v, kind: on_load(ex, st, p, kind)
            return [W.fp, W.lp, Ptr(W.cmp)] + ([z3.Int('num_threads')] if nt else [])
        def post(ex, st0, st, ret, a):
            W = box['W']; states = [x for x, _ in box['join'](ex, st)]
            if len(states) != 1: raise Unsupported('tasks with several outcomes')
            st.mem, st.pc = states[0].mem, states[0].pc
            P, Q = stdc.perm_ghost(ex, st, 'permP'), stdc.perm_ghost(ex, st, 'permQ'); new = W.arr(st); i, j = z3.Ints('ic jc'); ins = lambda x: z3.And(W.a <= x, x < W.b)
            return [('the range is ordered', z3.Implies(z3.And(W.a <= i, i <= j, j < W.b), W.rank(new[i]) <= W.rank(new[j]))),
                    ('every element comes from the input range', z3.Implies(ins(i), z3.And(new[i] == W.arr0[P[i]], ins(P[i])))), ('no element is lost', z3.Implies(ins(i), z3.And(new[Q[i]] == W.arr0[i], ins(Q[i]), P[Q[i]] == i))),
                    ('no element is duplicated', z3.Implies(ins(i), Q[P[i]] == i)), ('nothing outside the range changes', z3.Implies(z3.Not(ins(i)), new[i] == W.arr0[i]))]
        ctx.verify(ctx.exec(u, contracts=contracts(box)), u.one(pat), name, setup, post)
    mi = u.one(r'^void small_gicp::merge_sort_omp_impl<') if False else None
    go(r'^void small_gicp::merge_sort_omp_impl<[^(]*\(', 'merge_sort_omp_impl', True, False)
    go(r'^void small_gicp::quick_sort_omp_impl<[^(]*\(long\*, long\*, Cmp const&\)$', 'quick_sort_omp_impl', True, False)
    go(r'^vp_m\(', 'merge_sort_omp', False, True)
    go(r'^vp_q\(', 'quick_sort_omp', False, True)

def harness(ctx, deep):
    return run_harness(ctx, 'h_c07', deep, flags=('-fopenmp', '-ltbb'))
