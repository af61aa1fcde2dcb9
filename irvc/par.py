"""Parallel-for rule (rely/guarantee over disjoint index chunks) for OpenMP work-sharing loops and tbb::parallel_for / parallel_reduce bodies.

A region's body is verified for one arbitrary chunk [lo, hi) of the iteration space, started in an arbitrary state of the shared arrays:
  - every store to a shared array must satisfy spec.writable (frame obligation: the chunk owns what it writes),
  - at the end of the chunk spec.end must hold for every index of the chunk.
The runtime is assumed to execute every index of the space exactly once, in disjoint chunks, and to join before the region returns; after the join spec.after may
assume the end-condition for the whole space."""
from .common import *

ASSUME = 'OpenMP/TBB runtimes execute every index of a parallel loop in exactly one chunk and join before the loop returns (assumed runtime contract)'

class ParSpec:
    shared = ()                                   # regions written by several chunks
    strict = False                                # True: no store to any object that existed before the region, except shared (owned part) and private
    private = ()
    def leave(s, ex, st): pass                    # the current chunk [ghost lo, ghost hi) of this thread is finished
    def no_space(s, ex, st): return False
    def thread_begin(s, ex, st): pass
    def thread_end(s, ex, st): pass               # end of one thread's share of the region
    def space(s, ex, st, lo, hi): return []       # obligations on the iteration space [lo, hi)
    def begin(s, ex, st, lo, hi): pass            # havoc what other chunks may have written, assume stable facts
    def writable(s, ex, st, p, kind, lo, hi): return z3.BoolVal(False)
    def end(s, ex, st, lo, hi): return []
    def after(s, ex, st, lo, hi): pass
    def join(s, ex, outs): return None

def _enter(ex, st, spec, lo, hi, L, U):
    st.assume(z3.And(iv(L) <= lo, lo < hi, hi <= iv(U)))
    st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')] = lo, hi
    spec.begin(ex, st, lo, hi)
def _finish(ex, st, spec):
    lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
    for nm, g in spec.end(ex, st, lo, hi): ex.oblige(st, g, 'chunk result: ' + nm, 'post', assume=False)

class Hooks:
    def __init__(s, ex, spec): s.ex, s.spec, s.mark = ex, spec, Region.count
    def __enter__(s):
        ex, spec = s.ex, s.spec
        s.old = ex.on_store, ex.on_backedge
        def on_store(ex, st, p, v, kind):
            if s.old[0]: s.old[0](ex, st, p, v, kind)
            if any(p.r is r for r in spec.shared):
                ex.oblige(st, spec.writable(ex, st, p, kind, st.mem.get(('ghost', 'lo')), st.mem.get(('ghost', 'hi'))), 'chunk writes only what it owns in %s' % p.r.name, 'frame')
            elif spec.strict and p.r.serial <= s.mark and p.r not in spec.private:
                ex.oblige(st, z3.BoolVal(False), 'the parallel body stores to %s, which is shared with other chunks' % p.r.name, 'frame')
        def on_back(ex, f, L, st):
            if any(i.op == 'call' and 'kmpc_dispatch_next' in i.x for i in f.blocks[L.header]): _finish(ex, st, spec)
        ex.on_store, ex.on_backedge = on_store, on_back
    def __exit__(s, *a): s.ex.on_store, s.ex.on_backedge = s.old

def nop(ex, st, ins, args): return UNDEF

def omp_contracts(spec_for):
    """spec_for(ex, st, outlined function name, args) -> ParSpec"""
    box = {}
    def fork(ex, st, ins, args):
        fn = args[2]
        if not isinstance(fn, FuncRef): raise Unsupported('fork of an unknown function')
        spec = spec_for(ex, st, ex.unit.dem.get(fn.n, fn.n), args[3:])
        if spec is None: raise Unsupported('parallel region without contract: ' + ex.unit.dem.get(fn.n, fn.n)[:100])
        prev = box.get('spec'); box['spec'] = spec; box['space'] = None
        rg = Region('gtid', size=8, local=True); rb = Region('btid', size=8, local=True)
        s2 = st.copy(); s2.mem[(rg, 0)] = ('i32', z3.Int('thread_id')); s2.mem[(rb, 0)] = ('i32', 0)
        with Hooks(ex, spec):
            spec.thread_begin(ex, s2)
            for t, _ in ex.run_function(fn.n, s2, [Ptr(rg), Ptr(rb)] + args[3:]): spec.thread_end(ex, t)
        box['spec'] = prev
        sp = box['space']
        if sp is None and not spec.no_space(ex, st): raise Unsupported('parallel region without a work-sharing loop')
        if sp is None: sp = spec.full
        spec.after(ex, st, sp[0], sp[1])
        return UNDEF
    def u64(ex, st, v, n): return iv(ex.toU(st, ex.asint(st, v), n)) if n else iv(ex.asint(st, v))
    def space(ex, st, lb, ub):
        spec = box['spec']
        lo, hi = iv(lb), iv(ub) + 1
        box['space'] = (z3.simplify(lo), z3.simplify(hi))
        for nm, g in spec.space(ex, st, lo, hi): ex.oblige(st, g, 'iteration space: ' + nm, 'pre')
        st.mem[('ghost', 'L')], st.mem[('ghost', 'U')] = z3.simplify(lo), z3.simplify(hi)
        st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')] = z3.simplify(lo), z3.simplify(lo)
    def kinds(ins):
        return 'i64' if re.search(r'_8u?\b', ins.x) else 'i32'
    def dinit(ex, st, ins, args):
        if not (isinstance(args[5], int) and args[5] == 1): raise Unsupported('non-unit parallel loop stride')
        space(ex, st, ex.asint(st, args[3]), ex.asint(st, args[4])); return UNDEF
    def dnext(ex, st, ins, args):
        spec = box['spec']; k = kinds(ins)
        spec.leave(ex, st)
        d = st.copy()
        lo, hi = fint('lo'), fint('hi')
        _enter(ex, st, spec, lo, hi, st.mem[('ghost', 'L')], st.mem[('ghost', 'U')])
        ex.store(st, args[2], 0, 'i32'); ex.store(st, args[3], lo, k); ex.store(st, args[4], hi - 1, k); ex.store(st, args[5], 1, k)
        return [(st, 1), (d, 0)]
    def sinit(ex, st, ins, args):
        # (ident, gtid, schedtype, plastiter, plower, pupper, pstride, incr, chunk)
        spec = box['spec']; k = kinds(ins)
        space(ex, st, ex.asint(st, ex.load(st, args[4], k)), ex.asint(st, ex.load(st, args[5], k)))
        e = st.copy()                              # a thread without work
        lo, hi = fint('lo'), fint('hi')
        L, U = st.mem[('ghost', 'L')], st.mem[('ghost', 'U')]
        _enter(ex, st, spec, lo, hi, L, U)
        ex.store(st, args[4], lo, k); ex.store(st, args[5], hi - 1, k)
        e.mem[('ghost', 'lo')], e.mem[('ghost', 'hi')] = U, U    # the runtime gives such a thread the empty chunk after the last iteration
        spec.begin(ex, e, U, U)
        ex.store(e, args[4], U, k); ex.store(e, args[5], z3.simplify(U - 1), k)
        return [(st, UNDEF), (e, UNDEF)]
    def sfini(ex, st, ins, args):
        _finish(ex, st, box['spec']); box['spec'].leave(ex, st); return UNDEF
    return [(r'^__kmpc_fork_call$', fork), (r'^__kmpc_dispatch_init_[48]u?$', dinit), (r'^__kmpc_dispatch_next_[48]u?$', dnext), (r'^__kmpc_for_static_init_[48]u?$', sinit),
            (r'^__kmpc_for_static_fini$', sfini), (r'^__kmpc_(dispatch_deinit|barrier|push_num_threads)$', nop), (r'^__kmpc_global_thread_num$', lambda *a: 0)]

def split_targs(s):
    """top-level template arguments of the first <...> in s"""
    i = s.index('<'); d = 0; out = []; cur = ''
    for c in s[i:]:
        if c in '<({[':
            d += 1
            if d == 1: continue
        elif c in '>)}]':
            d -= 1
            if d == 0: out.append(cur.strip()); break
        if c == ',' and d == 1: out.append(cur.strip()); cur = ''; continue
        cur += c
    return out

def call_op(ex, functor, sig=r'\('):
    """operator() of a closure type given by its demangled name"""
    r = [n for n in ex.m.funcs if ex.unit.dem.get(n, '').startswith(functor + '::operator()(')]
    if not r: raise Unsupported('no operator() of ' + functor[:80])
    return r[0]

RANGE_SRC = off_src([('rg_b', 'tbb::blocked_range<size_t>', 'my_begin'), ('rg_e', 'tbb::blocked_range<size_t>', 'my_end'), ('rg_g', 'tbb::blocked_range<size_t>', 'my_grainsize')])

def tbb_for(spec_for, offs):
    def pfor(ex, st, ins, args):
        fn = ex.m.aliases.get(ins.x, ins.x); dem = ex.unit.dem[fn]
        ta = split_targs(dem)
        body = call_op(ex, ta[1])
        spec = spec_for(ex, st, ta[1], args)
        if spec is None: raise Unsupported('parallel_for without contract')
        r = args[0]
        L, U = [iv(ex.asint(st, ex.load(st, ex.padd_const(r, offs[k]), 'i64'))) for k in ('rg_b', 'rg_e')]
        for nm, g in spec.space(ex, st, L, U): ex.oblige(st, g, 'iteration space: ' + nm, 'pre')
        s2 = st.copy(); lo, hi = fint('lo'), fint('hi')
        rr = Region('range', size=24, const=True)
        s2.mem[(rr, offs.rg_b)] = ('i64', lo); s2.mem[(rr, offs.rg_e)] = ('i64', hi); s2.mem[(rr, offs.rg_g)] = ('i64', z3.Int('grain'))
        with Hooks(ex, spec):
            _enter(ex, s2, spec, lo, hi, L, U)
            for t, _ in ex.run_function(body, s2, [args[1], Ptr(rr)]): _finish(ex, t, spec)
        spec.after(ex, st, L, U)
        return UNDEF
    return [(r'^void tbb::.*parallel_for<tbb::detail::d1::blocked_range', pfor)]
