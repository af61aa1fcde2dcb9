"""C14: reductions sum every factor exactly once on every backend."""
from ..common import *
from ..par import *
from ..unit import OMPFLAGS, UNROLL_LATE
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['summation order is not modelled (real arithmetic)', 'OpenMP: threads of a team have distinct numbers below the team size, the team has at most num_threads threads; the reduction clause adds every thread\'s private value once',
               'tbb::parallel_reduce applies operator() to disjoint chunks covering the range, on the body or on split copies that are joined once', 'the factor is an arbitrary type: its linearize / error are arbitrary functions that write only the factor itself and the result arguments', 'at least one thread']
SRC = '''
#include <vector>
#include <tuple>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
using namespace small_gicp;
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
struct Cl { double x; }; struct Tr { double x; }; struct Rj { double x; };
struct AF { double a, b, c; bool linearize(const Cl&, const Cl&, const Tr&, const Eigen::Isometry3d&, size_t, const Rj&, M6*, V6*, double*); double error(const Cl&, const Cl&, const Eigen::Isometry3d&); bool inlier() const; };
''' + ''.join('''
void vp_lin_%(n)s(const %(t)s& r, const Cl& t, const Cl& s, const Tr& tr, const Rj& rj, const Eigen::Isometry3d& T, std::vector<AF>& f, M6* H, V6* b, double* e) { auto [a, c, d] = r.linearize(t, s, tr, rj, T, f); *H = a; *b = c; *e = d; }
double vp_err_%(n)s(const %(t)s& r, const Cl& t, const Cl& s, const Eigen::Isometry3d& T, std::vector<AF>& f) { return r.error(t, s, T, f); }
''' % dict(n=n, t=t) for n, t in (('ser', 'SerialReduction'), ('omp', 'ParallelReductionOMP'), ('tbb', 'ParallelReductionTBB'))) + '''
using LS = LinearizeSum<Cl, Cl, Tr, Rj, AF>; using ES = ErrorSum<Cl, Cl, AF>;
void vp_split_l(LS* o, LS& x) { new (o) LS(x, tbb::split()); }
void vp_join_l(LS& x, const LS& y) { x.join(y); }
void vp_split_e(ES* o, ES& x) { new (o) ES(x, tbb::split()); }
void vp_join_e(ES& x, const ES& y) { x.join(y); }
'''
KEEP = [r'^void tbb::.*parallel_reduce<', r'^void tbb::.*parallel_deterministic_reduce<', r'std::vector<(Eigen::Matrix<double, 6|double).*>::~?vector\(']
NL = 43                                            # lanes: 36 of H (column major), 6 of b, the error
def lname(k): return 'H[%d,%d]' % (k % 6, k // 6) if k < 36 else 'b[%d]' % (k - 36) if k < 42 else 'e'

def src():
    L, E = 'small_gicp::LinearizeSum<Cl, Cl, Tr, Rj, AF>', 'small_gicp::ErrorSum<Cl, Cl, AF>'
    return SRC + RANGE_SRC + off_src([('l_%s' % a, 'LS', a) for a in 'Hbe'] + [('e_e', 'ES', 'e'), ('omp_nt', 'small_gicp::ParallelReductionOMP', 'num_threads')]) + size_src([('ls', 'LS'), ('es', 'ES'), ('af', 'AF')])

class World:
    """n factors; h(k, i): lane k of the contribution of factor i, acc(i): factor i is accepted; P(k, i) = sum of the contributions of the accepted factors below i"""
    def __init__(s, ex, st, o, lin):
        s.ex, s.o, s.lin = ex, o, lin
        s.lanes = range(NL) if lin else [42]
        s.n = z3.Int('n'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 40))
        s.acc = z3.Function('acc', IntS, BoolS); s.h = {k: z3.Function('contrib_%d' % k, IntS, RealS) for k in s.lanes}; s.P = {k: z3.Function('P_%d' % k, IntS, RealS) for k in s.lanes}
        s.F = Region('factors', 1, o.af, [(8 * k, 'double') for k in range(o.af // 8)], length=s.n, const=True)
        s.vec = Region('factor_vector', size=24); cap = z3.Int('cap'); st.assume(cap >= s.n)
        for k, v in ((0, 0), (8, s.n), (16, cap)): st.mem[(s.vec, k)] = ('ptr', Ptr(s.F, (v,)))
        s.vec.const = True
        s.t, s.s, s.tr, s.rj = [Region(x, size=8, const=True) for x in ('target', 'source', 'target_tree', 'rejector')]
        s.T = Region('T', size=128, const=True); s.red = Region('reduction', size=8, const=True)
        for k in s.lanes: st.assume(s.P[k](0) == 0)
        c = z3.Const('evaluated', z3.ArraySort(IntS, IntS)); st.mem[('ghost', 'cnt')] = c
        j = z3.Int('j_'); st.assume(forall(j, c[j] == 0, [c[j]]))
        st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')] = z3.IntVal(0), s.n           # the chunk a factor evaluation must lie in
        s.out = [Region('H', size=288), Region('b', size=48), Region('e', size=8)]
        s.outs = [(s.out[0], 8 * k) for k in range(36)] + [(s.out[1], 8 * k) for k in range(6)] + [(s.out[2], 0)]
        s.args = [Ptr(s.red), Ptr(s.t), Ptr(s.s)] + ([Ptr(s.tr), Ptr(s.rj)] if lin else []) + [Ptr(s.T), Ptr(s.vec)] + ([Ptr(r) for r in s.out] if lin else [])
    def step(s, st, f):
        for k in s.lanes: st.assume(s.P[k](f + 1) == s.P[k](f) + z3.If(s.acc(f), s.h[k](f), rv(0)))
    def visit(s, st, this, T, t, src, ins):
        ex = s.ex
        ok = isinstance(this, Ptr) and this.r is s.F and this.off == 0
        ex.oblige(st, z3.BoolVal(ok), 'the factor evaluated is an element of the factor list', 'pre')
        if not ok: raise Unsupported('factor outside of the factor list')
        for nm, p, r in (('pose', T, s.T), ('target cloud', t, s.t), ('source cloud', src, s.s)): ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.r is r and p.off == 0), 'the factor is evaluated with the caller\'s ' + nm, 'pre')
        f = iv(this.key[-1]); lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        ex.oblige(st, z3.And(lo <= f, f < hi), 'the factor belongs to the current chunk', 'pre')
        c = st.mem[('ghost', 'cnt')]
        ex.oblige(st, c[f] == 0, 'the factor has not been evaluated before', 'pre')
        c1 = z3.Const(fresh_name('evaluated'), c.sort()); st.assume(c1 == z3.Store(c, f, 1)); st.mem[('ghost', 'cnt')] = c1
        s.step(st, f)
        return f
    def contracts(s_):
        pass

def factor_contracts(box):
    def linearize(ex, st, ins, a):
        W = box['W']; this, t, src, tr, T, i, rj, H, b, e = a
        f = W.visit(st, this, T, t, src, ins)
        for nm, p, r in (('search tree', tr, W.tr), ('rejector', rj, W.rj)): ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.r is r), 'the factor is linearised with the caller\'s ' + nm, 'pre')
        ex.oblige(st, iv(ex.asint(st, i)) == f, 'factor i is linearised for source point i', 'pre')
        rej = st.copy(); rej.assume(z3.Not(W.acc(f))); st.assume(W.acc(f))
        for k in W.lanes:
            p = ex.padd_const(H, 8 * k) if k < 36 else ex.padd_const(b, 8 * (k - 36)) if k < 42 else e
            ex.store(st, p, W.h[k](f), 'double')
            ex.store(rej, p, freal('rejected'), 'double')       # a rejected factor may leave anything in its results
        return [(st, 1), (rej, 0)]
    def error(ex, st, ins, a):
        W = box['W']; this, t, src, T = a
        f = W.visit(st, this, T, t, src, ins)
        st.assume(W.acc(f))
        return W.h[42](f)
    return [(r'^AF::linearize\(', linearize), (r'^AF::error\(', error)]

def guess_lanes(W, off):
    o = W.o; c = {off // 8, 36 + off // 8, (off - 8) // 8 + 36, (off - 56) // 8, (off - o.l_H) // 8, 36 + (off - o.l_b) // 8, 42}
    return sorted(k for k in c if k in W.lanes)

def loops(box):
    def go(L):
        W = box['W']; ex, st, pre = L.ex, L.st, L.pre; out = []
        cnt = st.mem.get(('ghost', 'cnt')); j = z3.Int('j_')
        lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        plo, phi_ = pre.mem[('ghost', 'lo')], pre.mem[('ghost', 'hi')]
        cells = []                                        # (name, now, at loop entry, candidate lanes)
        dphi = [n for n in L.phis if L.tys[n].k == 'double']
        for n in dphi:
            for k in ([42] if len(dphi) < 3 else W.lanes): cells.append((n, L.cur[n], L.init[n], [k]))
        tid = st.mem.get(('ghost', 'tid'))
        for key in L.mods:
            if len(key) == 2 and isinstance(key[0], Region) and key in st.mem and st.mem[key][0] == 'double' and key in pre.mem and pre.mem[key][1] is not UNDEF and st.mem[key][1] is not UNDEF:
                cells.append(('%s+%d' % (key[0].name, key[1]), st.mem[key][1], pre.mem[key][1], guess_lanes(W, key[1])))
            elif len(key) == 3 and key[2] == 'double' and key[0] in box.get('slots', ()) and tid is not None:
                kk = box['slots'][key[0]]
                cells.append(('%s+%d' % (key[0].name, key[1]), st.mem[key][tid], pre.mem[key][tid], [k for k in [kk + key[1] // 8] if k in W.lanes]))
        mine = [st.mem.get(('ghost', 'mine', k)) for k in W.lanes]
        if mine[0] is not None and any(('ghost', 'mine', k) in L.mods for k in W.lanes) or ('ghost', 'lo') in L.mods:
            for nm, x, x0, ks in cells:
                for k in ks:
                    m = lambda s: s.mem[('ghost', 'mine', k)] + W.P[k](s.mem[('ghost', 'hi')]) - W.P[k](s.mem[('ghost', 'lo')])
                    out.append(('%s has the sum of the executed chunks (%s)' % (nm, lname(k)), rv(ex.asreal(x)) - rv(ex.asreal(x0)) == m(st) - m(pre)))
        for n in L.phis:
            c, i0 = L.cur[n], L.init[n]
            if isinstance(c, Ptr): q, q0 = (iv(c.key[-1]), iv(i0.key[-1])) if c.r is W.F else (None, None)
            elif L.tys[n].k == 'i' and L.tys[n].n > 1: q, q0 = iv(c.term() if isinstance(c, Scaled) else c), iv(i0.term() if isinstance(i0, Scaled) else i0)
            else: q = None
            if q is None: continue
            out += [('0<=%s' % n, q >= 0), ('%s<=n' % n, q <= W.n), ('%s>=lo' % n, q >= lo), ('%s<=hi' % n, q <= hi), ('%s<n' % n, q < W.n), ('%s<hi' % n, q < hi)]
            for nm, x, x0, ks in cells:
                for k in ks: out.append(('%s sums the factors before %s (%s)' % (nm, n, lname(k)), rv(ex.asreal(x)) - rv(ex.asreal(x0)) == W.P[k](q) - W.P[k](q0)))
            if cnt is not None:
                out.append(('factors from %s on are not yet evaluated' % n, forall(j, z3.Implies(z3.And(q <= j, j < hi), cnt[j] == 0), [cnt[j]])))
                out.append(('factors before %s are evaluated' % n, forall(j, z3.Implies(z3.And(lo <= j, j < q), cnt[j] == 1), [cnt[j]])))
            if 'nt' in box: out += [('%s<=threads' % n, q <= box['nt']), ('%s>=1' % n, q >= 1)]
            if 'G' in box:                                   # combining the per-thread sums
                for (r, off), (G, A0) in box['G'].items():
                    A = st.mem[(r, off, 'double')]
                    out.append(('%s+%d: first slot is the sum of the slots before %s' % (r.name, off, n), A[0] == G(q)))
                    out.append(('%s+%d: later slots unchanged (%s)' % (r.name, off, n), forall(j, z3.Implies(j >= 1, A[j] == A0[j]), [A[j]])))
                    st.assume(z3.Implies(z3.And(q >= 0, q < box['nt']), G(q + 1) == G(q) + A0[q])); st.assume(G(1) == G(0) + A0[0])
        return out
    return go

class Spec(ParSpec):
    """one thread of the OpenMP team: per-thread slots and private sums grow by exactly the contributions of the chunks the thread executes"""
    strict = True
    def __init__(s, box): s.box, s.W = box, box['W']; s.shared = tuple(box.get('slots', {})); s.full = (z3.IntVal(0), s.W.n)
    def space(s, ex, st, lo, hi): return [('starts at the first factor', lo == 0), ('ends at the last factor', hi == s.W.n)]
    def no_space(s, ex, st): return False
    def thread_begin(s, ex, st):
        W, box = s.W, s.box
        for (r, off, A) in s.slots(ex, st):
            j = z3.Int('j_s'); ex.oblige(st, z3.Implies(z3.And(0 <= j, j < box['nt']), A[j] == 0), 'the per-thread sums start at zero (%s+%d)' % (r.name, off), 'pre', assume=False)
        tid = fint('thread'); st.mem[('ghost', 'tid')] = tid; st.assume(tid >= 0)
        team = box.get('team')
        st.assume(tid < (team if team is not None else 2 ** 31))
        for k in W.lanes: st.mem[('ghost', 'mine', k)] = rv(0)
        st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')] = z3.IntVal(0), z3.IntVal(0)
        box['start'] = {(r, off): A for r, off, A in s.slots(ex, st)}
        for r in box.get('slots', {}): pass
    def slots(s, ex, st): return [(r, off, ex.named_arr(st, r, off, 'double')) for r in s.box.get('slots', {}) for off, _ in r.fields]
    def begin(s, ex, st, lo, hi):
        c = z3.Const(fresh_name('evaluated'), z3.ArraySort(IntS, IntS)); st.mem[('ghost', 'cnt')] = c
        j = z3.Int('j_'); st.assume(forall(j, z3.Implies(z3.And(lo <= j, j < hi), c[j] == 0), [c[j]]))
    def end(s, ex, st, lo, hi):
        c = st.mem[('ghost', 'cnt')]; j = z3.Int('jc')
        return [('every factor of the chunk is evaluated once', z3.Implies(z3.And(lo <= j, j < hi), c[j] == 1))]
    def leave(s, ex, st):
        lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        for k in s.W.lanes: st.mem[('ghost', 'mine', k)] = st.mem[('ghost', 'mine', k)] + s.W.P[k](hi) - s.W.P[k](lo)
        st.mem[('ghost', 'hi')] = lo
    def writable(s, ex, st, p, kind, lo, hi): return iv(p.key[-1]) == st.mem[('ghost', 'tid')]
    def thread_end(s, ex, st):
        W, box = s.W, s.box; tid = st.mem[('ghost', 'tid')]
        lo, hi = st.mem[('ghost', 'lo')], st.mem[('ghost', 'hi')]
        for r, off, A in s.slots(ex, st):
            k = box['slots'][r] + off // 8
            ex.oblige(st, A[tid] == box['start'][(r, off)][tid] + st.mem[('ghost', 'mine', k)], 'the slot of the thread grows by the contributions of its chunks (%s)' % lname(k), 'post', assume=False)
        if 'redvar' in box:
            r, off = box['redvar']; v = st.mem[(r, off)][1]
            b0 = st.mem.get(('ghost', 'red0'))
            base = b0 if b0 is not None else box['red_entry']
            ex.oblige(st, rv(ex.asreal(v)) == rv(ex.asreal(base)) + st.mem[('ghost', 'mine', 42)], 'the thread adds exactly its own contributions to the shared sum', 'post', assume=False)
    def after(s, ex, st, lo, hi):
        W, box = s.W, s.box
        st.mem[('ghost', 'cnt')] = c = z3.Const(fresh_name('evaluated'), z3.ArraySort(IntS, IntS)); j = z3.Int('j_')
        st.assume(forall(j, z3.Implies(z3.And(lo <= j, j < hi), c[j] == 1), [c[j]]))
        box['G'] = {}
        for r, off, A in s.slots(ex, st):
            k = box['slots'][r] + off // 8
            N = z3.Const(fresh_name(r.name), A.sort()); st.mem[(r, off, 'double')] = N
            G = z3.Function(fresh_name('total_%s_%d' % (r.name, off)), IntS, RealS); box['G'][(r, off)] = (G, N)
            st.assume(G(0) == 0); st.assume(G(box['nt']) == W.P[k](hi) - W.P[k](lo))
        if 'redvar' in box:
            kd, v = st.mem[box['redvar']]
            st.mem[box['redvar']] = (kd, z3.simplify(rv(ex.asreal(v)) + W.P[42](hi) - W.P[42](lo)))

def omp(box):
    def push(ex, st, ins, a): box['team'] = iv(ex.asint(st, a[2])); return UNDEF
    def tid(ex, st, ins, a):
        if ('ghost', 'tid') not in st.mem: return fint('thread')
        return st.mem[('ghost', 'tid')]
    def reduce(ex, st, ins, a):
        # (loc, gtid, n, size, list of private variables, combiner, lock)
        if not (isinstance(a[2], int) and a[2] == 1): raise Unsupported('reduction of several variables')
        if 'redvar' not in box: raise Unsupported('reduction without a reduction variable')
        fn = a[5]
        x, y = Region('lhs', size=8, local=True), Region('rhs', size=8, local=True); px, py = Region('plhs', size=8, local=True), Region('prhs', size=8, local=True)
        t = st.copy(); vx, vy = freal('lhs'), freal('rhs')
        t.mem[(x, 0)] = ('double', vx); t.mem[(y, 0)] = ('double', vy); t.mem[(px, 0)] = ('ptr', Ptr(x)); t.mem[(py, 0)] = ('ptr', Ptr(y))
        for u, _ in ex.run_function(fn.n, t, [Ptr(px), Ptr(py)]): ex.oblige(u, rv(ex.asreal(u.mem[(x, 0)][1])) == vx + vy, 'the reduction combiner adds', 'post', assume=False)
        r, off = box['redvar']; v = freal('shared_sum'); st.mem[(r, off)] = ('double', v); st.mem[('ghost', 'red0')] = v
        return [(st.copy(), 1), (st, 2)]
    def spec_for(ex, st, name, args):
        if 'done' in box: return None
        box['done'] = 1
        # shared double variables captured by the region
        for p in args:
            if isinstance(p, Ptr) and p.r.nkeys == 0 and p.r is not box['W'].T and st.mem.get((p.r, p.off), ('', None))[0] == 'double':
                if 'redvar' in box: raise Unsupported('several shared doubles')
                box['redvar'] = (p.r, p.off); box['red_entry'] = st.mem[(p.r, p.off)][1]
        sp = Spec(box)
        if 'redvar' in box: sp.private = (box['redvar'][0],)     # its total change is checked at the end of the thread
        return sp
    return [(r'^__kmpc_push_num_threads$', push), (r'^omp_get_thread_num$', tid), (r'^__kmpc_reduce(_nowait)?$', reduce), (r'^__kmpc_end_reduce(_nowait)?$', nop)] + omp_contracts(spec_for)

def slots_ctor(box):
    def h(ex, st, ins, a):
        W = box['W']; this, n, v = a[0], iv(ex.asint(st, a[1])), a[2]
        dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
        cnt, base = (36, 0) if 'double, 6, 6' in dem else (6, 36) if 'double, 6, 1' in dem else (1, 42)
        r = Region({36: 'Hs', 6: 'bs', 1: 'es'}[cnt], 1, 8 * cnt, [(8 * k, 'double') for k in range(cnt)], length=n)
        j = z3.Int('j_')
        for k in range(cnt):
            A = ex.named_arr(st, r, 8 * k, 'double'); st.assume(forall(j, A[j] == rv(ex.asreal(ex.load(st, ex.padd_const(v, 8 * k), 'double'))), [A[j]]))
        box.setdefault('slots', {})[r] = base
        for k, q in ((0, z3.IntVal(0)), (8, n), (16, n)): ex.store(st, ex.padd_const(this, k), Ptr(r, (q,)), 'ptr')
        return UNDEF
    return [(r'std::vector<(Eigen::Matrix<double, 6|double).*>::vector\(', h), (r'std::vector<.*>::~vector\(', nop)]

def tbb_reduce(box, u):
    def h(ex, st, ins, a):
        W, o = box['W'], box['W'].o
        dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]; body_ty = split_targs(dem)[1]
        offs = {k: (o.l_H + 8 * k if k < 36 else o.l_b + 8 * (k - 36) if k < 42 else o.l_e) for k in range(NL)} if 'LinearizeSum' in body_ty else {42: o.e_e}
        fn = [n for n in ex.m.funcs if ex.unit.dem.get(n, '').startswith('vp_body_' + ('l' if 'LinearizeSum' in body_ty else 'e'))][0]
        rg, body = a[0], a[1]
        L, U = [iv(ex.asint(st, ex.load(st, ex.padd_const(rg, o[k]), 'i64'))) for k in ('rg_b', 'rg_e')]
        ex.oblige(st, z3.And(L == 0, U == W.n), 'iteration space: all factors', 'pre')
        s2 = st.copy(); lo, hi = fint('lo'), fint('hi'); s2.assume(z3.And(L <= lo, lo < hi, hi <= U))
        rr = Region('range', size=24, const=True)
        s2.mem[(rr, o.rg_b)] = ('i64', lo); s2.mem[(rr, o.rg_e)] = ('i64', hi); s2.mem[(rr, o.rg_g)] = ('i64', z3.Int('grain'))
        s2.mem[('ghost', 'lo')], s2.mem[('ghost', 'hi')] = lo, hi
        sp = Spec(box); sp.shared = (); sp.private = (body.r,)
        sp.begin(ex, s2, lo, hi)
        # the body object: any accumulated value so far (it may have processed other chunks, or be a fresh split copy)
        cur = {}
        for k, off in offs.items(): cur[k] = freal('acc'); ex.store(s2, ex.padd_const(body, off), cur[k], 'double')
        m0 = dict(s2.mem)
        with Hooks(ex, sp):
            for t, _ in ex.run_function(fn, s2, [body, Ptr(rr)]):
                for nm, g in sp.end(ex, t, lo, hi): ex.oblige(t, g, 'chunk result: ' + nm, 'post', assume=False)
                for k, off in offs.items():
                    ex.oblige(t, rv(ex.asreal(ex.load(t, ex.padd_const(body, off), 'double'))) == cur[k] + W.P[k](hi) - W.P[k](lo), 'the body grows by the contributions of its chunk (%s)' % lname(k), 'post', assume=False)
                lanes = set(body.off + x for x in offs.values())
                for key, v in m0.items():
                    if len(key) == 2 and key[0] is body.r and key[1] not in lanes: ex.oblige(t, z3.BoolVal(key in t.mem and same_val(t.mem[key], v)), 'the body keeps its references', 'frame')
        Spec(box).after(ex, st, L, U); box.pop('G', None)
        for k, off in offs.items():
            v = ex.load(st, ex.padd_const(body, off), 'double'); ex.store(st, ex.padd_const(body, off), z3.simplify(rv(ex.asreal(v)) + W.P[k](U) - W.P[k](L)), 'double')
        return UNDEF
    return [(r'^void tbb::.*parallel_(deterministic_)?reduce<tbb::detail::d1::blocked_range', h)]

def prove(ctx):
    u = ctx.unit('c14', src() + '''
void vp_body_l(LS& x, const tbb::blocked_range<size_t>& r) { x(r); }
void vp_body_e(ES& x, const tbb::blocked_range<size_t>& r) { x(r); }
''', keep=KEEP, extra_flags=OMPFLAGS, passes=UNROLL_LATE)
    o = Offs(u)
    ctx.assume_note(REAL_NOTE); ctx.assume_note(ASSUME)
    def go(nm, lin):
        box = {}
        def setup(ex, st):
            box.clear()
            W = box['W'] = World(ex, st, o, lin)
            if nm == 'omp':
                nt = box['nt'] = z3.Int('num_threads'); st.assume(z3.And(nt >= 1, nt < 2 ** 20)); W.red.const = False; st.mem[(W.red, o.omp_nt)] = ('i32', nt); W.red.const = True
            return W.args
        def post(ex, st0, st, ret, a):
            W = box['W']; c = st.mem[('ghost', 'cnt')]; j = z3.Int('jc')
            res = [(k, rv(ex.asreal(ex.load(st, Ptr(W.outs[k][0], (), W.outs[k][1]), 'double')))) for k in W.lanes] if lin else [(42, rv(ex.asreal(ret)))]
            return [('%s is the sum over the accepted factors' % lname(k), x == W.P[k](W.n)) for k, x in res] + [('every factor is evaluated exactly once', z3.Implies(z3.And(0 <= j, j < W.n), c[j] == 1))]
        cs = factor_contracts(box) + (omp(box) + slots_ctor(box) if nm == 'omp' else tbb_reduce(box, u) if nm == 'tbb' else [])
        ctx.verify(ctx.exec(u, contracts=cs), u.one(r'^vp_%s_%s\(' % ('lin' if lin else 'err', nm)), '%s::%s' % ({'ser': 'SerialReduction', 'omp': 'ParallelReductionOMP', 'tbb': 'ParallelReductionTBB'}[nm], 'linearize' if lin else 'error'), setup, post, loops=loops(box))
    for nm in ('ser', 'omp', 'tbb'):
        for lin in (True, False): ctx.fork('%s %s' % (nm, lin), lambda nm=nm, lin=lin: go(nm, lin))
    # splitting starts a body with empty sums and the same references, joining adds
    def sj():
        for w, ty, size in (('l', 'LinearizeSum', 'ls'), ('e', 'ErrorSum', 'es')):
            offs = {k: (o.l_H + 8 * k if k < 36 else o.l_b + 8 * (k - 36) if k < 42 else o.l_e) for k in range(NL)} if w == 'l' else {42: o.e_e}
            box = {}
            def body(ex, st, nm):
                r = Region(nm, size=o[size]); refs = {}
                for off in range(0, 48 if w == 'l' else 32, 8):
                    t = Region('ref_%d' % off, size=8); st.mem[(r, off)] = ('ptr', Ptr(t)); refs[off] = t
                return r, refs, {k: rv(ex.load(st, Ptr(r, (), f), 'double')) for k, f in offs.items()}
            def s1(ex, st): box['x'] = body(ex, st, 'x'); r = box['o'] = Region('o', size=o[size]); box['x'][0].const = True; return [Ptr(r), Ptr(box['x'][0])]
            def p1(ex, st0, st, ret, a):
                return [('%s starts at zero' % lname(k), rv(ex.asreal(ex.load(st, Ptr(box['o'], (), f), 'double'))) == 0) for k, f in offs.items()] + [('reference +%d is shared' % f, z3.BoolVal(isinstance(st.mem.get((box['o'], f), (0, 0))[1], Ptr) and st.mem[(box['o'], f)][1].r is t)) for f, t in box['x'][1].items()]
            ctx.verify(ctx.exec(u), u.one(r'^vp_split_%s\(' % w), ty + '(split)', s1, p1)
            def s2(ex, st): box['x'] = body(ex, st, 'x'); box['y'] = body(ex, st, 'y'); box['y'][0].const = True; return [Ptr(box['x'][0]), Ptr(box['y'][0])]
            def p2(ex, st0, st, ret, a):
                return [('%s adds' % lname(k), rv(ex.asreal(ex.load(st, Ptr(box['x'][0], (), f), 'double'))) == box['x'][2][k] + box['y'][2][k]) for k, f in offs.items()] + [('reference +%d kept' % f, z3.BoolVal(st.mem[(box['x'][0], f)][1].r is t)) for f, t in box['x'][1].items()]
            ctx.verify(ctx.exec(u), u.one(r'^vp_join_%s\(' % w), ty + '::join', s2, p2)
    ctx.fork('split and join', sj)

def harness(ctx, deep):
    return run_harness(ctx, 'h_c14', deep, flags=('-fopenmp', '-ltbb'))
