"""C01: KnnResult holds exactly the k best candidates."""
from ..common import *

SRC = '''
#include <small_gicp/ann/knn_result.hpp>
using namespace small_gicp;
template struct small_gicp::KnnResult<-1>;
template struct small_gicp::KnnResult<1>;
template struct small_gicp::KnnResult<2>;
template struct small_gicp::KnnResult<5>;
'''
def src():
    s = SRC
    for nm, t in (('d', 'small_gicp::KnnResult<-1>'), ('s1', 'small_gicp::KnnResult<1>'), ('s2', 'small_gicp::KnnResult<2>'), ('s5', 'small_gicp::KnnResult<5>')):
        s += off_src([('%s_cap' % nm, t, 'capacity'), ('%s_nf' % nm, t, 'num_found_neighbors'), ('%s_idx' % nm, t, 'indices'), ('%s_dst' % nm, t, 'distances')])
    return s

class Res:
    """view of a result list object"""
    def __init__(s, ex, offs, pfx, N, st, ptr, cap=None):
        s.ex, s.N, s.ptr = ex, N, ptr
        o = offs
        s.o_cap, s.o_nf, s.o_idx, s.o_dst = o[pfx + '_cap'], o[pfx + '_nf'], o[pfx + '_idx'], o[pfx + '_dst']
    def at(s, st):
        ld = lambda off, k: s.ex.load(st, s.ex.padd_const(s.ptr, off), k, False)
        v = type('V', (), {})()
        v.capf = ld(s.o_cap, 'i32'); v.nf = iv(ld(s.o_nf, 'i32'))
        v.cap = iv(s.N) if s.N > 0 else iv(v.capf)
        v.ip, v.dp = ld(s.o_idx, 'ptr'), ld(s.o_dst, 'ptr')
        v.I = s.ex.named_arr(st, v.ip.r, 0, 'i64'); v.D = s.ex.named_arr(st, v.dp.r, 0, 'double')
        return v

def inv(v):
    """representation invariant of the list"""
    i, j = z3.Ints('i_ j_')
    return [('capacity', v.cap >= 1), ('count range', z3.And(v.nf >= 0, v.nf <= v.cap)),
            ('ascending', forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < v.cap), v.D[i] <= v.D[j]), [z3.MultiPattern(v.D[i], v.D[j])])),
            ('entries below the sentinel', forall([j], z3.Implies(z3.And(0 <= j, j < v.nf), v.D[j] < DMAX), [v.D[j]])),
            ('sentinel tail', forall([j], z3.Implies(z3.And(v.nf <= j, j < v.cap), z3.And(v.D[j] == DMAX, v.I[j] == -1)), [v.D[j]]))]

def setup_obj(ex, st, offs, pfx, N):
    cap = z3.Int('cap')
    ri = Region('indices', 1, 8, [(0, 'i64')], length=(N if N > 0 else cap))
    rd = Region('distances', 1, 8, [(0, 'double')], length=(N if N > 0 else cap))
    ro = Region('result', size=64)
    P = Ptr(ro)
    R = Res(ex, offs, pfx, N, st, P)
    st.mem[(ro, R.o_idx)] = ('ptr', Ptr(ri, (0,))); st.mem[(ro, R.o_dst)] = ('ptr', Ptr(rd, (0,)))
    if N < 0: st.mem[(ro, R.o_cap)] = ('i32', cap); st.assume(z3.And(cap >= 1, cap < 2 ** 31 - 1))
    return R

def witness(L, up=False):
    """a possible insertion position: any integer loop variable"""
    out = [('k', iv(L.k), z3.IntVal(0))] if up else []
    for n in L.phis:
        c, i0 = L.cur[n], L.init[n]
        if L.tys[n].k == 'i': out.append((n, iv(c) if not isinstance(c, Scaled) else c.term(), i0 if not isinstance(i0, Scaled) else i0.term()))
        elif isinstance(c, Ptr) and c.r.nkeys: out.append((n, iv(c.key[-1]), i0.key[-1]))
    return out

def shift_loop(R):
    def f(L):
        ex = L.ex
        out = []
        v, o = R.at(L.st), R.at(L.entry)
        pre = R.at(L.pre)
        j = z3.Int('j_')
        hi0 = z3.If(o.nf < o.cap - 1, o.nf, o.cap - 1)
        for n, p, p0 in witness(L):
          for hi, hl in ((iv(p0), 'p0'), (hi0, 'hi')):
            out += [
                ('%s<%s' % (n, hl), p <= hi), ('%s+1<%s' % (n, hl), p - 1 <= hi),
                ('%s: suffix shifted %s' % (n, hl), forall(j, z3.Implies(z3.And(p < j, j <= hi), z3.And(v.D[j] == o.D[j - 1], v.I[j] == o.I[j - 1])), [v.D[j]])),
                ('%s: suffix shifted idx %s' % (n, hl), forall(j, z3.Implies(z3.And(p < j, j <= hi), z3.And(v.D[j] == o.D[j - 1], v.I[j] == o.I[j - 1])), [v.I[j]])),
                ('%s: prefix %s' % (n, hl), forall(j, z3.Implies(z3.Or(j <= p, j > hi), z3.And(v.D[j] == o.D[j], v.I[j] == o.I[j])), [v.D[j]])),
                ('%s: prefix idx %s' % (n, hl), forall(j, z3.Implies(z3.Or(j <= p, j > hi), z3.And(v.D[j] == o.D[j], v.I[j] == o.I[j])), [v.I[j]])),
                ('%s: larger %s' % (n, hl), forall(j, z3.Implies(z3.And(p <= j, j < hi), o.D[j] > R.dist), [o.D[j]])),
            ]
        out.append(('nf', v.nf == o.nf))
        return out
    return f

def push_post(R, index, dist, eq_index=None):
    def post(ex, st0, st, ret, args):
        v, o = R.at(st), R.at(st0)
        idx, d = iv(args[1]), rv(args[2])
        idx = idx if eq_index is None else eq_index(idx)
        j, t = z3.Int('j'), z3.Int('s')
        hi = z3.If(o.nf < o.cap - 1, o.nf, o.cap - 1)
        res = [(n, f) for n, f in inv(v)]
        rej = d >= o.D[o.cap - 1]
        res += [
            ('a candidate not closer than the worst of a full list changes nothing', z3.Implies(rej, z3.And(v.nf == o.nf, v.D == o.D, v.I == o.I))),
            ('count', z3.Implies(z3.Not(rej), v.nf == z3.If(o.nf + 1 < o.cap, o.nf + 1, o.cap))),
            ('capacity unchanged', v.cap == o.cap),
            ('buffers unchanged', z3.BoolVal(v.ip.r is o.ip.r and v.dp.r is o.dp.r)),
        ]
        # content: there is a position p with new = old[0..p) ++ (idx,d) ++ old[p..)
        p = z3.Int('p')
        res.append(('candidate inserted', z3.Implies(z3.Not(rej), z3.Exists([p], z3.And(0 <= p, p <= hi, v.D[p] == d, v.I[p] == idx)))))
        old_kept = z3.Or(z3.And(v.D[j] == o.D[j], v.I[j] == o.I[j]), z3.And(j + 1 <= hi, v.D[j + 1] == o.D[j], v.I[j + 1] == o.I[j]))
        res.append(('every earlier entry kept (possibly moved by one), unless it is the worst of a full list',
                    z3.Implies(z3.And(0 <= j, j < o.nf, z3.Or(rej, j + 1 < o.cap, o.nf < o.cap)), old_kept)))
        res.append(('every entry is an earlier entry or the candidate',
                    z3.Implies(z3.And(0 <= j, j < v.nf), z3.Or(z3.And(v.D[j] == d, v.I[j] == idx, z3.Not(rej)), z3.And(v.D[j] == o.D[j], v.I[j] == o.I[j], j < o.nf), z3.And(j > 0, v.D[j] == o.D[j - 1], v.I[j] == o.I[j - 1])))))
        # exact shape: one insertion position, nothing duplicated or lost
        def shape(p):
            return [('position in range', z3.And(0 <= p, p <= hi)),
                    ('candidate stored at the position', z3.And(v.D[p] == d, v.I[p] == idx)),
                    ('entries before the position unchanged', z3.Implies(z3.And(0 <= j, j < p), z3.And(v.D[j] == o.D[j], v.I[j] == o.I[j]))),
                    ('entries from the position on moved up by one', z3.Implies(z3.And(p < j, j <= hi), z3.And(v.D[j] == o.D[j - 1], v.I[j] == o.I[j - 1])))]
        if not ex.quick(st, rej):
            ws = [z3.IntVal(0), hi, o.nf] + [x for x in (st.retenv or {}).values() if isz(x) and x.sort() == IntS and '.' in str(x)] + [x for x in (st.retenv or {}).values() if isz(x) and x.sort() == IntS]
            best = None
            for w in ws:
                if all(ex.proves(st.pc, z3.Implies(z3.Not(rej), f), 1500) for _, f in shape(w)): best = w; break
            w = best if best is not None else ws[-1]
            res += [(n, z3.Implies(z3.Not(rej), f)) for n, f in shape(w)]
        jo = z3.Int('jo')
        res.append(('no entry outside the buffers is touched', z3.Implies(z3.Or(jo < 0, jo >= o.cap), z3.And(v.D[jo] == o.D[jo], v.I[jo] == o.I[jo]))))
        return res
    return post

def history_lemma(ctx):
    """functional contract of push  =>  the list holds the k best of the whole history (induction step and base), by ghost maps slot->offer and offer->slot"""
    A = lambda n, r=IntS: z3.Array(n, IntS, r)
    D, I, D2, I2 = A('D', RealS), A('I'), A('D2', RealS), A('I2')
    who, pos = A('who'), A('pos')
    Od, Oi = A('offer_dist', RealS), A('offer_idx')
    cap, nf, T, p = z3.Ints('cap nf T p')
    d, idx = Od[T], Oi[T]
    j, t, i = z3.Ints('j t i')
    def inv_h(D, I, nf, T, who, pos, jj, tt):
        a = z3.Implies(z3.And(0 <= jj, jj < nf), z3.And(who(jj) >= 0, who(jj) < T, D[jj] == Od[who(jj)], I[jj] == Oi[who(jj)], pos(who(jj)) == jj))
        b = z3.Implies(z3.And(0 <= tt, tt < T), z3.Or(z3.And(pos(tt) >= 0, pos(tt) < nf, who(pos(tt)) == tt), z3.And(pos(tt) == -1, nf == cap, Od[tt] >= D[cap - 1])))
        return a, b
    w0, p0 = (lambda x: who[x]), (lambda x: pos[x])
    a0, b0 = inv_h(D, I, nf, T, w0, p0, j, t)
    hi = z3.If(nf < cap - 1, nf, cap - 1)
    base = [cap >= 1, T >= 0, nf == z3.If(T < cap, T, cap), forall(j, a0), forall(t, b0),
            forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < cap), D[i] <= D[j])), forall(j, z3.Implies(z3.And(0 <= j, j < nf), D[j] < DMAX)),
            forall(j, z3.Implies(z3.And(nf <= j, j < cap), D[j] == DMAX)), d < DMAX]
    rej = d >= D[cap - 1]
    jj, tt = z3.Ints('jj tt')
    # rejected
    posr = lambda x: z3.If(x == T, z3.IntVal(-1), pos[x])
    a1, b1 = inv_h(D, I, nf, T + 1, w0, posr, jj, tt)
    inst = [z3.substitute(b0, (t, tt)), z3.substitute(a0, (j, jj))]
    ctx.lemma('history step, rejected: entries', base + inst + [rej], a1)
    ctx.lemma('history step, rejected: left-out candidates are not closer', base + inst + [rej], b1)
    ctx.lemma('history step, rejected: count', base + [rej], nf == z3.If(T + 1 < cap, T + 1, cap))
    # inserted at p
    shape = [0 <= p, p <= hi, D2[p] == d, I2[p] == idx,
             forall(j, z3.Implies(z3.And(0 <= j, j < p), z3.And(D2[j] == D[j], I2[j] == I[j]))),
             forall(j, z3.Implies(z3.And(p < j, j <= hi), z3.And(D2[j] == D[j - 1], I2[j] == I[j - 1]))),
             forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < cap), D2[i] <= D2[j]))]
    nf2 = z3.If(nf + 1 < cap, nf + 1, cap)
    whoi = lambda x: z3.If(x < p, who[x], z3.If(x == p, T, who[x - 1]))
    posi = lambda x: z3.If(x == T, p, z3.If(pos[x] < 0, z3.IntVal(-1), z3.If(pos[x] < p, pos[x], z3.If(pos[x] + 1 < cap, pos[x] + 1, z3.IntVal(-1)))))
    a2, b2 = inv_h(D2, I2, nf2, T + 1, whoi, posi, jj, tt)
    inst += [z3.substitute(a0, (j, jj - 1))]
    ctx.lemma('history step, inserted: entries', base + shape + inst + [z3.Not(rej)], a2)
    ctx.lemma('history step, inserted: left-out candidates are not closer', base + shape + inst + [z3.Not(rej)], b2)
    ctx.lemma('history step, inserted: count', base + shape + [z3.Not(rej)], nf2 == z3.If(T + 1 < cap, T + 1, cap))
    # cover: hypotheses are consistent
    sol = z3.Solver(); sol.set('timeout', 3000)
    for x in base + shape: sol.add(x)
    ctx.covers.append(('history lemma hypotheses consistent', sol.check() != z3.unsat))
    if not ctx.covers[-1][1]: raise ProofGap('history lemma is vacuous')

def prove_push(ctx, which=(('d', -1), ('s1', 1), ('s2', 2), ('s5', 5)), push_only=True):
    u = ctx.unit('c01', src())
    offs = Offs(u)
    ctx.assume_note(REAL_NOTE)
    ctx.assume_note('candidate distances are smaller than DBL_MAX; the two result buffers do not overlap each other or the list object')
    for pfx, N in which:
        ex = ctx.exec(u)
        fn = u.one(r'^small_gicp::KnnResult<%d, .*>::push\(' % N)
        box = {}
        def setup(ex, st):
            R = setup_obj(ex, st, offs, pfx, N); box['R'] = R
            R.dist = z3.Real('distance')
            v = R.at(st)
            for n, f in inv(v): st.assume(f)
            st.assume(R.dist < DMAX)
            return [R.ptr, z3.Int('index'), R.dist]
        def post(*a): return push_post(box['R'], None, None)(*a)
        ctx.verify(ex, fn, 'KnnResult<%d>::push' % N, setup, post, loops=lambda L: shift_loop(box['R'])(L))
        # constructor
        ex = ctx.exec(u)
        fn = u.one(r'^small_gicp::KnnResult<%d, .*>::KnnResult\(' % N)
        def setup(ex, st):
            R = setup_obj(ex, st, offs, pfx, N); box['R'] = R
            cap = st.mem.get((R.ptr.r, R.o_cap), (0, None))[1]
            ip, dp = st.mem.pop((R.ptr.r, R.o_idx))[1], st.mem.pop((R.ptr.r, R.o_dst))[1]
            st.mem.pop((R.ptr.r, R.o_cap), None)
            rt = Region('index_transform', size=8)
            return [R.ptr, ip, dp, (cap if N < 0 else -1), Ptr(rt)]
        def post(ex, st0, st, ret, args):
            v = box['R'].at(st)
            j = z3.Int('j')
            r = [('empty', v.nf == 0), ('buffers adopted', z3.BoolVal(v.ip.r is args[1].r and v.dp.r is args[2].r))] + inv(v)
            if N < 0: r.append(('capacity', v.cap == args[3]))
            return r
        def loops(L):
            out = []
            j = z3.Int('j_')
            a1, a2 = box['args']
            I, D = L.ex.named_arr(L.st, a1, 0, 'i64'), L.ex.named_arr(L.st, a2, 0, 'double')
            out.append(('all idx filled', forall(j, z3.Implies(z3.And(0 <= j, j < box['cap']), I[j] == -1), [I[j]])))
            for n, q, q0 in witness(L, True):
                if True:
                    out.append(('idx filled to ' + n, forall(j, z3.Implies(z3.And(0 <= j, j < q), I[j] == -1), [I[j]])))
                    out.append(('dst filled to ' + n, forall(j, z3.Implies(z3.And(0 <= j, j < q), D[j] == DMAX), [D[j]])))
                    out.append((n + '<=cap', q <= box['cap']))
            return out
        def setup2(ex, st):
            a = setup(ex, st)
            box['args'] = (a[1].r, a[2].r); box['cap'] = iv(N if N > 0 else a[3])
            return a
        ctx.verify(ex, fn, 'KnnResult<%d>::KnnResult' % N, setup2, post, loops=loops)

def prove(ctx):
    history_lemma(ctx)
    prove_push(ctx)

def harness(ctx, deep):
    from ..native import run_harness
    return run_harness(ctx, 'h_c01', deep)
