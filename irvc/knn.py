"""Caller-side contract of KnnResult (constructor, push) with ghost state, and the lemma tying it to the shape postcondition proved in C01.

Ghost state: seen (set of candidate keys the search is responsible for so far), pos (key -> list slot).
RInv(seen): entries are seen keys with their true distance, at pos; every seen key is in the list or not closer than the worst entry; count = min(capacity, |seen|) is
carried by the callers through the count clause of the push contract."""
from .common import *
from .props.c01 import Res, inv

def list_src():
    s = ''
    for nm, t in (('d', 'small_gicp::KnnResult<-1>'), ('s1', 'small_gicp::KnnResult<1>'), ('s2', 'small_gicp::KnnResult<2>'), ('s5', 'small_gicp::KnnResult<5>')):
        s += off_src([('%s_cap' % nm, t, 'capacity'), ('%s_nf' % nm, t, 'num_found_neighbors'), ('%s_idx' % nm, t, 'indices'), ('%s_dst' % nm, t, 'distances')])
    return s

def parse_N(dem):
    m = re.search(r'KnnResult<(-?\d+)', dem)
    return int(m.group(1))
PFX = {-1: 'd', 1: 's1', 2: 's2', 5: 's5'}

class Ghost:
    """the abstract search space: Dist(key), and how a pushed (index, distance) maps to a key"""
    def __init__(s, dist, valid=None, inst=None, enc=None):
        s.dist = dist          # key -> Real term
        s.valid = valid        # key -> Bool
        s.inst = inst          # key -> [facts]
        s.enc = enc or (lambda k: k)   # key -> stored index
        s.mono = None

def g_get(ex, st, nm, sort):
    k = ('ghost', nm)
    if k not in st.mem: st.mem[k] = z3.Const('ghost_' + nm, sort)
    return st.mem[k]
SeenS, PosS = z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, IntS)
def seen(ex, st): return g_get(ex, st, 'seen', SeenS)
def pos(ex, st): return g_get(ex, st, 'pos', PosS)
def named_ghost(ex, st, nm):
    a = st.mem[('ghost', nm)]
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: return a
    c = z3.Const(fresh_name('ghost_' + nm), a.sort()); st.assume(c == a); st.mem[('ghost', nm)] = c
    return c

def rinv(v, S, P, G):
    j, t = z3.Ints('j_ t_')
    return [('every entry is a candidate offered so far, with its true distance', forall(j, z3.Implies(z3.And(0 <= j, j < v.nf), z3.And(S[v.I[j]], v.D[j] == G.dist(v.I[j]), P[v.I[j]] == j)), [v.I[j]])),
            ('every candidate is in the list or not closer than the worst entry', forall(t, z3.Implies(S[t], z3.Or(z3.And(P[t] >= 0, P[t] < v.nf, v.I[P[t]] == t), G.dist(t) >= v.D[v.cap - 1])), [S[t]]))]

def res_at(ex, offs, ptr, N):
    return Res(ex, offs, PFX[N], N, None, ptr)

def fresh_list(ex, st, R, v):
    """havoc the contents of the list, returning the new view"""
    for r, kind, srt in ((v.ip.r, 'i64', IntS), (v.dp.r, 'double', RealS)):
        st.mem[(r, 0, kind)] = z3.Const(fresh_name(r.name), z3.ArraySort(IntS, srt))
    nf = fint('nf')
    ex.store(st, ex.padd_const(R.ptr, R.o_nf), nf, 'i32', False)
    ex.rangefact(st, nf, 'i32')
    return R.at(st)

def contracts(offs, G):
    def push(ex, st, ins, args):
        dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
        R = res_at(ex, offs, args[0], parse_N(dem))
        v = R.at(st)
        key, d = iv(ex.asint(st, args[1])), rv(ex.asreal(args[2]))
        S, P = seen(ex, st), pos(ex, st)
        for n, f in inv(v): ex.oblige(st, f, 'pre of push: ' + n, 'precondition')
        if G.inst: 
            for f in G.inst(ex, st, key): st.assume(f)
        ex.oblige(st, d == G.dist(key), 'pre of push: the distance is the squared distance of the pushed point', 'precondition')
        ex.oblige(st, z3.And(G.dist(key) < DMAX), 'pre of push: distance finite', 'precondition')
        for n, f in rinv(v, S, P, G): ex.oblige(st, f, 'pre of push: ' + n, 'precondition')
        ex.oblige(st, z3.Not(S[key]), 'pre of push: no candidate is offered twice', 'precondition')
        # frame
        w0 = v.D[v.cap - 1]
        nf0 = v.nf
        w = fresh_list(ex, st, R, v)
        for n, f in inv(w): st.assume(f)
        S2 = z3.Const(fresh_name('ghost_seen'), SeenS); P2 = z3.Const(fresh_name('ghost_pos'), PosS)
        t = z3.Int('t_')
        st.assume(forall(t, S2[t] == z3.Or(S[t], t == key), [S2[t]]))
        st.mem[('ghost', 'seen')] = S2; st.mem[('ghost', 'pos')] = P2
        for n, f in rinv(w, S2, P2, G): st.assume(f)
        st.assume(w.nf == z3.If(nf0 + 1 < w.cap, nf0 + 1, w.cap))
        st.assume(w.D[w.cap - 1] <= w0)
        return UNDEF
    def ctor(ex, st, ins, args):
        dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
        N = parse_N(dem)
        R = res_at(ex, offs, args[0], N)
        cap = iv(ex.asint(st, args[3]))
        if N > 0: ex.oblige(st, cap < 0, 'pre of KnnResult(): no dynamic size for a static list', 'precondition')
        else: ex.oblige(st, z3.And(cap >= 1, cap < 2 ** 31 - 1), 'pre of KnnResult(): positive capacity', 'precondition')
        n = cap if N < 0 else iv(N)
        for a in (args[1], args[2]):
            L = a.r.length
            if a.key and L is not None: ex.oblige(st, z3.And(iv(a.key[-1]) >= 0, iv(a.key[-1]) + n <= iv(L)), 'pre of KnnResult(): the caller buffers hold the capacity', 'precondition')
        for o, a in ((R.o_idx, args[1]), (R.o_dst, args[2])): ex.store(st, ex.padd_const(R.ptr, o), a, 'ptr', False)
        ex.store(st, ex.padd_const(R.ptr, R.o_cap), args[3], 'i32', False)
        v = type('V', (), {})(); v.ip, v.dp = args[1], args[2]
        st.mem[(args[1].r, 0, 'i64')] = z3.Const(fresh_name(args[1].r.name), z3.ArraySort(IntS, IntS))
        st.mem[(args[2].r, 0, 'double')] = z3.Const(fresh_name(args[2].r.name), z3.ArraySort(IntS, RealS))
        ex.store(st, ex.padd_const(R.ptr, R.o_nf), 0, 'i32', False)
        w = R.at(st)
        for n_, f in inv(w): st.assume(f)
        j = z3.Int('j_')
        st.assume(w.D[w.cap - 1] == DMAX)
        S2 = z3.Const(fresh_name('ghost_seen'), SeenS)
        t = z3.Int('t_')
        st.assume(forall(t, z3.Not(S2[t]), [S2[t]]))
        st.mem[('ghost', 'seen')] = S2; st.mem[('ghost', 'pos')] = z3.Const(fresh_name('ghost_pos'), PosS)
        return UNDEF
    return [(r'KnnResult<[^>]*>::push\(', push), (r'KnnResult<[^>]*>::KnnResult\(', ctor)]

KEEP = [r'small_gicp::KnnResult<.*>::push\(', r'small_gicp::KnnResult<.*>::KnnResult\(']

def push_lemma(ctx, label='push contract'):
    """shape postcondition of push (proved on the code in C01) => caller contract used above"""
    A = lambda n, r=IntS: z3.Array(n, IntS, r)
    v = type('V', (), {})(); w = type('V', (), {})()
    v.D, v.I, w.D, w.I = A('D', RealS), A('I'), A('D2', RealS), A('I2')
    v.nf, v.cap, p, key = z3.Ints('nf cap p key')
    w.cap = v.cap
    Dist = z3.Function('Dist', IntS, RealS)
    G = Ghost(lambda k: Dist(k))
    S, P = z3.Const('S', SeenS), z3.Const('P', PosS)
    j, t, i = z3.Ints('j t i')
    d = Dist(key)
    hi = z3.If(v.nf < v.cap - 1, v.nf, v.cap - 1)
    base = [f for _, f in inv(v)] + [f for _, f in rinv(v, S, P, G)] + [z3.Not(S[key]), d < DMAX]
    rej = d >= v.D[v.cap - 1]
    def post(w, S2, P2, tag, hyps):
        jj, tt = z3.Ints('jj tt')
        ctx.lemma('%s (%s): entries' % (label, tag), hyps, z3.Implies(z3.And(0 <= jj, jj < w.nf), z3.And(S2(w.I[jj]), w.D[jj] == Dist(w.I[jj]), P2(w.I[jj]) == jj)))
        ctx.lemma('%s (%s): left-out' % (label, tag), hyps, z3.Implies(S2(tt), z3.Or(z3.And(P2(tt) >= 0, P2(tt) < w.nf, w.I[P2(tt)] == tt), Dist(tt) >= w.D[w.cap - 1])))
        ctx.lemma('%s (%s): worst never increases' % (label, tag), hyps, w.D[w.cap - 1] <= v.D[v.cap - 1])
        ctx.lemma('%s (%s): count' % (label, tag), hyps, w.nf == z3.If(v.nf + 1 < v.cap, v.nf + 1, v.cap))
    S2 = lambda x: z3.Or(S[x], x == key)
    jj, tt = z3.Ints('jj tt')
    r = type('V', (), {})(); r.D, r.I, r.nf, r.cap = v.D, v.I, v.nf, v.cap
    post(r, S2, lambda x: P[x], 'rejected', base + [rej])
    w.nf = z3.If(v.nf + 1 < v.cap, v.nf + 1, v.cap)
    shape = [z3.Not(rej), 0 <= p, p <= hi, w.D[p] == d, w.I[p] == key,
             forall(j, z3.Implies(z3.And(0 <= j, j < p), z3.And(w.D[j] == v.D[j], w.I[j] == v.I[j])), [w.I[j]]),
             forall(j, z3.Implies(z3.And(p < j, j <= hi), z3.And(w.D[j] == v.D[j - 1], w.I[j] == v.I[j - 1])), [w.I[j]])] + [f for _, f in inv(w)]
    P2 = lambda x: z3.If(x == key, p, z3.If(P[x] < p, P[x], P[x] + 1))
    inst = [w.I[P[tt]] == w.I[P[tt]], w.I[P[tt] + 1] == w.I[P[tt] + 1], v.I[jj] == v.I[jj], v.I[jj - 1] == v.I[jj - 1]]
    a = type('V', (), {})
    # instances of the old invariant at jj, jj-1, and of the shape at the needed slots
    def at(f, var, val): return z3.substitute(f.body(), (z3.Var(0, IntS), val))
    ri = [f for _, f in rinv(v, S, P, G)]
    extra = [z3.substitute_vars(ri[0].body(), x) for x in (jj, jj - 1)] + [z3.substitute_vars(ri[1].body(), tt)]
    for q in shape[5:7]: extra += [z3.substitute_vars(q.body(), x) for x in (jj, P[tt], P[tt] + 1)]
    i1, i2 = v.cap - 1, v.cap - 2
    for q in shape[5:7]: extra += [z3.substitute_vars(q.body(), x) for x in (i1,)]
    mono = inv(v)[2][1]
    extra += [z3.substitute_vars(mono.body(), b, a) for a, b in ((v.cap - 2, v.cap - 1),)]
    post(w, S2, P2, 'inserted', base + shape + extra)
    sol = z3.Solver(); sol.set('timeout', 3000)
    for x in base + shape + extra: sol.add(x)
    c = sol.check() != z3.unsat
    ctx.covers.append(('push contract lemma hypotheses consistent', c))
    if not c: raise ProofGap('push contract lemma vacuous')
