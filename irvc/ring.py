"""Ring back end: equalities of real polynomials / quotients decided by a normal form.
Sound: a goal a == b is accepted only if a - b rewrites to the zero polynomial using (i) commutative ring laws, (ii) x / d * d == x for denominators d
that the hypotheses prove nonzero, (iii) hypotheses of the form atom*atom == e, and (iv) hypotheses atom == e (definitions)."""
import time
from fractions import Fraction
import z3

class Give(Exception): pass
LIM = 60000

class Norm:
    def __init__(s, hyps, deadline):
        s.atoms = {}; s.byid = {}; s.deadline = deadline
        s.inv = {}       # atom id -> denominator poly
        s.cache = {}; s.keep = []
        s.sq = {}        # atom id -> poly replacing its square
        s.pending = []; s.vals = {}; s.terms = {}; s.hyps = hyps; s.nz = {}
        for h in hyps: s.hyp(h)
    def hyp(s, h):
        if z3.is_and(h):
            for c in h.children(): s.hyp(c)
            return
        if not z3.is_eq(h) or h.arg(0).sort() != z3.RealSort(): return
        for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
            if s.is_atom(a) and z3.is_rational_value(b): s.vals[a.get_id()] = b.as_fraction(); s.keep.append(a); return
            sq = None
            if z3.is_mul(a) and a.num_args() == 2 and a.arg(0).eq(a.arg(1)) and s.is_atom(a.arg(0)): sq = a.arg(0)
            elif a.decl().kind() == z3.Z3_OP_POWER and s.is_atom(a.arg(0)) and z3.is_rational_value(a.arg(1)) and a.arg(1).as_fraction() == 2: sq = a.arg(0)
            if sq is not None: s.pending.append((sq, b)); return
    def is_atom(s, e):
        if z3.is_const(e): return e.decl().kind() == z3.Z3_OP_UNINTERPRETED
        return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ITE, z3.Z3_OP_TO_REAL)
    def atom(s, e):
        i = e.get_id()
        if i not in s.atoms: s.atoms[i] = len(s.atoms) ; s.keep.append(e)
        return s.atoms[i]
    def mul(s, p, q):
        if len(p) > len(q): p, q = q, p
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = s.mm(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
            if len(r) > LIM or time.time() > s.deadline: raise Give()
        return s.reduce(r)
    def mm(s, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for k, e in b: d[k] = d.get(k, 0) + e
        return tuple(sorted(d.items()))
    def reduce(s, p):
        if not s.sq: return p
        while True:
            hit = None
            for m in p:
                for k, e in m:
                    if e >= 2 and k in s.sq: hit = (m, k, e); break
                if hit: break
            if not hit: return p
            if time.time() > s.deadline: raise Give()
            m, k, e = hit
            p = dict(p); c = p.pop(m)
            rest = tuple((a, b) for a, b in m if a != k)
            if e - 2: rest = tuple(sorted(rest + ((k, e - 2),)))
            for m2, c2 in s.sq[k].items():
                mm = s.mm(rest, m2)
                v = p.get(mm, 0) + c * c2
                if v: p[mm] = v
                else: p.pop(mm, None)
    @staticmethod
    def addp(p, q, f=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + f * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def poly(s, e):
        i = e.get_id()
        if i in s.cache: return s.cache[i]
        if i in s.vals: return {(): s.vals[i]} if s.vals[i] else {}
        if time.time() > s.deadline: raise Give()
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            r = {(): f} if f else {}
        elif k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children(): r = s.addp(r, s.poly(c))
        elif k == z3.Z3_OP_SUB:
            ch = e.children(); r = s.poly(ch[0])
            for c in ch[1:]: r = s.addp(r, s.poly(c), -1)
        elif k == z3.Z3_OP_UMINUS: r = {m: -c for m, c in s.poly(e.arg(0)).items()}
        elif k == z3.Z3_OP_MUL:
            ch = e.children(); r = s.poly(ch[0])
            for c in ch[1:]: r = s.mul(r, s.poly(c))
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 <= e.arg(1).numerator_as_long() <= 8:
            b = s.poly(e.arg(0)); r = {(): Fraction(1)}
            for _ in range(e.arg(1).numerator_as_long()): r = s.mul(r, b)
        elif k == z3.Z3_OP_DIV:
            n, d = s.poly(e.arg(0)), s.poly(e.arg(1))
            if list(d) == [()]: r = {m: c / d[()] for m, c in n.items()}
            elif not d: raise Give()
            else:
                a = s.invatom(d); s.terms.setdefault(a, e.arg(1)); r = s.mul(n, {((a, 1),): Fraction(1)})
        elif s.is_atom(e): r = {((s.atom(e), 1),): Fraction(1)}
        else: raise Give()
        s.cache[i] = r; s.keep.append(e)
        return r
    def invatom(s, d):
        # normalise sign/scale
        key = tuple(sorted(d.items()))
        for a, (dd, kk) in s.inv.items():
            if kk == key: return a
        a = 10 ** 9 + len(s.inv)
        s.inv[a] = (d, key)
        return a
    def is_zero(s, p):
        # clear inverses, innermost denominators last (later inverses may mention earlier ones)
        for a in sorted(s.inv, reverse=True):
            if not p: return True
            mx = max((dict(m).get(a, 0) for m in p), default=0)
            if not mx: continue
            d = s.inv[a][0]
            if not s.nonzero(a): return False
            pw = [{(): Fraction(1)}]
            for _ in range(mx): pw.append(s.mul(pw[-1], d))
            by = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                rest = tuple((k, v) for k, v in m if k != a)
                by.setdefault(e, {})[rest] = c
            p = {}
            for e, q in by.items(): p = s.addp(p, s.mul(q, pw[mx - e]))
            p = s.reduce(p)
        return not p

def _nz(s, a):
    """the divisor of inverse a is nonzero under the hypotheses"""
    if a not in s.nz:
        t = s.terms[a]
        g = z3.Not(t == 0)
        ok = nonzero(list(s.hyps), g, 5)
        if not ok:
            sol = z3.Solver(); sol.set('timeout', 3000)
            for h in s.hyps:
                if not z3.is_quantifier(h): sol.add(h)
            sol.add(t == 0)
            ok = sol.check() == z3.unsat
        s.nz[a] = ok
    return s.nz[a]
Norm.nonzero = _nz

def prove(hyps, goal, timeout=15):
    if z3.is_implies(goal): return prove(list(hyps) + [goal.arg(0)], goal.arg(1), timeout)
    if z3.is_not(goal) and z3.is_eq(goal.arg(0)) or z3.is_distinct(goal) and goal.num_args() == 2: return nonzero(hyps, goal, timeout)
    try:
        N = Norm(hyps, time.time() + timeout)
        for a, b in N.pending: N.sq[N.atom(a)] = N.poly(b)
        return _go(N, goal)
    except (Give, RecursionError): return False
def _go(N, g):
    if z3.is_true(g): return True
    if z3.is_and(g): return all(_go(N, c) for c in g.children())
    if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
        return N.is_zero(N.addp(N.poly(g.arg(0)), N.poly(g.arg(1)), -1))
    return False

def ne_sides(g):
    if z3.is_not(g) and z3.is_eq(g.arg(0)): g = g.arg(0)
    elif not (z3.is_distinct(g) and g.num_args() == 2): return None
    return (g.arg(0), g.arg(1)) if g.arg(0).sort() == z3.RealSort() else None
def nonzero(hyps, goal, timeout):
    """a != b from a hypothesis c != d (or c - d > 0) with a - b == factor * (c - d)"""
    ab = ne_sides(goal)
    if not ab: return False
    try:
        N = Norm(hyps, time.time() + timeout)
        for a, b in N.pending: N.sq[N.atom(a)] = N.poly(b)
        g = N.addp(N.poly(ab[0]), N.poly(ab[1]), -1)
        if list(g) == [()]: return True
    except (Give, RecursionError): return False
    for h in hyps:
        cd = ne_sides(h)
        if not cd and (z3.is_gt(h) or z3.is_lt(h)) and h.arg(0).sort() == z3.RealSort(): cd = (h.arg(0), h.arg(1))
        if not cd: continue
        try:
            q = N.addp(N.poly(cd[0]), N.poly(cd[1]), -1)
            if len(q) != len(g) or not q: continue
            m = next(iter(q))
            if m in g and all(g.get(k, 0) * q[m] == c * g[m] for k, c in q.items()): return True
        except (Give, RecursionError): pass
    return False

def find_equal(e, targets, hyps=(), limit=400, timeout=10):
    """subterms of e whose normal form equals that of one of the target terms: [(subterm, index)]"""
    N = Norm(hyps, time.time() + timeout)
    tp = [N.poly(t) for t in targets]
    keys = {tuple(sorted(p.items())): i for i, p in reversed(list(enumerate(tp)))}
    mx = max(len(p) for p in tp)
    seen, out, size = set(), [], {}
    def est(x):
        i = x.get_id()
        if i in size: return size[i]
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): r = sum(est(c) for c in x.children())
        elif k == z3.Z3_OP_MUL:
            r = 1
            for c in x.children(): r *= est(c)
        elif k == z3.Z3_OP_UMINUS: r = est(x.arg(0))
        elif k == z3.Z3_OP_DIV: r = 10 ** 9
        else: r = 1
        size[i] = min(r, 10 ** 9)
        return size[i]
    def go(x):
        i = x.get_id()
        if i in seen or not z3.is_app(x): return
        seen.add(i)
        if x.sort() == z3.RealSort() and est(x) <= limit and x.num_args():
            try:
                p = N.poly(x)
                k = keys.get(tuple(sorted(p.items())))
                if k is not None and len(p) > 1: out.append((x, k)); return
            except Give: pass
        for c in x.children(): go(c)
    go(e)
    return out
