"""Assumed contracts of std:: and runtime pieces shared by several properties (each use is recorded as an assumption)."""
from .common import *

def functor(ex, st, opname, this, args, valid=None):
    """value of a callable applied to symbolic arguments (its body is executed symbolically, obligations recorded)"""
    s2 = st.copy()
    if valid is not None: s2.assume(valid)
    n0 = len(s2.pc)
    res = ex.run_function(opname, s2, [this] + list(args))
    if len(res) == 1:
        for f in res[0][0].pc[n0:]:
            if not isz(f): continue
        return res[0][1], res[0][0].pc[n0:]
    out = None
    for t, r in res:
        c = And(*t.pc[n0:]) if len(t.pc) > n0 else z3.BoolVal(True)
        r = bv_(ex.asbool(r))
        out = z3.And(c, r) if out is None else z3.Or(out, z3.And(c, r))
    return out, []

def lambda_ptr(ex, st, rest):
    """the closure argument, by pointer or flattened into its captured words"""
    if len(rest) == 1 and isinstance(rest[0], Ptr) and rest[0].r.local: return rest[0]
    r = Region('closure', size=8 * len(rest), local=True)
    for i, a in enumerate(rest): st.mem[(r, 8 * i)] = ('ptr' if isinstance(a, Ptr) else 'i64', a)
    return Ptr(r)

PermS = z3.ArraySort(IntS, IntS)
def perm_ghost(ex, st, nm):
    k = ('ghost', nm)
    if k not in st.mem:
        c = z3.Const('ghost_%s_id' % nm, PermS)
        i = z3.Int('i_')
        st.mem[k] = c
        st.assume(forall(i, c[i] == i, [c[i]]))
    return st.mem[k]

def permute(ex, st, r, kind, a, b, tag='perm'):
    """havoc region array r[a,b) by an arbitrary permutation; ghost maps tag+P, tag+Q accumulate since function entry. returns the new array, the step maps"""
    old = ex.named_arr(st, r, 0, kind)
    P0, Q0 = perm_ghost(ex, st, tag + 'P'), perm_ghost(ex, st, tag + 'Q')
    new = z3.Const(fresh_name(r.name), old.sort())
    P, Q = z3.Const(fresh_name('P'), PermS), z3.Const(fresh_name('Q'), PermS)
    st.mem[(r, 0, kind)] = new
    perm_facts(st, old, new, P, Q, a, b)
    P1, Q1 = z3.Const(fresh_name('ghost_' + tag + 'P'), PermS), z3.Const(fresh_name('ghost_' + tag + 'Q'), PermS)
    i = z3.Int('i_')
    st.assume(forall(i, P1[i] == P0[P[i]], [P1[i]]))
    st.assume(forall(i, Q1[i] == Q[Q0[i]], [Q1[i]]))
    st.mem[('ghost', tag + 'P')], st.mem[('ghost', tag + 'Q')] = P1, Q1
    return old, new, P, Q

def perm_clauses(old, new, P, Q, a, b):
    i = z3.Int('i_')
    ins = lambda x: z3.And(iv(a) <= x, x < iv(b))
    return [('contents are the old contents permuted', forall(i, z3.And(new[i] == old[P[i]], z3.If(ins(i), ins(P[i]), P[i] == i)), [new[i]])),
            ('nothing is lost', forall(i, z3.And(new[Q[i]] == old[i], z3.If(ins(i), ins(Q[i]), Q[i] == i), P[Q[i]] == i), [old[i]])),
            ('nothing is duplicated', forall(i, Q[P[i]] == i, [P[i]]))]
def perm_facts(st, old, new, P, Q, a, b):
    for _, f in perm_clauses(old, new, P, Q, a, b): st.assume(f)
