"""Symbolic verification-condition generator over the IR: contracts at calls, invariants at loops, one obligation per check."""
import re, itertools, time, os, sys
from fractions import Fraction
import z3
from . import ir
from .ir import Ty, F64, F32, PTR, I

class Unsupported(Exception):
    pass

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_cnt = itertools.count()
def fresh_name(p): return '%s!%d' % (p, next(_cnt))
def fint(p='i'): return z3.Int(fresh_name(p))
def freal(p='r'): return z3.Real(fresh_name(p))
def fbool(p='b'): return z3.Bool(fresh_name(p))

DBL_MAX = Fraction(1.7976931348623157e308)
isz = z3.is_expr

def inst_pc(st, terms, sort=None):
    """instances of the one-variable quantified hypotheses on the path at the given terms (sound: consequences of the path condition)"""
    out = []
    for p in st.pc:
        if z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1:
            for t in terms:
                if p.var_sort(0) == t.sort(): out.append(z3.substitute_vars(p.body(), t))
    for f in out: st.assume(f)

def is_py(x): return isinstance(x, (int, bool, Fraction)) 
def rv(x):
    """z3 Real of a python number or term"""
    if isinstance(x, bool): raise Unsupported('bool as real')
    if isinstance(x, (int, Fraction)): 
        f = Fraction(x)
        return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
    return x
def iv(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def bv_(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    return x

def And(*a):
    l = []
    for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a):
        if x is True: continue
        if x is False: return z3.BoolVal(False)
        l.append(bv_(x))
    return z3.And(*l) if len(l) != 1 else l[0]
def Or(*a):
    l = []
    for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a):
        if x is False: continue
        if x is True: return z3.BoolVal(True)
        l.append(bv_(x))
    return z3.Or(*l) if len(l) != 1 else l[0]
def Not(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def Implies(a, b): return z3.Implies(bv_(a), bv_(b))

class Region:
    """memory object family. nkeys==0: one object, scalar slots. nkeys>=1: array(s) of elements of `stride` bytes, indexed by nkeys integers."""
    def __init__(s, name, nkeys=0, stride=None, fields=None, length=None, lo=0, const=False, ptrs=None, size=None, local=False, sizefn=None):
        s.name, s.nkeys, s.stride, s.length, s.lo, s.const = name, nkeys, stride, length, lo, const
        Region.count += 1; s.serial = Region.count
        s.fields = fields          # {off: 'i32'|'i64'|'double'|'ptr'|'i8'...} or list of (off, kind)
        s.ptrs = ptrs or {}        # off -> (Region, prefix_own: bool)  : pointer fields stored as element index
        s.size = size
        s.local = local
        s.init = None
    def __repr__(s): return '<%s>' % s.name
    count = 0

class Ptr:
    __slots__ = ('r', 'key', 'off', 'dyn')
    def __init__(s, r, key=(), off=0, dyn=()): s.r, s.key, s.off, s.dyn = r, tuple(key), off, tuple(dyn)
    def __repr__(s): return 'Ptr(%r,%r,%d%s)' % (s.r, s.key, s.off, (',' + repr(s.dyn)) if s.dyn else '')
class Null:
    def __repr__(s): return 'null'
NULL = Null()
class PtrInt:
    """integer value of a pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Scaled:
    """integer equal to c*t + d, kept factored so that exact division is structural"""
    __slots__ = ('c', 't', 'd')
    def __init__(s, c, t, d=0): s.c, s.t, s.d = c, t, d
    def term(s): return add(mulc(s.t, s.c), s.d)
class Concat:
    """integer built from two halves (lo: n bits, hi: n bits)"""
    __slots__ = ('lo', 'hi', 'n')
    def __init__(s, lo, hi, n): s.lo, s.hi, s.n = lo, hi, n
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class FuncRef:
    def __init__(s, n): s.n = n
class Agg(list):
    pass

def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return a + b
def mulc(a, c):
    if isinstance(a, int): return a * c
    if c == 1: return a
    if c == 0: return 0
    return a * c

def kindof(ty):
    if ty.k == 'i': return 'i%d' % ty.n
    if ty.k == 'double' or ty.k == 'float': return ty.k
    if ty.k == 'ptr': return 'ptr'
    raise Unsupported('kind of %r' % ty)
def ksize(k):
    return {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4, 'ptr': 8}[k]
def ksort(k):
    if k in ('double', 'float'): return RealS
    return IntS

class State:
    __slots__ = ('env', 'mem', 'pc', 'pcset', 'block', 'prev', 'loops', 'trace', 'tag', 'frame', 'retenv')
    def __init__(s):
        s.env = {}; s.mem = {}; s.pc = []; s.pcset = set(); s.block = None; s.prev = None; s.loops = {}; s.trace = (); s.tag = None; s.frame = None; s.retenv = None
    def copy(s):
        t = State()
        t.env = dict(s.env); t.mem = dict(s.mem); t.pc = list(s.pc); t.pcset = set(s.pcset)
        t.block, t.prev, t.loops, t.trace, t.tag, t.frame = s.block, s.prev, dict(s.loops), s.trace, s.tag, s.frame
        return t
    def assume(s, f):
        if f is True or f is None: return
        if isinstance(f, (list, tuple)):
            for x in f: s.assume(x)
            return
        f = bv_(f)
        if z3.is_true(f): return
        i = f.get_id()
        if i in s.pcset: return
        s.pcset.add(i); s.pc.append(f)

class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'fn', 'status', 'time', 'model', 'detail', 'backend', 'tactic')
    def __init__(s, name, hyps, goal, kind, fn, tactic=None):
        s.name, s.hyps, s.goal, s.kind, s.fn = name, hyps, goal, kind, fn
        s.status = None; s.time = 0; s.model = None; s.detail = ''; s.backend = ''; s.tactic = tactic

_qf_cache = {}
def has_quant(e):
    i = e.get_id()
    r = _qf_cache.get(i)
    if r is not None and r[0].eq(e): return r[1]
    res = False
    if z3.is_quantifier(e): res = True
    else:
        for c in e.children():
            if has_quant(c): res = True; break
    _qf_cache[i] = (e, res)
    return res

class LoopView:
    pass

class Exec:
    def __init__(s, unit, contracts=(), reals=True, quick_timeout=400):
        s.unit, s.m = unit, unit.mod
        s.contracts = list(contracts)   # (regex on demangled name, handler)
        s.obls = []
        s.record = True
        s.loopinfo = {}
        s.loopspec = {}
        s.used_contracts = {}
        s.quick_timeout = quick_timeout
        s.globals = {}
        s.uf = {}
        s.nqueries = 0
        s.fn_label = ''
        s.safety = True
        s.overflow = True
        s.max_paths = 4000
        s.houdini_log = []
        s.loops_done = []
        s.axioms = []
        s.prune = True
        s.on_store = None
        s.on_backedge = None
        s.on_load = None
        s.on_atomic = None
        s._csolver_cache = {}
        s.havoc_loops = False
        s.qsolver_t = 0.0
        s.abort_ok = False
        s.linear_houdini = False; s.drop_nonlin = False; s.name_fptoi = None
        s.sticky, s.sticky_memo = False, {}     # start the inference of an already visited loop from its earlier result (checked again in full)
        s.inline_bodies = []
        s.max_unroll = 40; s.run_concrete = False
        s.named = {}

    # ------------------------------------------------------------ solver helpers
    def quick(s, st, goal, timeout=None):
        """is goal implied by the quantifier-free part of the path condition (incomplete, sound)?"""
        goal = z3.simplify(bv_(goal))
        if z3.is_true(goal): return True
        if z3.is_false(goal) and len(st.pc) == 0: return False
        t0 = time.time()
        sol = z3.Solver()
        sol.set('timeout', 4000); sol.set('rlimit', int((timeout or s.quick_timeout) * 2000))
        for p in st.pc:
            if not has_quant(p): sol.add(p)
        sol.add(z3.Not(goal))
        s.nqueries += 1
        r = sol.check() == z3.unsat
        s.qsolver_t += time.time() - t0
        return r
    def feasible(s, st, cond):
        if not s.prune: return True
        return not s.quick(st, z3.Not(bv_(cond)))

    def oblige(s, st, goal, name, kind='assert', assume=True, tactic=None):
        """record an obligation; afterwards assume it on the path"""
        if goal is True: return
        goal = bv_(goal)
        g = z3.simplify(goal)
        if not z3.is_true(g) and s.record:
            s.obls.append(Obligation(name, tuple(st.pc), goal, kind, s.fn_label, tactic))
        elif s.record:
            o = Obligation(name, (), goal, kind, s.fn_label); o.status = 'proved'; o.backend = 'simplifier'
            s.obls.append(o)
        if assume: st.assume(goal)

    # ------------------------------------------------------------ memory
    def arr_key(s, r, off, kind): return (r, off, kind)
    def _arr_sort(s, r, kind):
        return z3.ArraySort(*([IntS] * r.nkeys + [ksort(kind)]))
    def get_arr(s, st, r, off, kind):
        k = (r, off, kind)
        if k not in st.mem:
            base = (r, off, kind)
            if base not in s.uf:
                # declared kinds only (aliasing between kinds must be declared through region.fields)
                s.uf[base] = z3.Const('%s.%d.%s' % (r.name, off, kind), s._arr_sort(r, kind))
            st.mem[k] = s.uf[base]
        return st.mem[k]
    def named_arr(s, st, r, off, kind):
        """array as a constant (usable in quantifier patterns)"""
        a = s.get_arr(st, r, off, kind)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: return a
        i = a.get_id()
        if i not in s.named or not s.named[i][0].eq(a):
            s.named[i] = (a, z3.Const(fresh_name('%s.%d' % (r.name, off)), a.sort()))
        c = s.named[i][1]
        st.assume(c == a)
        return c
    def check_field(s, r, off, kind):
        if r.fields is not None:
            for (o, k) in r.fields:
                if o == off and k == kind: return True
            return False
        return True
    def overlapping(s, r, off, kind):
        """other declared fields overlapping [off, off+size)"""
        res = []
        if r.fields is None: return res
        sz = ksize(kind)
        for (o, k) in r.fields:
            if (o, k) != (off, kind) and o < off + sz and off < o + ksize(k): res.append((o, k))
        return res
    def rangefact(s, st, v, kind):
        if kind[0] == 'i' and isz(v) and not z3.is_int_value(v):
            n = int(kind[1:])
            if n == 1: st.assume(z3.And(v >= 0, v <= 1))
            else: st.assume(z3.And(v >= -2 ** (n - 1), v < 2 ** (n - 1)))

    def inbounds(s, st, p, what):
        r = p.r
        if not s.safety or r.nkeys == 0: return
        if r.length is None: return
        L = r.length(p.key[:-1], st) if callable(r.length) else r.length
        i = p.key[-1]
        s.oblige(st, z3.And(iv(i) >= iv(r.lo), iv(i) < iv(L)), '%s in bounds of %s' % (what, r.name), 'bounds')

    def load(s, st, p, kind, check=True):
        if p is NULL: 
            s.oblige(st, z3.BoolVal(False), 'null dereference', 'memory'); return s.fresh(kind)
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.dyn: return s._dyn_load(st, p, kind, check)
        r = p.r
        if isinstance(p.off, int) is False: raise Unsupported('symbolic offset')
        if s.on_load and check: s.on_load(s, st, p, kind)
        if r.nkeys:
            if check: s.inbounds(st, p, 'read')
            if kind == 'ptr':
                if p.off not in r.ptrs:
                    # a pointer-typed load of raw data copied as i64 etc.
                    raise Unsupported('undeclared pointer field %d of %s' % (p.off, r.name))
                tr, own = r.ptrs[p.off][:2]
                a = s.get_arr(st, r, p.off, 'ptr')
                v = z3.Select(a, *[iv(k) for k in p.key])
                if tr.nkeys == 0: return Ptr(tr)
                pref = p.key if own is True else (p.key[:own] if isinstance(own, int) and own is not False else ())
                return Ptr(tr, tuple(pref) + (v,), 0)
            if not s.check_field(r, p.off, kind):
                v = s._punned_load(st, p, kind)
                if v is not None: return v
                raise Unsupported('load of %s at offset %d of %s' % (kind, p.off, r.name))
            a = s.get_arr(st, r, p.off, kind)
            v = z3.Select(a, *[iv(k) for k in p.key])
            s.rangefact(st, v, kind)
            return s.from_store(v, kind)
        k = (r, p.off)
        if k in st.mem:
            kd, v = st.mem[k]
            if ksize(kd) == ksize(kind):
                if v is UNDEF: return UNDEF
                if kd == kind: return s.from_store(v, kind)
                return v if kind not in ('i1',) else v
            if ksize(kd) > ksize(kind):
                if isinstance(v, Concat) and v.n == ksize(kind) * 8: return v.lo
                if v is UNDEF: return UNDEF
                if isinstance(v, int): return wrapc(v, ksize(kind) * 8)
                if isz(v) and v.sort() == IntS:
                    return s.tosigned(v % (2 ** (8 * ksize(kind))), 8 * ksize(kind))
                raise Unsupported('partial load')
            # wider than the stored piece: gather two halves
            h = ksize(kind) // 2
            if ksize(kd) == h and (r, p.off + h) in st.mem and ksize(st.mem[(r, p.off + h)][0]) == h:
                return Concat(v, st.mem[(r, p.off + h)][1], h * 8)
            if kd == 'i8' and all((r, p.off + j) in st.mem and st.mem[(r, p.off + j)][1] == 0 for j in range(ksize(kind))): return 0
            raise Unsupported('wide load')
        # enclosing piece?
        for h in (4, 2, 1):
            kk = (r, p.off - h)
            if kk in st.mem and ksize(st.mem[kk][0]) > h and not (p.off - h < 0):
                v = st.mem[kk][1]
                if v is UNDEF: return UNDEF
                if isinstance(v, Concat) and v.n == 8 * h and ksize(kind) == h: return v.hi
                if isinstance(v, int): return wrapc(v >> (8 * h), 8 * ksize(kind))
                if isz(v) and v.sort() == IntS:
                    return s.tosigned((v / (2 ** (8 * h))) % (2 ** (8 * ksize(kind))), 8 * ksize(kind))
                raise Unsupported('inner load')
        if r.local:
            return UNDEF
        if kind == 'ptr':
            if p.off in r.ptrs:
                tr = r.ptrs[p.off][0]
                return Ptr(tr, (0,) * tr.nkeys)
            raise Unsupported('undeclared pointer at offset %d of %s' % (p.off, r.name))
        base = (r, p.off, kind)
        if base not in s.uf:
            s.uf[base] = z3.Const('%s.%d' % (r.name, p.off), ksort(kind))
        v = s.uf[base]
        st.mem[k] = (kind, v)
        s.rangefact(st, v, kind)
        return s.from_store(v, kind)

    def from_store(s, v, kind):
        if kind == 'i1' and isz(v) and v.sort() == IntS: return v != 0
        return v
    def to_store(s, v, kind):
        if isinstance(v, bool): return 1 if v else 0
        if isz(v) and v.sort() == BoolS: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def _punned_load(s, st, p, kind):
        r = p.r
        if r.fields is None: return None
        # same-size raw access
        for (o, k) in r.fields:
            if o == p.off and ksize(k) == ksize(kind):
                if k == 'ptr': return s.load(st, p, 'ptr', False)
                return s.load(st, p, k, False)
        h = ksize(kind) // 2
        lo = [(o, k) for (o, k) in r.fields if o == p.off and ksize(k) == h]
        hi = [(o, k) for (o, k) in r.fields if o == p.off + h and ksize(k) == h]
        if lo and hi:
            a = s.load(st, p, lo[0][1], False)
            b = s.load(st, Ptr(p.r, p.key, p.off + h), hi[0][1], False)
            return Concat(a, b, h * 8)
        return None

    def _dyn_terms(s, p):
        return p.dyn
    def _dyn_range(s, st, p, kind):
        """enumerate the concrete offsets a dynamic in-object index can take"""
        r = p.r
        size = r.stride if r.nkeys else r.size
        if size is None: raise Unsupported('dynamic index into object of unknown size %s' % r.name)
        if len(p.dyn) != 1: 
            # combine: enumerate both
            raise Unsupported('two dynamic indices')
        stride, t = p.dyn[0]
        outs = []
        n = size // stride
        if n > 64: raise Unsupported('dynamic index over %d slots' % n)
        for j in range(-n, n):
            o = p.off + j * stride
            if 0 <= o and o + ksize(kind) <= size:
                if r.nkeys and not s.check_field(r, o, kind): continue
                outs.append((j, o))
        return t, outs
    def _dyn_load(s, st, p, kind, check):
        t, outs = s._dyn_range(st, p, kind)
        if not outs: raise Unsupported('dynamic load: no slot')
        s.oblige(st, z3.Or(*[iv(t) == j for j, _ in outs]), 'in-object index of %s' % p.r.name, 'bounds')
        v = None
        for j, o in reversed(outs):
            if not s.quick_maybe(st, t, j): continue
            x = s.load(st, Ptr(p.r, p.key, o), kind, check)
            if x is UNDEF: x = s.fresh(kind)
            if v is None: v = x
            else: v = s.ite(iv(t) == j, x, v, kind)
        return v
    def quick_maybe(s, st, t, j):
        return True
    def _dyn_store(s, st, p, v, kind):
        t, outs = s._dyn_range(st, p, kind)
        s.oblige(st, z3.Or(*[iv(t) == j for j, _ in outs]), 'in-object index of %s' % p.r.name, 'bounds')
        for j, o in outs:
            q = Ptr(p.r, p.key, o)
            old = s.load(st, q, kind, False)
            if old is UNDEF: old = s.fresh(kind)
            s.store(st, q, s.ite(iv(t) == j, v, old, kind), kind, check=False)

    def ite(s, c, a, b, kind=None):
        if a is b: return a
        if is_py(a) and is_py(b) and a == b and type(a) == type(b): return a
        c = bv_(c)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        def conv(x):
            if isinstance(x, bool): return z3.BoolVal(x)
            if isinstance(x, Scaled): return iv(x.term())
            if kind in ('double', 'float'): return rv(x)
            if isinstance(x, Fraction): return rv(x)
            return iv(x) if isinstance(x, int) else x
        if isinstance(a, Concat) and isinstance(b, Concat) and a.n == b.n:
            return Concat(s.ite(c, a.lo, b.lo), s.ite(c, a.hi, b.hi), a.n)
        a, b = conv(a), conv(b)
        if not isz(a) or not isz(b): return None
        if a.sort() != b.sort():
            if a.sort() == BoolS: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == BoolS: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if a.sort() != b.sort(): return None
        return z3.If(c, a, b)

    def store(s, st, p, v, kind, check=True):
        if p is NULL:
            s.oblige(st, z3.BoolVal(False), 'null dereference', 'memory'); return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.dyn: return s._dyn_store(st, p, v, kind)
        r = p.r
        if r.const and check:
            s.oblige(st, z3.BoolVal(False), 'write to read-only region %s' % r.name, 'frame')
        if s.on_store and check: s.on_store(s, st, p, v, kind)
        if r.nkeys:
            if check: s.inbounds(st, p, 'write')
            if v is UNDEF: v = s.fresh(kind)
            if kind == 'ptr' or isinstance(v, (Ptr, Null)):
                if p.off not in r.ptrs: raise Unsupported('store of pointer into %s+%d' % (r.name, p.off))
                tr, own = r.ptrs[p.off][:2]
                a = s.get_arr(st, r, p.off, 'ptr')
                if isinstance(v, Null): val = z3.IntVal(-1)
                else:
                    if v.r is not tr or v.off != 0: raise Unsupported('pointer store: %r into %s expects %s' % (v, r.name, tr.name))
                    val = iv(v.key[-1]) if tr.nkeys else z3.IntVal(0)
                    if own is True and tr.nkeys:
                        s.oblige(st, z3.And(*[iv(x) == iv(y) for x, y in zip(v.key[:-1], p.key)]), 'pointer field owner', 'memory')
                st.mem[(r, p.off, 'ptr')] = z3.Store(a, *([iv(k) for k in p.key] + [val]))
                return
            if not s.check_field(r, p.off, kind):
                for (o, k) in r.fields:
                    if o == p.off and ksize(k) == ksize(kind): return s.store(st, p, v, k, False)
                h = ksize(kind) // 2
                lo = [(o, k) for (o, k) in r.fields if o == p.off and ksize(k) == h]
                hi = [(o, k) for (o, k) in r.fields if o == p.off + h and ksize(k) == h]
                if lo and hi:
                    if not isinstance(v, Concat):
                        if isinstance(v, int): v = Concat(wrapc(v, h * 8), wrapc(v >> (h * 8), h * 8), h * 8)
                        elif isz(v): v = Concat(s.tosigned(v % 2 ** (h * 8), h * 8), s.tosigned(v / 2 ** (h * 8), h * 8), h * 8)
                        else: raise Unsupported('split store')
                    s.store(st, p, v.lo, lo[0][1], False)
                    s.store(st, Ptr(r, p.key, p.off + h), v.hi, hi[0][1], False)
                    return
                raise Unsupported('store of %s at offset %d of %s' % (kind, p.off, r.name))
            for (o, k) in s.overlapping(r, p.off, kind):
                a = s.get_arr(st, r, o, k)
                st.mem[(r, o, k)] = z3.Store(a, *([iv(x) for x in p.key] + [z3.Const(fresh_name('ovl'), ksort(k))]))
            a = s.get_arr(st, r, p.off, kind)
            st.mem[(r, p.off, kind)] = z3.Store(a, *([iv(x) for x in p.key] + [s.sort_to(s.to_store(v, kind), kind)]))
            return
        # scalar object: drop overlapping pieces
        sz = ksize(kind)
        for o in range(p.off - 7, p.off + sz):
            k = (r, o)
            if k in st.mem and o != p.off:
                kd, ov = st.mem[k]
                osz = ksize(kd)
                if o < p.off + sz and p.off < o + osz:
                    # split the old piece when possible
                    if isinstance(ov, Concat) and osz == 8:
                        st.mem[k] = ('i32', ov.lo) ; st.mem[(r, o + 4)] = ('i32', ov.hi)
                        if (r, o) == (r, p.off): pass
                        if o <= p.off < o + 4: del st.mem[k]
                    else:
                        del st.mem[k]
                        for q in range(osz):
                            if not (p.off <= o + q < p.off + sz): st.mem[(r, o + q)] = ('i8', wrapc(ov >> (8 * q), 8) if isinstance(ov, int) else UNDEF)
        k = (r, p.off)
        if k in st.mem and ksize(st.mem[k][0]) > sz:
            kd, ov = st.mem[k]
            osz = ksize(kd)
            del st.mem[k]
            h = osz // 2
            if sz == h:
                hv = UNDEF
                if isinstance(ov, Concat): hv = ov.hi
                elif isinstance(ov, int): hv = wrapc(ov >> (8 * h), 8 * h)
                elif isz(ov) and ov.sort() == IntS: hv = s.tosigned(ov / 2 ** (8 * h), 8 * h)
                st.mem[(r, p.off + h)] = ('i%d' % (8 * h), hv)
        if isinstance(v, bool) or (isz(v) and v.sort() == BoolS): v = s.to_store(v, kind)
        st.mem[k] = (kind, v)

    def sort_to(s, v, kind):
        if isinstance(v, Scaled): v = v.term()
        if isinstance(v, (Concat,)): 
            v = s.concat_term(v)
        if isinstance(v, PtrInt): raise Unsupported('pointer int stored')
        if ksort(kind) == RealS:
            if isinstance(v, int) and v == 0: return z3.RealVal(0)
            v = rv(v)
            if v.sort() != RealS: raise Unsupported('int bits stored into real field')
            return v
        v = iv(v)
        if v.sort() != IntS: raise Unsupported('real bits stored into int field')
        return v
    def concat_term(s, c):
        lo = s.toU_nost(c.lo, c.n)
        return iv(lo) + iv(c.hi) * 2 ** c.n
    def toU_nost(s, x, n):
        if isinstance(x, int): return x % 2 ** n
        return z3.If(x >= 0, x, x + 2 ** n)

    def tosigned(s, u, n):
        return z3.If(u % (2 ** n) >= 2 ** (n - 1), u % (2 ** n) - 2 ** n, u % (2 ** n))

    def fresh(s, kind, name='u'):
        if kind in ('double', 'float'): return freal(name)
        if kind == 'i1': return fbool(name)
        if kind == 'ptr': raise Unsupported('fresh pointer')
        return fint(name)

    # ---------------------------------------------------------- pointer arithmetic
    def padd_const(s, p, c):
        if c == 0: return p
        if p is NULL: raise Unsupported('null + %d' % c)
        if p is UNDEF: return UNDEF
        off, key = p.off + c, p.key
        if p.r.nkeys:
            q, off2 = divmod(off, p.r.stride)
            if q: key = key[:-1] + (add(key[-1], q),)
            off = off2
        return Ptr(p.r, key, off, p.dyn)
    def padd_var(s, st, p, t, size):
        if isinstance(t, int): return s.padd_const(p, t * size)
        if isinstance(t, Scaled): t = t.term()
        if p is NULL: raise Unsupported('null + var')
        if p.r.nkeys and size % p.r.stride == 0:
            return Ptr(p.r, p.key[:-1] + (add(p.key[-1], mulc(t, size // p.r.stride)),), p.off, p.dyn)
        if p.r.nkeys and p.r.stride % size == 0 and size < p.r.stride and size == 1:
            # byte offset: must be a multiple of the stride
            f = s.factor(t, p.r.stride)
            if f is not None: return Ptr(p.r, p.key[:-1] + (add(p.key[-1], f),), p.off, p.dyn)
        if size == 1:
            for c in (32, 24, 16, 8, 4):
                f = s.factor(t, c)
                if f is not None: return s.padd_var(st, p, f, c)
            raise Unsupported('byte offset %s into %s' % (t, p.r.name))
        d = list(p.dyn)
        for i, (sz, tt) in enumerate(d):
            if sz == size:
                d[i] = (sz, add(tt, t)); break
        else: d.append((size, t))
        return Ptr(p.r, p.key, p.off, d)
    def factor(s, t, c):
        """t == c * result, structurally"""
        if isinstance(t, int): return t // c if t % c == 0 else None
        t = z3.simplify(t)
        if z3.is_int_value(t):
            v = t.as_long(); return v // c if v % c == 0 else None
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            v = t.arg(0).as_long()
            if v % c == 0:
                rest = t.arg(1) if t.num_args() == 2 else z3.Product(*[t.arg(i) for i in range(1, t.num_args())])
                return mulc(rest, v // c)
        if z3.is_add(t):
            parts = [s.factor(a, c) for a in t.children()]
            if all(x is not None for x in parts):
                r = 0
                for x in parts: r = add(r, x)
                return r
        return None

    # ---------------------------------------------------------- operands
    def val(s, st, o):
        k = o.k
        if k == 'reg':
            if o.v not in st.env: raise Unsupported('use of undefined %s' % o.v)
            return st.env[o.v]
        if k == 'int':
            if o.ty.k == 'i' and o.ty.n == 1: return bool(o.v)
            return wrapc(o.v, o.ty.n) if o.ty.k == 'i' else o.v
        if k == 'bool': return o.v
        if k == 'fp':
            v = o.v
            if v != v: raise Unsupported('NaN constant')
            if v in (float('inf'), float('-inf')):
                s.axiom_inf = True
                return Fraction(10) ** 400 * (1 if v > 0 else -1)
            return Fraction(v)
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = s.m.resolve(o.ty)
            if t.k == 'i': return 0 if t.n > 1 else False
            if t.k in ('double', 'float'): return Fraction(0)
            if t.k == 'ptr': return NULL
            if t.k == 'struct': return Agg([s.val(st, ir.Operand('zero', None, e)) for e in t.els])
            if t.k == 'array': return Agg([s.val(st, ir.Operand('zero', None, t.el)) for _ in range(t.n)])
            raise Unsupported('zeroinitializer of %r' % t)
        if k == 'global': return s.global_ptr(st, o.v)
        if k == 'gep':
            bt, ops = o.v
            return s.gep(st, bt, [s.val(st, x) for x in ops], ops)
        if k == 'agg':
            return Agg([s.val(st, x) for x in o.v])
        raise Unsupported('operand %r' % (o,))

    def global_ptr(s, st, nm):
        nm = s.m.aliases.get(nm, nm)
        if nm in s.m.funcs or nm in s.m.decls: return FuncRef(nm)
        if nm not in s.globals:
            const, ty, init = True, None, None
            size = None
            if nm in s.m.globals:
                const, ty, init = ir.parse_global_init(s.m, nm)
                try: size = s.m.sizeof(ty)
                except Exception: size = None
            r = Region(nm, size=size)
            s.globals[nm] = r
            if const and init is not None:
                r.init = {}
                s._flatten_const(r, 0, ty, init)
        r = s.globals[nm]
        if r.init:
            for off, (kd, v) in r.init.items():
                st.mem.setdefault((r, off), (kd, v))
        return Ptr(r)
    def _flatten_const(s, r, off, ty, v):
        t = s.m.resolve(ty)
        if v.k == 'undef': return
        if t.k == 'i': r.init[off] = ('i%d' % max(t.n, 8), wrapc(v.v, t.n) if v.k == 'int' else 0)
        elif t.k in ('double', 'float'): r.init[off] = (t.k, Fraction(v.v) if v.k == 'fp' else Fraction(0))
        elif t.k == 'ptr': return
        elif t.k == 'array':
            es = s.m.sizeof(t.el)
            if v.k == 'zero':
                for i in range(min(t.n, 4096)): s._flatten_const(r, off + i * es, t.el, ir.Operand('zero', None, t.el))
            elif v.k == 'str':
                for i, b in enumerate(v.v): r.init[off + i] = ('i8', wrapc(b, 8))
            else:
                for i, e in enumerate(v.v): s._flatten_const(r, off + i * es, t.el, e)
        elif t.k == 'struct':
            for i, e in enumerate(t.els):
                s._flatten_const(r, off + s.m.field_off(t, i), e, ir.Operand('zero', None, e) if v.k == 'zero' else v.v[i])

    def gep(s, st, bt, vals, ops):
        p = vals[0]
        if p is UNDEF: return UNDEF
        ty = bt
        idx = vals[1:]
        first = True
        for v in idx:
            if isinstance(v, PtrInt): raise Unsupported('gep by pointer int')
            if first:
                sz = s.m.sizeof(ty)
                if p is NULL and isinstance(v, int) and v == 0: first = False; continue
                p = s.padd_var(st, p, v, sz); first = False
                continue
            t = s.m.resolve(ty)
            if t.k == 'struct':
                p = s.padd_const(p, s.m.field_off(t, v)); ty = t.els[v]
            elif t.k in ('array', 'vec'):
                p = s.padd_var(st, p, v, s.m.sizeof(t.el)); ty = t.el
            else: raise Unsupported('gep into %r' % t)
        return p

    # ---------------------------------------------------------- integer helpers
    def toU(s, st, x, n):
        if isinstance(x, bool): return 1 if x else 0
        if isinstance(x, int): return x % (1 << n)
        if isinstance(x, Scaled): x = x.term()
        if isinstance(x, Concat): x = s.concat_term(x)
        if s.quick(st, x >= 0): return x
        return z3.If(x >= 0, x, x + 2 ** n)
    def fit(s, st, x, n, nsw, what):
        """bring a mathematical result into signed n-bit range"""
        if isinstance(x, int):
            return wrapc(x, n)
        lo, hi = -2 ** (n - 1), 2 ** (n - 1)
        rng = z3.And(x >= lo, x < hi)
        if s.quick(st, rng): return x
        if nsw and s.overflow:
            s.oblige(st, rng, 'no signed overflow in %s' % what, 'overflow')
            return x
        return s.tosigned(x, n)
    def asint(s, st, v, n=64):
        if isinstance(v, Scaled): return v.term()
        if isinstance(v, Concat): return s.concat_term(v)
        if isinstance(v, bool): return 1 if v else 0
        if isz(v) and v.sort() == BoolS: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v is UNDEF: return fint('undef')
        if isz(v) and v.sort() == RealS: raise Unsupported('integer operation on floating-point bits')
        if isinstance(v, (Ptr, PtrInt, Null, Agg)): raise Unsupported('integer operation on %r' % (v,))
        if isinstance(v, Fraction): raise Unsupported('integer op on float bits')
        return v
    def asreal(s, v):
        if v is UNDEF: return freal('undef')
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool): return Fraction(v)
        if isz(v) and v.sort() == RealS: return v
        raise Unsupported('floating-point operation on %r' % (v,))
    def asbool(s, v):
        if v is UNDEF: return fbool('undef')
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isz(v) and v.sort() == BoolS: return v
        if isz(v): return v != 0
        raise Unsupported('bool of %r' % (v,))
    def func(s, name, *sorts):
        if name not in s.uf: s.uf[name] = z3.Function(name, *sorts)
        return s.uf[name]

    def binop(s, st, ins):
        op, ty = ins.op, ins.ty
        a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
        if ty.k in ('double', 'float'):
            a, b = s.asreal(a), s.asreal(b)
            py = isinstance(a, Fraction) and isinstance(b, Fraction)
            if op == 'fadd': return a + b if py else (b if isinstance(a, Fraction) and a == 0 else a if isinstance(b, Fraction) and b == 0 else rv(a) + rv(b))
            if op == 'fsub': return a - b if py else (a if isinstance(b, Fraction) and b == 0 else rv(a) - rv(b))
            if op == 'fmul':
                if py: return a * b
                if (isinstance(a, Fraction) and a == 0) or (isinstance(b, Fraction) and b == 0): return Fraction(0)
                if isinstance(a, Fraction) and a == 1: return b
                if isinstance(b, Fraction) and b == 1: return a
                return rv(a) * rv(b)
            if op == 'fdiv':
                if py and b != 0: return a / b
                if s.safety and getattr(s, 'div_check', True):
                    s.oblige(st, rv(b) != 0, 'division by zero', 'arith')
                    if isz(a) and isz(b) and a.eq(b): return Fraction(1)
                if isinstance(b, Fraction): return rv(a) * rv(1 / b) if b != 0 else freal('div0')
                return rv(a) / rv(b)
            raise Unsupported(op)
        if ty.k != 'i': raise Unsupported('binop on %r' % ty)
        n = ty.n
        if n == 1:
            a, b = s.asbool(a), s.asbool(b)
            if op == 'and': return (a and b) if isinstance(a, bool) and isinstance(b, bool) else (z3.simplify(And(a, b)))
            if op == 'or': return (a or b) if isinstance(a, bool) and isinstance(b, bool) else (z3.simplify(Or(a, b)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if isinstance(b, bool): return z3.Not(a) if b else a
                if isinstance(a, bool): return z3.Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        # pointer differences
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                p, q = a.p, b.p
                if p is NULL and q is NULL: return 0
                if p is NULL or q is NULL or p.r is not q.r: raise Unsupported('difference of pointers into %r and %r' % (p, q))
                if p.r.nkeys == 0: return p.off - q.off
                d = add(p.key[-1], mulc(q.key[-1], -1)) if not (isz(q.key[-1])) else (iv(p.key[-1]) - q.key[-1])
                if isz(d): d = z3.simplify(d)
                if isz(d) and z3.is_int_value(d): d = d.as_long()
                if isinstance(d, int): return d * p.r.stride + p.off - q.off
                if p.off == q.off: return Scaled(p.r.stride, d)
                return Scaled(p.r.stride, d, p.off - q.off)
            if op == 'add' and isinstance(a, PtrInt) and not isinstance(b, PtrInt): return PtrInt(s.padd_var(st, a.p, b, 1))
            raise Unsupported('pointer integer arithmetic ' + op)
        if isinstance(a, Scaled) and isinstance(b, int):
            if op == 'ashr' and a.d == 0 and a.c % (1 << b) == 0:
                c = a.c >> b
                return a.t if c == 1 else Scaled(c, a.t)
            if op == 'lshr' and a.d == 0 and a.c % (1 << b) == 0 and s.quick(st, a.t >= 0):
                c = a.c >> b
                return a.t if c == 1 else Scaled(c, a.t)
            if op in ('sdiv',) and a.d == 0 and a.c % b == 0:
                c = a.c // b
                return a.t if c == 1 else Scaled(c, a.t)
            if op == 'udiv' and a.d == 0 and a.c % b == 0 and s.quick(st, a.t >= 0):
                c = a.c // b
                return a.t if c == 1 else Scaled(c, a.t)
        if isinstance(a, Concat) and isinstance(b, int):
            if op == 'lshr' and b == a.n: return s.toU(st, a.hi, a.n)
            if op == 'ashr' and b == a.n: return a.hi
            if op == 'and' and b == (1 << a.n) - 1: return s.toU(st, a.lo, a.n)
        if op == 'or':
            # (zext hi << n) | zext lo  -> Concat handled arithmetically
            pass
        a, b = s.asint(st, a), s.asint(st, b)
        flags = ins.x
        what = s.where(ins)
        py = isinstance(a, int) and isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and not py and not isinstance(a, int) and not isinstance(b, int): r = a * b
            else:
                if py: r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                elif op == 'add': r = add(a, b)
                elif op == 'sub': r = iv(a) - iv(b) if not (isinstance(b, int) and b == 0) else a
                else: r = mulc(a, b) if isinstance(b, int) else mulc(b, a)
            return s.fit(st, r, n, 'nsw' in flags, what)
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if py: return wrapc((a % (1 << n)) & (b % (1 << n)), n)
                ub = b % (1 << n)
                if ub == 0: return 0
                # contiguous mask
                sh = (ub & -ub).bit_length() - 1
                w = ub >> sh
                if w & (w + 1) == 0:
                    k = w.bit_length()
                    if sh == 0:
                        if s.quick(st, z3.And(a >= 0, a < (1 << k))): return a
                        r = a % (1 << k)
                        return r if k < n else a
                    if sh + k == n:   # ~(2^sh-1)
                        return a - a % (1 << sh)
                    return ((a / (1 << sh)) % (1 << k)) * (1 << sh)
            f = s.func('and%d' % n, IntS, IntS, IntS)
            r = f(iv(a), iv(b))
            st.assume(z3.Implies(z3.And(iv(a) >= 0, iv(b) >= 0), z3.And(r >= 0, r <= iv(a), r <= iv(b))))
            return r
        if op == 'or':
            if py: return wrapc((a % (1 << n)) | (b % (1 << n)), n)
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
            if 'disjoint' in flags: return s.fit(st, add(a, b), n, False, what)
            for x, y in ((a, b), (b, a)):
                for k in (1, 8, 16, 21, 32, 42, 2, 4):
                    if k < n and s.quick(st, z3.And(iv(x) % (1 << k) == 0, iv(y) >= 0, iv(y) < (1 << k)), 200):
                        return s.fit(st, add(x, y), n, False, what)
            r = s.func('or%d' % n, IntS, IntS, IntS)(iv(a), iv(b))
            s.rangefact(st, r, 'i%d' % n)
            return r
        if op == 'xor':
            if py: return wrapc((a % (1 << n)) ^ (b % (1 << n)), n)
            if isinstance(b, int) and b == -1: return -1 - a
            if isinstance(a, int) and a == -1: return -1 - b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                ub = b % (1 << n)
                if bin(ub).count('1') <= 3:
                    r = a
                    for k in range(n):
                        if ub >> k & 1:
                            if k == n - 1: r = z3.If(r < 0, r + 2 ** k, r - 2 ** k)
                            else: r = z3.If((r / 2 ** k) % 2 == 0, r + 2 ** k, r - 2 ** k)
                    return r
            r = s.func('xor%d' % n, IntS, IntS, IntS)(iv(a), iv(b))
            s.rangefact(st, r, 'i%d' % n)
            return r
        if op == 'shl':
            if isinstance(b, int): return s.fit(st, mulc(a, 1 << b), n, False, what)
            if isinstance(a, int) and a > 0:
                pw = s.pow2(st, b); return s.fit(st, pw * a, n, False, what)
            raise Unsupported('variable shift')
        if op == 'lshr':
            if isinstance(b, int):
                u = s.toU(st, a, n)
                return u >> b if isinstance(u, int) else u / (1 << b)
            raise Unsupported('variable shift')
        if op == 'ashr':
            if isinstance(b, int): return a >> b if isinstance(a, int) else a / (1 << b)
            raise Unsupported('variable shift')
        if op in ('udiv', 'urem'):
            a, b = s.toU(st, a, n), s.toU(st, b, n)
            if not isinstance(b, int): s.oblige(st, iv(b) != 0, 'integer division by zero', 'arith')
            if isinstance(a, int) and isinstance(b, int): r = a // b if op == 'udiv' else a % b
            else: r = iv(a) / iv(b) if op == 'udiv' else iv(a) % iv(b)
            return s.fit(st, r, n, False, what) if isinstance(r, int) else r
        if op in ('sdiv', 'srem'):
            if not isinstance(b, int): s.oblige(st, iv(b) != 0, 'integer division by zero', 'arith')
            if py:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'sdiv' else a - b * q
            if s.quick(st, z3.And(iv(a) >= 0, iv(b) > 0)):
                return iv(a) / iv(b) if op == 'sdiv' else iv(a) % iv(b)
            A, B = iv(a), iv(b)
            absA, absB = z3.If(A >= 0, A, -A), z3.If(B >= 0, B, -B)
            q = z3.If((A >= 0) == (B >= 0), absA / absB, -(absA / absB))
            return q if op == 'sdiv' else A - B * q
        raise Unsupported(op)
    def pow2(s, st, b):
        f = s.func('pow2', IntS, IntS)
        st.assume(z3.And(f(iv(b)) >= 1))
        return f(iv(b))

    def where(s, ins):
        return (ins.res or ins.op) + ' in ' + s.fn_label

    def icmp(s, st, ins):
        pred = ins.x
        a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
        ty = ins.a[0].ty
        if ty.k == 'ptr': return s.pcmp(st, pred, a, b)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): return s.pcmp(st, pred, a.p, b.p)
        n = ty.n
        if n == 1:
            a, b = s.asbool(a), s.asbool(b)
            if pred == 'eq': return a == b
            if pred == 'ne': return (a != b) if isinstance(a, bool) and isinstance(b, bool) else z3.Xor(bv_(a), bv_(b))
            raise Unsupported('icmp i1 ' + pred)
        if isinstance(a, Concat) and isinstance(b, Concat) and pred in ('eq', 'ne'):
            e = z3.And(iv(a.lo) == iv(b.lo), iv(a.hi) == iv(b.hi))
            return e if pred == 'eq' else z3.Not(e)
        if isinstance(a, Scaled) and isinstance(b, int) and a.d == 0 and b == 0 and pred in ('eq', 'ne', 'sgt', 'slt', 'sge', 'sle'):
            a = a.t
        if isinstance(a, Scaled) and isinstance(b, Scaled) and a.c == b.c and a.d == b.d and pred in ('eq', 'ne', 'sgt', 'slt', 'sge', 'sle'):
            a, b = a.t, b.t
        a, b = s.asint(st, a), s.asint(st, b)
        if pred[0] == 'u':
            a, b = s.toU(st, a, n), s.toU(st, b, n)
        if isinstance(a, int) and isinstance(b, int):
            return {'eq': a == b, 'ne': a != b, 'sgt': a > b, 'ugt': a > b, 'sge': a >= b, 'uge': a >= b, 'slt': a < b, 'ult': a < b, 'sle': a <= b, 'ule': a <= b}[pred]
        a, b = iv(a), iv(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'sgt': lambda: a > b, 'ugt': lambda: a > b, 'sge': lambda: a >= b, 'uge': lambda: a >= b,
                'slt': lambda: a < b, 'ult': lambda: a < b, 'sle': lambda: a <= b, 'ule': lambda: a <= b}[pred]()
    def pcmp(s, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return fbool('undef')
        if isinstance(a, FuncRef) or isinstance(b, FuncRef):
            return pred == 'ne' 
        if isinstance(a, Null) and isinstance(b, Null): return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        if isinstance(a, Null): 
            a, b = b, a
            pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
        if isinstance(b, Null):
            nn = s.is_null(st, a)
            if pred == 'eq': return nn
            if pred == 'ne': return Not(nn)
            raise Unsupported('ordered compare with null')
        if a.r is not b.r:
            if pred == 'eq': return False
            if pred == 'ne': return True
            raise Unsupported('ordered comparison of pointers into different regions')
        if a.r.nkeys == 0:
            if a.dyn or b.dyn: raise Unsupported('compare dyn ptr')
            x, y = a.off, b.off
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        same = [iv(x) == iv(y) for x, y in zip(a.key[:-1], b.key[:-1])]
        if a.off == b.off: x, y = a.key[-1], b.key[-1]
        else: x, y = add(mulc(a.key[-1], a.r.stride), a.off), add(mulc(b.key[-1], b.r.stride), b.off)
        if isinstance(x, int) and isinstance(y, int) and not same:
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        x, y = iv(x), iv(y)
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        if pred == 'eq': return And(*(same + [r]))
        if pred == 'ne': return Or(*([z3.Not(q) for q in same] + [r]))
        return r
    def is_null(s, st, p):
        if p.r.nkeys and getattr(p.r, 'nullable', False): return iv(p.key[-1]) == -1
        return False

    def fcmp(s, st, ins):
        pred = ins.x
        a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
        if pred in ('ord',): return True
        if pred in ('uno',): return False
        if pred == 'true': return True
        if pred == 'false': return False
        a, b = s.asreal(a), s.asreal(b)
        p = pred[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        a, b = rv(a), rv(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[p]()

    def cast(s, st, ins):
        op, dty = ins.op, ins.ty
        sty = ins.a[0].ty
        v = s.val(st, ins.a[0])
        if op == 'ptrtoint': return PtrInt(v) if not isinstance(v, Null) else PtrInt(NULL)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            if isinstance(v, (Ptr, Null)): return v
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return v
        if op == 'fptrunc': return s.func('round_to_float', RealS, RealS)(rv(s.asreal(v)))   # precision loss is not modelled as exact
        if op == 'fpext': return s.asreal(v)
        if op in ('sitofp', 'uitofp'):
            if sty.n == 1:
                b = s.asbool(v)
                if isinstance(b, bool): return Fraction((1 if op == 'uitofp' else -1) if b else 0)
                return z3.If(b, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
            v = s.asint(st, v)
            if op == 'uitofp': v = s.toU(st, v, sty.n)
            return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            v = s.asreal(v)
            if isinstance(v, Fraction): return int(v)
            if s.quick(st, v >= 0): t = z3.ToInt(v)
            else: t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if s.name_fptoi:
                t0, t = t, s.named_fptoi(v); st.assume(t == t0)
            n = dty.n
            if op == 'fptosi': s.oblige(st, z3.And(t >= -2 ** (n - 1), t < 2 ** (n - 1)), 'float-to-int conversion in range (%s)' % s.where(ins), 'overflow')
            else:
                s.oblige(st, z3.And(t >= 0, t < 2 ** n), 'float-to-uint conversion in range (%s)' % s.where(ins), 'overflow')
            return t
        if isinstance(v, (PtrInt,)): raise Unsupported('cast of pointer integer')
        if op == 'zext':
            if sty.n == 1:
                b = s.asbool(v)
                return (1 if b else 0) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, (Scaled, Concat)): v = s.asint(st, v)
            if v is UNDEF: return UNDEF
            return s.toU(st, v, sty.n)
        if op == 'sext':
            if sty.n == 1:
                b = s.asbool(v)
                return (-1 if b else 0) if isinstance(b, bool) else z3.If(b, z3.IntVal(-1), z3.IntVal(0))
            if v is UNDEF: return UNDEF
            return s.asint(st, v)
        if op == 'trunc':
            if isinstance(v, Concat) and dty.n == v.n: return v.lo
            if v is UNDEF: return UNDEF
            if dty.n == 1:
                v = s.asint(st, v)
                return bool(v & 1) if isinstance(v, int) else s._odd(st, v)
            v = s.asint(st, v)
            return s.fit(st, v, dty.n, False, s.where(ins))
        raise Unsupported(op)
    def _odd(s, st, v):
        if s.quick(st, z3.And(v >= 0, v <= 1)): return v != 0
        return v % 2 == 1

    # ---------------------------------------------------------- execution of one function
    def loops_for(s, f):
        if f.name not in s.loopinfo:
            ir.ensure_parsed(s.m, f)
            s.loopinfo[f.name] = ir.loops_of(f)
        return s.loopinfo[f.name]

    def run_function(s, fname, st, args):
        """execute fname from its entry with given argument values; returns [(state, ret)]"""
        fname = s.m.aliases.get(fname, fname)
        f = s.m.funcs[fname]
        ir.ensure_parsed(s.m, f)
        s.loops_for(f)
        old_env, old_block, old_prev, old_loops, old_frame = st.env, st.block, st.prev, st.loops, st.frame
        st = st.copy()
        st.env = {}
        for (ty, pn), v in zip(f.params, args): st.env[pn] = v
        st.block, st.prev, st.loops = f.entry, None, {}
        st.frame = (f.name, next(_cnt))
        out = []
        s.explore(f, [st], out, None)
        res = []
        for t, ret in out:
            t.retenv = t.env
            t.env, t.block, t.prev, t.loops, t.frame = old_env, old_block, old_prev, old_loops, old_frame
            t.env = dict(old_env)
            res.append((t, ret))
        return res

    def explore(s, f, work, out, trial):
        """trial: None or (Loop, backedge_collector): states leaving the loop are dropped"""
        loops = s.loops_for(f)
        npaths = 0
        while work:
            st = work.pop()
            # block entry processing
            b = st.block
            if trial is not None and b not in trial[0].body:
                continue
            if b in loops and st.tag != 'loop_entered':
                L = loops[b]
                if b in st.loops and st.prev in L.body:
                    # back edge
                    st2 = s.eval_phis(f, st)
                    if isinstance(st.loops[b], int):      # unrolled loop with a concrete trip count
                        st2.loops = dict(st2.loops); st2.loops[b] = st.loops[b] + 1
                        if st2.loops[b] > s.max_unroll + 1: raise Unsupported('unrolled loop does not end in ' + f.name)
                        st2.tag = 'loop_entered'; work.append(st2); continue
                    if trial is not None and trial[0] is L:
                        trial[1].append(st2)
                    else:
                        s.close_loop(f, L, st2)
                    continue
                n = s.trip_count(f, L, st) if not s.run_concrete else 0   # run_concrete: loops are followed path by path (every branch has to resolve)
                if n is not None and n <= s.max_unroll:
                    st2 = s.eval_phis(f, st)
                    st2.loops = dict(st2.loops); st2.loops[b] = 0
                    st2.tag = 'loop_entered'; work.append(st2); continue
                st2 = s.open_loop(f, L, st)
                if st2 is None: continue
                st2.tag = 'loop_entered'
                work.append(st2)
                continue
            if st.tag != 'loop_entered':
                st = s.eval_phis(f, st) if st.prev is not None else st
            st.tag = None
            npaths += 1
            if npaths > s.max_paths: raise Unsupported('path explosion in ' + f.name)
            s.run_block(f, st, work, out)

    def trip_count(s, f, L, st):
        """number of iterations when an exit test compares a counter with constant start, step and bound; None otherwise"""
        defs = {}
        for b in L.body:
            for i in f.blocks[b]:
                if i.res: defs[i.res] = i
        def cval(o):
            if o.k == 'int': return wrapc(o.v, o.ty.n) if o.ty.k == 'i' else None
            if o.k == 'reg' and o.v not in defs:
                v = st.env.get(o.v)
                return v if isinstance(v, int) and not isinstance(v, bool) else None
            return None
        phis = {}
        for p in f.blocks[L.header]:
            if p.op != 'phi': break
            if p.ty.k != 'i': continue
            ini, step = None, None
            for v, lb in p.a:
                if lb in L.body:
                    d = defs.get(v.v) if v.k == 'reg' else None
                    if d is not None and d.op == 'add' and d.a[0].k == 'reg' and d.a[0].v == p.res and d.a[1].k == 'int' and step in (None, d.a[1].v): step = d.a[1].v
                    else: step = 'bad'
                elif lb == st.prev: ini = cval(v)
            if ini is not None and step not in (None, 'bad', 0): phis[p.res] = (ini, wrapc(step, p.ty.n))
        best = None
        for b in L.body:
            t = f.blocks[b][-1]
            if t.op != 'cbr' or all(x in L.body for x in t.x): continue
            c = defs.get(t.a[0].v) if t.a[0].k == 'reg' else None
            if c is None or c.op != 'icmp': continue
            x, y = c.a
            pred = c.x
            if cval(x) is not None: x, y = y, x; pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            bound = cval(y)
            if bound is None or x.k != 'reg': continue
            off = 0; ph = x.v
            d = defs.get(ph)
            if ph not in phis and d is not None and d.op == 'add' and d.a[0].k == 'reg' and d.a[1].k == 'int': ph, off = d.a[0].v, wrapc(d.a[1].v, d.ty.n)
            if ph not in phis: continue
            ini, step = phis[ph]
            stay = t.x[0] in L.body
            for k in range(s.max_unroll + 2):
                a = ini + step * k + off
                ua, ub = a % 2 ** 64, bound % 2 ** 64
                r = {'eq': a == bound, 'ne': a != bound, 'slt': a < bound, 'sle': a <= bound, 'sgt': a > bound, 'sge': a >= bound, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pred]
                if r != stay:
                    best = k if best is None else min(best, k); break
        return best

    def eval_phis(s, f, st):
        vals = []
        for ins in f.blocks[st.block]:
            if ins.op != 'phi': break
            for v, lb in ins.a:
                if lb == st.prev:
                    vals.append((ins.res, s.val(st, v))); break
            else: raise Unsupported('phi without edge')
        for r, v in vals: st.env[r] = v
        return st

    def run_block(s, f, st, work, out, start=0):
        blk = f.blocks[st.block]
        i = start
        while i < len(blk):
            ins = blk[i]
            op = ins.op
            if op == 'phi':
                i += 1; continue
            if op == 'br':
                st.prev, st.block = st.block, ins.x[0]
                work.append(st); return
            if op == 'cbr':
                c = s.asbool(s.val(st, ins.a[0]))
                ta, tb = ins.x
                if isz(c): c = z3.simplify(c)
                if isz(c) and z3.is_true(c): c = True
                elif isz(c) and z3.is_false(c): c = False
                if isinstance(c, bool):
                    st.prev, st.block = st.block, ta if c else tb
                    work.append(st); return
                if ta == tb:
                    st.prev, st.block = st.block, ta; work.append(st); return
                fa = s.feasible(st, c); fb = s.feasible(st, z3.Not(c))
                if fa and fb:
                    t = st.copy()
                    t.assume(z3.Not(c)); t.prev, t.block = st.block, tb; t.trace = t.trace + ((st.block, tb),)
                    work.append(t)
                    st.trace = st.trace + ((st.block, ta),)
                    st.assume(c); st.prev, st.block = st.block, ta
                    work.append(st)
                elif fa:
                    st.assume(c); st.prev, st.block = st.block, ta; work.append(st)
                elif fb:
                    st.assume(z3.Not(c)); st.prev, st.block = st.block, tb; work.append(st)
                return
            if op == 'switch':
                v = s.asint(st, s.val(st, ins.a[0]))
                d, cases = ins.x
                cases = [(wrapc(c, ins.ty.n), l) for c, l in cases]
                if isinstance(v, int):
                    tgt = d
                    for c, l in cases:
                        if c == v: tgt = l
                    st.prev, st.block = st.block, tgt; work.append(st); return
                for c, l in cases:
                    if s.feasible(st, v == c):
                        t = st.copy(); t.assume(v == c); t.prev, t.block = st.block, l; work.append(t)
                dc = z3.And(*[v != c for c, _ in cases]) if cases else z3.BoolVal(True)
                if s.feasible(st, dc):
                    st.assume(dc); st.prev, st.block = st.block, d; work.append(st)
                return
            if op == 'ret':
                out.append((st, s.val(st, ins.a[0]) if ins.a else None)); return
            if op == 'unreachable':
                s.oblige(st, z3.BoolVal(False), 'unreachable code reached', 'memory')
                return
            if op == 'call':
                res = s.call(f, st, ins)
                if res is None:      # path ends (noreturn)
                    return
                if len(res) == 1:
                    st, v = res[0]
                    if ins.res: st.env[ins.res] = v
                    i += 1; continue
                for t, v in res:
                    if ins.res: t.env[ins.res] = v
                    s.run_block(f, t, work, out, i + 1)
                return
            if op == 'select':
                c = s.asbool(s.val(st, ins.a[0]))
                a, b = s.val(st, ins.a[1]), s.val(st, ins.a[2])
                if isz(c):
                    c = z3.simplify(c)
                    if z3.is_true(c): c = True
                    elif z3.is_false(c): c = False
                if isinstance(c, bool):
                    st.env[ins.res] = a if c else b; i += 1; continue
                if ins.ty.k == 'ptr' or isinstance(a, (Ptr, Null, PtrInt, Agg)):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.off == b.off and not a.dyn and not b.dyn:
                        key = tuple(x if (isinstance(x, int) and isinstance(y, int) and x == y) else z3.If(c, iv(x), iv(y)) for x, y in zip(a.key, b.key))
                        st.env[ins.res] = Ptr(a.r, key, a.off); i += 1; continue
                    t = st.copy(); t.assume(z3.Not(c)); t.env[ins.res] = b
                    ok2 = s.feasible(st, z3.Not(c)); ok1 = s.feasible(st, c)
                    st.assume(c); st.env[ins.res] = a
                    if ok2: s.run_block(f, t, work, out, i + 1)
                    if ok1: 
                        i += 1; continue
                    return
                if ins.ty.k == 'i' and ins.ty.n == 1:
                    a, b = s.asbool(a), s.asbool(b)
                v = s.ite(c, a, b, kindof(ins.ty))
                if v is None:
                    t = st.copy(); t.assume(z3.Not(c)); t.env[ins.res] = b
                    st.assume(c); st.env[ins.res] = a
                    s.run_block(f, t, work, out, i + 1)
                    i += 1; continue
                st.env[ins.res] = v
                i += 1; continue
            s.step(f, st, ins)
            i += 1

    def step(s, f, st, ins):
        op = ins.op
        if op in ir.BIN: st.env[ins.res] = s.binop(st, ins)
        elif op == 'icmp': st.env[ins.res] = s.icmp(st, ins)
        elif op == 'fcmp': st.env[ins.res] = s.fcmp(st, ins)
        elif op in ir.CAST: st.env[ins.res] = s.cast(st, ins)
        elif op == 'getelementptr':
            st.env[ins.res] = s.gep(st, ins.x, [s.val(st, o) for o in ins.a], ins.a)
        elif op == 'load':
            p = s.val(st, ins.a[0])
            t = s.m.resolve(ins.ty)
            if t.k in ('struct', 'array', 'vec'): raise Unsupported('aggregate load')
            st.env[ins.res] = s.load(st, p, kindof(t))
        elif op == 'store':
            v, p = s.val(st, ins.a[0]), s.val(st, ins.a[1])
            t = s.m.resolve(ins.ty)
            if t.k in ('struct', 'array', 'vec'): raise Unsupported('aggregate store')
            s.store(st, p, v, kindof(t))
        elif op == 'alloca':
            n = s.m.sizeof(ins.x)
            if ins.a:
                c = s.val(st, ins.a[0])
                if not isinstance(c, int): raise Unsupported('dynamic alloca')
                n *= c
            r = Region('%s%s' % (ins.res, ''), size=n, local=True)
            st.env[ins.res] = Ptr(r)
        elif op == 'fneg':
            v = s.asreal(s.val(st, ins.a[0])); st.env[ins.res] = -v
        elif op == 'freeze':
            v = s.val(st, ins.a[0])
            st.env[ins.res] = s.fresh(kindof(ins.ty)) if v is UNDEF else v
        elif op == 'extractvalue':
            v = s.val(st, ins.a[0])
            for i in ins.x: v = v[i] if v is not UNDEF else UNDEF
            st.env[ins.res] = v
        elif op == 'insertvalue':
            v, e = s.val(st, ins.a[0]), s.val(st, ins.a[1])
            if len(ins.x) != 1: raise Unsupported('nested insertvalue')
            t = s.m.resolve(ins.a[0].ty)
            n = len(t.els) if t.k == 'struct' else t.n
            l = Agg(v) if v is not UNDEF else Agg([UNDEF] * n)
            l[ins.x[0]] = e
            st.env[ins.res] = l
        elif op == 'fence': pass
        elif op == 'atomicrmw':
            p, v = s.val(st, ins.a[0]), s.val(st, ins.a[1])
            s.atomic(st, ins, p, v)
        else:
            raise Unsupported('instruction: ' + ins.text[:120])

    def atomic(s, st, ins, p, v):
        if s.on_atomic:
            r = s.on_atomic(s, st, ins, p, v)
            if r is not NotImplemented:
                st.env[ins.res] = r; return
        kind = kindof(ins.ty)
        old = s.load(st, p, kind)
        if ins.x in ('fadd', 'fsub'):
            a, b = rv(s.asreal(old)), rv(s.asreal(v))
            s.store(st, p, z3.simplify(a + b if ins.x == 'fadd' else a - b), kind); st.env[ins.res] = old; return
        v = s.asint(st, v)
        if ins.x == 'add': new = s.fit(st, add(s.asint(st, old), v), ins.ty.n, False, 'atomic')
        elif ins.x == 'sub': new = s.fit(st, add(s.asint(st, old), mulc(v, -1)), ins.ty.n, False, 'atomic')
        elif ins.x == 'xchg': new = v
        else: raise Unsupported('atomicrmw ' + ins.x)
        s.store(st, p, new, kind)
        st.env[ins.res] = old

    # ---------------------------------------------------------- calls
    def call(s, f, st, ins):
        fn = ins.x
        if fn[0] == '%':
            fv = s.val(st, ir.Operand('reg', fn, PTR))
            if isinstance(fv, FuncRef): fn = fv.n
            else: raise Unsupported('indirect call')
        fn = s.m.aliases.get(fn, fn)
        nm = fn.lstrip('@').strip('"')
        if nm.startswith('llvm.'):
            return [(st, s.intrinsic(st, ins, nm))]
        dem = s.unit.dem.get(fn, nm)
        args = [s.val(st, a) for a in ins.a]
        for rx, h in s.contracts:
            if re.search(rx, dem):
                s.used_contracts[dem] = rx
                r = h(s, st, ins, args)
                if r is NORETURN: return None
                if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State): return r
                if isinstance(r, list) and not r: return None
                return [(st, r)]
        b = builtin(s, st, ins, dem, args)
        if b is NORETURN: return None
        if b is not NotImplemented: return [(st, b)]
        if fn in s.m.funcs and any(re.search(rx, dem) for rx in s.inline_bodies):
            return s.run_function(fn, st, args)
        raise Unsupported('call without contract: ' + dem[:200])

    def intrinsic(s, st, ins, nm):
        a = ins.a
        base = nm.split('.')[1]
        if base in ('lifetime', 'dbg', 'experimental', 'invariant', 'donothing', 'prefetch', 'stacksave', 'stackrestore', 'assume', 'var'): 
            if nm.startswith('llvm.assume'):
                pass
            return UNDEF
        if base in ('smin', 'smax', 'umin', 'umax'):
            x, y = s.asint(st, s.val(st, a[0])), s.asint(st, s.val(st, a[1]))
            n = ins.ty.n
            if base[0] == 'u':
                ux, uy = s.toU(st, x, n), s.toU(st, y, n)
            else: ux, uy = x, y
            if isinstance(ux, int) and isinstance(uy, int):
                return (x if ux < uy else y) if base.endswith('min') else (x if ux > uy else y)
            c = iv(ux) < iv(uy) if base.endswith('min') else iv(ux) > iv(uy)
            return z3.If(c, iv(x), iv(y))
        if base == 'abs':
            x = s.asint(st, s.val(st, a[0]))
            return abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x)
        if base == 'fabs':
            x = s.asreal(s.val(st, a[0]))
            return abs(x) if isinstance(x, Fraction) else z3.If(x >= 0, x, -x)
        if base in ('maxnum', 'minnum', 'maximum', 'minimum'):
            x, y = rv(s.asreal(s.val(st, a[0]))), rv(s.asreal(s.val(st, a[1])))
            return z3.If(x >= y, x, y) if base.startswith('max') else z3.If(x <= y, x, y)
        if base == 'sqrt': return s.sqrt(st, s.asreal(s.val(st, a[0])))
        if base == 'fmuladd' or base == 'fma':
            x, y, zz = [rv(s.asreal(s.val(st, q))) for q in a[:3]]
            return x * y + zz
        if base in ('memcpy', 'memmove'):
            d, sr, n = s.val(st, a[0]), s.val(st, a[1]), s.val(st, a[2])
            s.memcpy(st, d, sr, n); return UNDEF
        if base == 'memset':
            d, v, n = s.val(st, a[0]), s.val(st, a[1]), s.val(st, a[2])
            s.memset(st, d, v, n); return UNDEF
        if base == 'expect': return s.val(st, a[0])
        if base in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            x = s.asreal(s.val(st, a[0]))
            x = rv(x)
            if base == 'floor': return z3.ToReal(z3.ToInt(x))
            if base == 'ceil': return -z3.ToReal(z3.ToInt(-x))
            if base == 'trunc': return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
            raise Unsupported(nm)
        if base == 'trap':
            s.oblige(st, z3.BoolVal(False), 'trap reached', 'memory'); return UNDEF
        if base == 'copysign':
            x, y = rv(s.asreal(s.val(st, a[0]))), rv(s.asreal(s.val(st, a[1])))
            ax = z3.If(x >= 0, x, -x)
            return z3.If(y >= 0, ax, -ax)
        if base in ('ctlz', 'cttz', 'ctpop'):
            r = fint(base)
            st.assume(z3.And(r >= 0, r <= ins.ty.n))
            return r
        if base == 'umul' or base == 'uadd' or base == 'smul':
            x, y = s.asint(st, s.val(st, a[0])), s.asint(st, s.val(st, a[1]))
            r = iv(x) * iv(y) if base.endswith('mul') else iv(x) + iv(y)
            n = ins.a[0].ty.n
            return Agg([s.fit(st, r, n, False, 'ov'), Not(z3.And(r >= 0, r < 2 ** n)) if base[0] == 'u' else Not(z3.And(r >= -2 ** (n - 1), r < 2 ** (n - 1)))])
        raise Unsupported('intrinsic ' + nm)

    def sqrt(s, st, x):
        x = rv(x)
        f = s.func('sqrt', RealS, RealS)
        r = f(x)
        if getattr(s, 'sqrt_check', True): s.oblige(st, x >= 0, 'square root of a negative number', 'arith')
        st.assume(z3.And(r >= 0, r * r == x))
        return r
    def unary_uf(s, st, name, x):
        return s.func(name, RealS, RealS)(rv(x))

    def slots(s, st, p, n):
        """declared scalar slots of [p, p+n) as (reloff, kind), for memcpy/memset"""
        r = p.r
        if r.nkeys:
            if r.fields is None: raise Unsupported('block operation on %s without declared fields' % r.name)
            return [(o - p.off, k) for (o, k) in r.fields if p.off <= o < p.off + n]
        if r.fields is not None:
            return [(o - p.off, k) for (o, k) in r.fields if p.off <= o < p.off + n]
        res = [(o - p.off, st.mem[(rr, o)][0]) for (rr, o) in [k for k in st.mem if len(k) == 2 and k[0] is r] if p.off <= o < p.off + n]
        return sorted(res)
    def memcpy(s, st, d, sr, n):
        if isinstance(n, Scaled): n = n.term()
        if not isinstance(n, int): return s.memcpy_var(st, d, sr, n)
        if n == 0: return
        if sr.dyn or d.dyn: raise Unsupported('memcpy dynamic')
        sl = None
        if not sr.r.nkeys and sr.r.fields is None and d.r.nkeys and n <= d.r.stride:
            # union members: copy the pieces the source actually holds
            own = s.slots(st, sr, n)
            if own and sum(ksize(k) for _, k in own) == n and all(s.check_field(d.r, d.off + o, k) for o, k in own): sl = own
        for q in (sr, d) if sl is None else ():
            if q.r.nkeys or q.r.fields is not None:
                sl = s.slots(st, q, n)
                if q.r.nkeys and n > q.r.stride:
                    # several elements
                    cnt = n // q.r.stride
                    sl = [(o + j * q.r.stride, k) for j in range(cnt) for (o, k) in s.slots(st, Ptr(q.r, q.key, 0), q.r.stride)]
                break
        if sl is None:
            sl = s.slots(st, sr, n)
            # wipe destination pieces
            for k in [k for k in st.mem if len(k) == 2 and k[0] is d.r and d.off <= k[1] < d.off + n]: del st.mem[k]
        vals = []
        for o, k in sl:
            vals.append((o, k, s.load(st, s.padd_const(sr, o), k)))
        for o, k, v in vals: s.store(st, s.padd_const(d, o), v, k)
    def memcpy_var(s, st, d, sr, n):
        raise Unsupported('variable-size block copy')
    def memset(s, st, d, v, n):
        if isinstance(n, Scaled): n = n.term()
        if not isinstance(n, int) or not isinstance(v, int): raise Unsupported('variable-size block fill')
        if n == 0: return
        if d.r.nkeys or d.r.fields is not None:
            sl = s.slots(st, d, n)
        else:
            sl = [(o, 'i64') for o in range(0, n - 7, 8)]
            if n % 8 >= 4: sl.append((n // 8 * 8, 'i32'))
            for o in range(n // 4 * 4, n): sl.append((o, 'i8'))
        for o, k in sl:
            if v == 0:
                x = Fraction(0) if k in ('double', 'float') else (NULL if k == 'ptr' else 0)
            elif v == -1 and k[0] == 'i': x = -1
            else: raise Unsupported('memset value')
            s.store(st, s.padd_const(d, o), x, k)

    # ---------------------------------------------------------- loops
    def cands(s, f, L, st, ctx):
        fn = s.loopspec.get('*')
        out = []
        V = LoopView()
        V.ex, V.f, V.loop, V.idx, V.header = s, f, L, L.idx, L.header
        V.st = st; V.pre = ctx['pre']; V.k = ctx['kcur']; V.phis = ctx['phis']; V.cur = {n: st.env.get(n) for n in ctx['phis']}
        V.init = ctx['init']; V.ind = ctx['ind']; V.tys = ctx['tys']; V.entry = s.entry_state; V.outer = ctx['outer']
        V.dem = s.unit.dem.get(f.name, f.name)
        V.mods = ctx['mods']
        # automatic candidates for integer phis
        for n in ctx['phis']:
            c, i0 = V.cur[n], V.init[n]
            if isinstance(c, Scaled): c = c.term()
            if isinstance(c, (int,)) or (isz(c) and c.sort() == IntS):
                if isinstance(i0, Scaled): i0 = i0.term()
                if isinstance(i0, int) or (isz(i0) and i0.sort() == IntS):
                    out.append(('auto:%s>=init' % n, iv(c) >= iv(i0)))
                    out.append(('auto:%s<=init' % n, iv(c) <= iv(i0)))
                    out.append(('auto:%s>=0' % n, iv(c) >= 0))
            elif isinstance(c, Ptr) and isinstance(i0, Ptr) and c.r is i0.r and c.r.nkeys:
                out.append(('auto:%s>=init' % n, iv(c.key[-1]) >= iv(i0.key[-1])))
                out.append(('auto:%s==init' % n, iv(c.key[-1]) == iv(i0.key[-1])))
                for j in range(len(c.key) - 1):
                    out.append(('auto:%s.key%d' % (n, j), iv(c.key[j]) == iv(i0.key[j])))
        if fn is not None:
            r = fn(V)
            if r: out += r
        return [(a, bv_(b)) for a, b in out if b is not None]

    def open_loop(s, f, L, st):
        """entering loop L from outside: establish, havoc, assume. returns the havocked state"""
        st = s.eval_phis(f, st)
        pre = st.copy()
        phis = [i for i in f.blocks[L.header] if i.op == 'phi']
        ctx = dict(pre=pre, phis=[p.res for p in phis], init={p.res: st.env[p.res] for p in phis}, tys={p.res: p.ty for p in phis}, outer={k: v for k, v in st.loops.items() if not isinstance(v, int)})
        # induction phis: every back edge adds the same constant
        ind = {}
        defs = {}
        for b in L.body:
            for i in f.blocks[b]:
                if i.res: defs[i.res] = i
        for p in phis:
            steps = set()
            for v, lb in p.a:
                if lb not in L.body: continue
                stp = None
                if v.k == 'reg' and v.v in defs:
                    d = defs[v.v]
                    if d.op == 'add' and d.a[0].k == 'reg' and d.a[0].v == p.res and d.a[1].k == 'int': stp = ('i', d.a[1].v)
                    elif d.op == 'getelementptr' and len(d.a) == 2 and d.a[0].k == 'reg' and d.a[0].v == p.res and d.a[1].k == 'int':
                        stp = ('p', d.a[1].v * s.m.sizeof(d.x))
                steps.add(stp)
            if len(steps) == 1 and None not in steps:
                stp = steps.pop()
                i0 = st.env[p.res]
                if stp[0] == 'i' and (isinstance(i0, (int, Scaled)) or (isz(i0) and i0.sort() == IntS)): ind[p.res] = stp[1]
                elif stp[0] == 'p' and isinstance(i0, Ptr) and i0.r.nkeys and stp[1] % i0.r.stride == 0: ind[p.res] = stp[1]
        ctx['ind'] = ind
        # determine modified memory by trial runs
        rec, s.record = s.record, False
        mods = set()
        try:
            cands_ok = None
            entry_cache, entry_keep = {}, []
            seen = s.sticky_memo.get((f.name, L.header)) if s.sticky else None
            if seen: mods = set(k for k in seen[0] if k in pre.mem)
            for it in range(60):
                h, k = s.havoc(f, L, pre, ctx, mods)
                ctx['mods'] = mods
                ctx['kcur'] = k
                if cands_ok is None:
                    # entry filter
                    ctx0 = dict(ctx); ctx0['kcur'] = z3.IntVal(0)
                    e = s.cands(f, L, pre, ctx0)
                    if seen: e = [(nm, fm) for nm, fm in e if nm in seen[1]]
                    names_ok = []
                    ax = list(pre.pc)
                    known = [entry_cache.get((nm, bv_(fm).get_id())) for nm, fm in e]
                    res = iter(s.proves_many([(ax, fm) for (nm, fm), kn in zip(e, known) if kn is None]))
                    for (nm, fm), kn in zip(e, known):
                        if kn is None: kn = next(res); entry_cache[(nm, bv_(fm).get_id())] = kn; entry_keep.append(fm)
                        if kn: names_ok.append(nm)
                        else: s.houdini_log.append((f.name, L.header, 'entry', nm))
                    cands_ok = names_ok
                    if LIVE: print('entry %s %s it=%d %d/%d t=%.1f' % (f.name[-30:], L.header, it, len(cands_ok), len(e), time.time() - LIVE), file=sys.stderr)
                t = h.copy()
                for nm, fm in s.cands(f, L, t, ctx):
                    if nm in cands_ok: t.assume(fm)
                back = []
                t.tag = 'loop_entered'
                t.loops[L.header] = ctx
                s.explore(f, [t], [], (L, back))
                # new modifications?
                newm = set()
                for bst in back:
                    for key, v in bst.mem.items():
                        v0 = h.mem.get(key)
                        if key in mods: continue
                        if v0 is None:
                            if key in pre.mem and not same_val(pre.mem[key], v): newm.add(key)
                            elif key not in pre.mem:
                                # created during the body: local or lazily-initialised
                                if len(key) == 3 and key[0] != 'ghost':
                                    if key in s.uf and v is s.uf[key]: continue
                                    if L.header in getattr(key[0], 'born', ()): continue      # object created by this very iteration
                                    newm.add(key)
                                elif len(key) == 2 and isinstance(key[0], Region):
                                    if key[0].local or L.header in getattr(key[0], 'born', ()): continue
                                    kd, vv = v
                                    base = (key[0], key[1], kd)
                                    if base in s.uf and isz(vv) and vv is s.uf[base]: continue
                                    newm.add(key)
                                elif key[0] == 'ghost': newm.add(key)
                        elif not same_val(v0, v): newm.add(key)
                if newm - mods:
                    mods |= newm
                    cands_ok = None
                    continue
                # houdini: drop candidates not preserved
                bad = set()
                for bst in back:
                    c1 = dict(ctx); c1['kcur'] = k + 1
                    fb = dict(s.cands(f, L, bst, c1))
                    todo = [nm for nm in cands_ok if nm not in bad]
                    hy = list(bst.pc)
                    res = iter(s.proves_many([(hy, fb[nm]) for nm in todo if nm in fb]))
                    for nm in todo:
                        if nm not in fb or not next(res):
                            bad.add(nm); s.houdini_log.append((f.name, L.header, 'step', nm))
                if LIVE: print('step %s %s it=%d -%d/%d back=%d t=%.1f' % (f.name[-30:], L.header, it, len(bad), len(cands_ok), len(back), time.time() - LIVE), file=sys.stderr)
                if not bad: break
                cands_ok = [n for n in cands_ok if n not in bad]
            else:
                raise Unsupported('loop invariant inference did not converge in ' + f.name)
        finally:
            s.record = rec
        # real pass
        if s.sticky: s.sticky_memo[(f.name, L.header)] = (set(mods) | (seen[0] if seen else set()), set(cands_ok))
        ctx['inv'] = list(cands_ok)
        s.loops_done.append((s.unit.dem.get(f.name, f.name), L.header, list(cands_ok)))
        ctx0 = dict(ctx); ctx0['kcur'] = z3.IntVal(0)
        for nm, fm in s.cands(f, L, pre, ctx0):
            if nm in cands_ok: s.oblige(pre, fm, 'loop %d invariant established: %s' % (L.idx, nm), 'invariant', assume=False)
        h, k = s.havoc(f, L, pre, ctx, mods)
        ctx['kcur'] = k
        for nm, fm in s.cands(f, L, h, ctx):
            if nm in cands_ok: h.assume(fm)
        h.loops = dict(h.loops); h.loops[L.header] = ctx
        return h

    def close_loop(s, f, L, st):
        if s.on_backedge: s.on_backedge(s, f, L, st)
        ctx = st.loops[L.header]
        c1 = dict(ctx); c1['kcur'] = ctx['kcur'] + 1
        for nm, fm in s.cands(f, L, st, c1):
            if nm in ctx['inv']: s.oblige(st, fm, 'loop %d invariant preserved: %s' % (L.idx, nm), 'invariant', assume=False)
        for n, c in ctx['ind'].items():
            i0, cur = ctx['init'][n], st.env[n]
            exp = s.ind_val(ctx, n, ctx['kcur'] + 1)
            if isinstance(cur, Ptr): s.oblige(st, iv(cur.key[-1]) == iv(exp.key[-1]), 'loop %d induction variable' % L.idx, 'invariant', assume=False)
            else: s.oblige(st, iv(s.asint(st, cur)) == iv(s.asint(st, exp)), 'loop %d induction variable' % L.idx, 'invariant', assume=False)

    def ind_val(s, ctx, n, k):
        i0, c = ctx['init'][n], ctx['ind'][n]
        if isinstance(i0, Ptr):
            return Ptr(i0.r, i0.key[:-1] + (z3.simplify(iv(i0.key[-1]) + (c // i0.r.stride) * k),), i0.off, i0.dyn)
        if isinstance(i0, Scaled): i0 = i0.term()
        return z3.simplify(iv(i0) + c * k)

    def havoc(s, f, L, pre, ctx, mods):
        h = pre.copy()
        k = fint('k')
        h.assume(k >= 0)
        for n in ctx['phis']:
            i0 = ctx['init'][n]
            ty = ctx['tys'][n]
            if n in ctx['ind']:
                h.env[n] = s.ind_val(ctx, n, k)
                if ty.k == 'i': s.rangefact(h, h.env[n], kindof(ty))
            elif ty.k == 'i' and ty.n == 1: h.env[n] = fbool(n.strip('%'))
            elif ty.k == 'i':
                v = fint(n.strip('%')); h.env[n] = v; s.rangefact(h, v, kindof(ty))
            elif ty.k in ('double', 'float'): h.env[n] = freal(n.strip('%'))
            elif ty.k == 'ptr':
                if isinstance(i0, Ptr) and i0.r.nkeys and not i0.dyn:
                    h.env[n] = Ptr(i0.r, tuple(fint(n.strip('%')) for _ in i0.key), i0.off)
                else: raise Unsupported('loop-carried pointer %s in %s: %r' % (n, f.name, i0))
            else: raise Unsupported('phi type')
        for key in mods:
            old = h.mem.get(key)
            if key[0] == 'ghost':
                old = old if old is not None else None
                h.mem[key] = z3.Const(fresh_name('g_' + str(key[1])), old.sort())
            elif len(key) == 3:
                r, off, kind = key
                srt = s._arr_sort(r, kind)
                h.mem[key] = z3.Const(fresh_name('%s.%d' % (r.name, off)), srt)
            else:
                r, off = key
                if old is None:
                    h.mem.pop(key, None); continue
                kd, v = old
                if isinstance(v, Ptr):
                    if v.r.nkeys: h.mem[key] = (kd, Ptr(v.r, v.key[:-1] + (fint('p'),), v.off))
                    else: raise Unsupported('loop modifies pointer to single object')
                elif v is UNDEF:
                    h.mem[key] = (kd, UNDEF)
                elif isinstance(v, Null): raise Unsupported('loop modifies null pointer field %s+%d' % (r.name, off))
                else:
                    if kd in ('double', 'float') or (isz(v) and v.sort() == RealS): nv = freal('%s.%d' % (r.name, off))
                    else:
                        nv = fint('%s.%d' % (r.name, off)); s.rangefact(h, nv, kd)
                    h.mem[key] = (kd, nv)
        return h, k

    def proves_many(s, qs):
        """proves() for several queries, spread over forked workers (answers depend on the queries only)"""
        out = [None] * len(qs); hard = []
        for i, (h, g) in enumerate(qs):
            if z3.is_true(z3.simplify(bv_(g))): out[i] = True
            else: hard.append(i)
        jobs = min(PAR_JOBS, len(hard) // 2)
        if jobs < 2:
            for i in hard: out[i] = s.proves(*qs[i])
            return out
        kids = []
        sys.stdout.flush(); sys.stderr.flush()
        for j in range(jobs):
            rfd, wfd = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    for i in hard[j::jobs]:
                        r = False
                        try: r = s.proves(*qs[i])
                        except BaseException: pass
                        os.write(wfd, b'%d %d\n' % (i, r))
                finally: os._exit(0)
            os.close(wfd); kids.append((pid, rfd))
        for pid, rfd in kids:
            b = b''
            while True:
                d = os.read(rfd, 65536)
                if not d: break
                b += d
            os.close(rfd)
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass
            for ln in b.decode().splitlines():
                i, r = ln.split(); out[int(i)] = r == '1'
        s.nqueries += len(hard)
        return [bool(x) for x in out]

    def named_fptoi(s, v):
        """a name for the truncation of a real term (one per value, so that quantified bodies stay linear)"""
        k = z3.simplify(v, som=True).sexpr()
        if k not in s.name_fptoi: s.name_fptoi[k] = fint('trunc')
        return s.name_fptoi[k]

    def proves(s, hyps, goal, timeout=3000):
        goal = bv_(goal)
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): pass
        s.nqueries += 1
        if s.drop_nonlin:
            from . import solve
            if not solve.has_nonlin([goal]):
                hy = [h for h in hyps if not solve.has_nonlin([h])]
                for seed in range(3):
                    sol = z3.Solver(); sol.set('timeout', timeout * 2); sol.set('rlimit', timeout * 1000); sol.set('random_seed', seed)
                    if seed: sol.set('array.extensional', False)
                    for h in hy: sol.add(h)
                    sol.add(z3.Not(goal))
                    if sol.check() == z3.unsat: return True
        if s.linear_houdini:
            from . import solve
            if solve.lin_try(hyps, goal, timeout / 1000.0, ufdiv=True): return True
            if s.linear_houdini == 'only': return False
        sol = z3.Solver(); sol.set('timeout', timeout * 5); sol.set('rlimit', timeout * 3000)
        for h in hyps: sol.add(h)
        sol.add(z3.Not(goal))
        return sol.check() == z3.unsat

LIVE = time.time() if os.environ.get('VERIF_LIVE') else 0
PAR_JOBS = int(os.environ.get('VERIF_PAR', '4'))
class _NR: pass
NORETURN = _NR()

def same_val(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return a[0] == b[0] and same_val(a[1], b[1])
    if isz(a) and isz(b): return a.eq(b)
    if is_py(a) and is_py(b): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and a.off == b.off and len(a.key) == len(b.key) and all(same_val(x, y) for x, y in zip(a.key, b.key)) and not a.dyn and not b.dyn
    return False

def wrapc(x, n):
    if isinstance(x, bool): x = int(x)
    x %= (1 << n)
    if n > 1 and x >= (1 << (n - 1)): x -= (1 << n)
    return x

def builtin(ex, st, ins, dem, args):
    d = dem
    if d.startswith('operator delete') or d in ('free',): return UNDEF
    if d in ('abort', '_exit', 'exit') or d.startswith('std::terminate') or d.startswith('std::__throw_') or d.startswith('__assert_fail') or d.startswith('std::__glibcxx_assert_fail') or d == '__clang_call_terminate':
        if not ex.abort_ok and not d.startswith('std::__throw_length_error') and not d.startswith('std::__throw_bad_alloc') and not d.startswith('std::__throw_bad_array_new'):
            ex.oblige(st, z3.BoolVal(False), 'call of %s' % d.split('(')[0], 'memory')
        return NORETURN
    if d.startswith('std::ostream') or 'std::basic_ostream' in d or d.startswith('std::operator<<'):
        return args[0] if args else UNDEF
    if d in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'cbrt'):
        x = ex.asreal(args[0])
        r = ex.func(d, RealS, RealS)(rv(x))
        return r
    if d in ('atan2', 'pow', 'hypot', 'fmod'):
        return ex.func(d, RealS, RealS, RealS)(rv(ex.asreal(args[0])), rv(ex.asreal(args[1])))
    if d == 'sqrt': return ex.sqrt(st, ex.asreal(args[0]))
    if d == 'floor': return z3.ToReal(z3.ToInt(rv(ex.asreal(args[0]))))
    return NotImplemented
