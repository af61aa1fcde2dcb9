"""Discharge obligations in parallel: z3 (several strategies) then cvc5."""
import os, time, multiprocessing as mp, subprocess, tempfile, signal
import z3

def _z3(hyps, goal, timeout, opts):
    sol = z3.Solver() if opts.get('logic') is None else z3.SolverFor(opts['logic'])
    if opts.get('tactic'):
        sol = z3.Then(*[z3.Tactic(t) for t in opts['tactic']]).solver()
    sol.set('timeout', int(timeout * 1000))
    for k, v in opts.get('set', {}).items(): sol.set(k, v)
    for h in hyps: sol.add(h)
    sol.add(z3.Not(goal))
    r = sol.check()
    return r, sol

def strategies(kind):
    base = [dict(), dict(set={'random_seed': 7, 'smt.random_seed': 7} if False else {'random_seed': 7}), dict(set={'mbqi': False})]
    if kind == 'nra': return [dict(tactic=['simplify', 'qfnra-nlsat']), dict(logic='QF_NRA'), dict()]
    if kind == 'pure': return [dict(tactic=['simplify', 'smt'])] + base
    return base

UFDIV = z3.Function('quot!', z3.RealSort(), z3.RealSort(), z3.RealSort())
def linearise(fs, ufdiv=False):
    """over-approximation: sum-of-monomials form with every nonlinear monomial (and quotient) replaced by an opaque real (sound for unsat)"""
    table = {}
    cache = {}
    def opaque(key, srt):
        if key not in table: table[key] = z3.Const('mono!%d' % len(table), srt)
        return table[key]
    def go(e):
        i = e.get_id()
        if i in cache and cache[i][0].eq(e): return cache[i][1]
        if z3.is_quantifier(e) or z3.is_var(e): r = e
        elif z3.is_app(e):
            ch = [go(c) for c in e.children()]
            k = e.decl().kind()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                if k == z3.Z3_OP_POWER:
                    if z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 1 <= ch[1].numerator_as_long() <= 8: fl = [ch[0]] * ch[1].numerator_as_long(); nums = []
                    else: fl = [e]; nums = []
                else:
                    nums, fl = [], []
                    for c in ch:
                        if z3.is_rational_value(c) or z3.is_int_value(c): nums.append(c)
                        elif c.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(c.arg(1)) and 1 <= c.arg(1).numerator_as_long() <= 8 and c.arg(1).denominator_as_long() == 1: fl += [c.arg(0)] * c.arg(1).numerator_as_long()
                        else:
                            m = rev.get(c.get_id())
                            fl += m if m else [c]
                if len(fl) <= 1: r = e.decl()(*ch) if k == z3.Z3_OP_MUL else (fl[0] if fl else e)
                else:
                    fl = sorted(fl, key=lambda c: c.get_id())
                    keep.extend(fl)
                    key = ('*',) + tuple(c.get_id() for c in fl)
                    m = opaque(key, e.sort()); rev[m.get_id()] = fl
                    r = m
                    for n_ in nums: r = n_ * r
            elif k == z3.Z3_OP_DIV and ufdiv and not z3.is_rational_value(ch[1]): r = UFDIV(ch[0], ch[1])
            elif k == z3.Z3_OP_DIV and not (z3.is_rational_value(ch[1])):
                keep.extend(ch)
                inv = opaque(('/', ch[1].get_id()), e.sort())
                if z3.is_rational_value(ch[0]): r = ch[0] * inv
                else:
                    fl = sorted((rev.get(ch[0].get_id()) or [ch[0]]) + [inv], key=lambda c: c.get_id()); keep.extend(fl)
                    m = opaque(('*',) + tuple(c.get_id() for c in fl), e.sort()); rev[m.get_id()] = fl; r = m
            elif ch: r = e.decl()(*ch)
            else: r = e
        else: r = e
        cache[i] = (e, r)
        return r
    rev = {}; keep = []
    out = []
    for f in fs:
        if has_q(f): out.append(f if not nonlin_q(f) else z3.BoolVal(True)); continue
        g = z3.simplify(f, som=True, mul_to_power=False, arith_lhs=False)
        out.append(go(g))
    # opaque squares are non-negative
    for key, m in table.items():
        if key[0] == '*' and len(key) % 2 == 1 and all(key[i] == key[i + 1] for i in range(1, len(key), 2)) and m.sort() == z3.RealSort(): out.append(m >= 0)
    return out
_hq = {}
def has_q(e):
    i = e.get_id()
    if i in _hq and _hq[i][0].eq(e): return _hq[i][1]
    r = z3.is_quantifier(e) or any(has_q(c) for c in e.children())
    _hq[i] = (e, r)
    return r
def nonlin_q(e):
    return False
def lin_try(hyps, goal, timeout, ufdiv=False):
    fs = linearise(list(hyps) + [z3.Not(goal)], ufdiv)
    sol = z3.Solver(); sol.set('timeout', int(timeout * 5000)); sol.set('rlimit', int(timeout * 1000000))
    for f in fs: sol.add(f)
    return sol.check() == z3.unsat

def has_nonlin(fs):
    seen = set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_mul(e) and sum(1 for c in e.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1: return True
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_POWER, z3.Z3_OP_MOD) and not (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))): return True
        stack.extend(e.children())
    return False

def cvc5_try(hyps, goal, timeout):
    sol = z3.Solver()
    for h in hyps: sol.add(h)
    sol.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + sol.sexpr() + '\n(check-sat)\n'
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode()); os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', p], capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)

def model_str(m, limit=60):
    out = {}
    try:
        for d in m.decls()[:limit]:
            v = m[d]
            s = str(v)
            if len(s) < 200: out[d.name()] = s
    except Exception: pass
    return out

_sy = {}
def fsyms(e):
    """array constants and uninterpreted functions occurring in e"""
    i = e.get_id()
    if i in _sy and _sy[i][0].eq(e): return _sy[i][1]
    r = set()
    if z3.is_quantifier(e): r |= fsyms(e.body())
    elif z3.is_app(e):
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() or z3.is_array(e)): r.add(d.name())
        for c in e.children(): r |= fsyms(c)
    r = frozenset(r)
    _sy[i] = (e, r)
    return r
def relevant(hyps, goal):
    """quantified hypotheses whose triggers are reachable from the goal's symbols (the rest is dropped: sound for unsat)"""
    S = set(fsyms(goal))
    keep = [not z3.is_quantifier(h) for h in hyps]
    eqs = [h for h in hyps if z3.is_eq(h) and z3.is_array(h.arg(0))]
    ch = True
    while ch:
        ch = False
        for h in eqs:
            f = fsyms(h)
            if f & S and not f <= S: S |= f; ch = True
        for i, h in enumerate(hyps):
            if keep[i]: continue
            np = h.num_patterns()
            if np == 0 or any(all(fsyms(c) <= S for c in h.pattern(j).children()) for j in range(np)):
                keep[i] = True; ch = True; S |= fsyms(h)
    return [h for i, h in enumerate(hyps) if keep[i]]

class Phases:
    """announces every solver call with its limit, so that a call that ignores its timeout can be killed and the next strategy tried"""
    def __init__(s, skip=0, report=None): s.n, s.skip, s.report = 0, skip, report
    def __call__(s, limit):
        s.n += 1
        if s.n <= s.skip: return False
        if s.report: s.report(s.n, limit)
        return True

def solve_one(o, timeout, ph=None):
    ph = ph or Phases()
    t0 = time.time()
    kind = o.tactic
    last = 'unknown'
    hyps = o.hyps
    # relevancy: try quantifier-free hypotheses first for quantifier-free goals
    strs = strategies(kind)
    if z3.is_eq(o.goal) and o.goal.arg(0).sort() == z3.RealSort() or z3.is_and(o.goal) or z3.is_implies(o.goal) or z3.is_not(o.goal) or z3.is_distinct(o.goal) or kind == 'ring':
        from . import ring
        if has_nonlin([o.goal]) and ph(timeout * 2) and ring.prove(hyps, o.goal, timeout): return ('proved', time.time() - t0, None, 'ring normal form')
    if kind is None and has_nonlin(list(hyps) + [o.goal]):
        try:
            if ph(timeout * 2.5) and lin_try(hyps, o.goal, timeout / 2): return ('proved', time.time() - t0, None, 'z3 (monomials opaque)')
        except z3.Z3Exception: pass
    if any(z3.is_quantifier(h) for h in hyps):
        rel = relevant(hyps, o.goal)
        def zrel(t):
            try: return len(rel) < len(hyps) and ph(t) and _z3(rel, o.goal, t, {})[0] == z3.unsat
            except z3.Z3Exception: return False
        if zrel(min(0.7, timeout / 2)): return ('proved', time.time() - t0, None, 'z3')
        if ph(8) and cvc5_try(hyps, o.goal, min(3, timeout / 2)) == 'unsat': return ('proved', time.time() - t0, None, 'cvc5')
        if zrel(min(4, timeout / 2)): return ('proved', time.time() - t0, None, 'z3')
    for i, op in enumerate(strs):
        if not ph(timeout): continue
        try:
            r, sol = _z3(hyps, o.goal, timeout if i == 0 else timeout / 2, op)
        except z3.Z3Exception as e:
            last = 'z3 error %s' % e; continue
        if r == z3.unsat: return ('proved', time.time() - t0, None, 'z3')
        if r == z3.sat: 
            return ('refuted', time.time() - t0, model_str(sol.model()), 'z3')
        last = 'unknown (%s)' % sol.reason_unknown()
    ph(timeout + 5)
    r = cvc5_try(hyps, o.goal, timeout)
    if r == 'unsat': return ('proved', time.time() - t0, None, 'cvc5')
    if r == 'sat': return ('refuted', time.time() - t0, {}, 'cvc5')
    return ('unknown', time.time() - t0, None, last)

DEADLINE = 1e12
def _worker(obls, idxs, q, timeout, wid, skip0):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    bad = 0
    for i in idxs:
        if time.time() > DEADLINE: break
        try:
            r = solve_one(obls[i], timeout, Phases(skip0 if i == idxs[0] else 0, lambda n, lim: q.put(('phase', wid, i, n, lim))))
            if r[0] != 'proved': bad += 1
            if bad == 1: timeout = min(timeout, 8)     # a failing proof is reported; do not burn the budget on every obligation
            q.put((i,) + r)
            if bad >= 3: break
        except Exception as e:
            q.put((i, 'unknown', 0, None, 'exception %s' % e))
    q.put(('end', wid))

def discharge(obls, timeout=10, jobs=None, budget=600):
    """solve every unsolved obligation; identical formulas solved once"""
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    todo = []
    seen = {}
    for i, o in enumerate(obls):
        if o.status: continue
        key = (tuple(h.get_id() for h in o.hyps), o.goal.get_id())
        if key in seen: seen[key].append(i); continue
        seen[key] = [i]; todo.append(i)
    groups = {v[0]: v for v in seen.values()}
    t0 = time.time()
    if todo:
        ctx = mp.get_context('fork')
        q = ctx.Queue()
        jobs = min(jobs, max(1, len(todo) // 2 or 1))
        parts = [todo[j::jobs] for j in range(jobs)]
        ps = {}; doing = {}; left = {}; wn = 0
        def start(idxs, skip):
            nonlocal wn
            if not idxs: return
            w = wn; wn += 1
            p = ctx.Process(target=_worker, args=(obls, idxs, q, timeout, w, skip), daemon=True)
            ps[w] = p; left[w] = list(idxs); doing[w] = None; p.start()
        for p in parts: start(p, 0)
        while ps:
            rem = min(budget - (time.time() - t0), DEADLINE + 20 - time.time())
            if rem <= 0: break
            try: r = q.get(timeout=min(rem, 2))
            except Exception: r = ()
            now = time.time()
            if r and r[0] == 'phase': doing[r[1]] = (r[2], r[3], now + 1.5 * r[4] + 6)
            elif r and r[0] == 'end': ps.pop(r[1], None)
            elif r:
                i, stt, tm, model, be = r
                for w in left:
                    if i in left[w]: left[w].remove(i); doing[w] = None
                for g in groups[i]:
                    o = obls[g]
                    o.status, o.time, o.model, o.backend = stt, (tm if g == i else 0), model, be
            for w in list(ps):
                d = doing[w]
                if d and now > d[2] and ps[w].is_alive():       # a solver call ignores its limit: kill it, go on with the next strategy
                    ps[w].kill(); ps[w].join(); ps.pop(w)
                    start([d[0]] + [x for x in left[w] if x != d[0]], d[1])
                elif not ps[w].is_alive() and not r and q.empty(): ps.pop(w)
        ps = list(ps.values())
        for p in ps:
            if p.is_alive(): p.kill()
    for o in obls:
        if not o.status: o.status = 'unknown'; o.backend = 'not attempted after earlier failures / budget exhausted'
    return time.time() - t0
