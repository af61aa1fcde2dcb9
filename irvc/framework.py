"""Check driver: regenerate obligations from /repo, discharge, run the bounded stand-ins / replay harness, write evidence."""
import os, sys, json, time, subprocess, shutil, traceback, tempfile, hashlib, re
import z3
from . import ir, unit as unit_mod, sym, solve
from .sym import *
from .unit import Unit, UnitError, REPO, VERIF, CXX, LLVM

class ProofGap(Exception):
    pass

TRUST_BASE = [
    'the VC generator irvc (/verif/irvc: LLVM-IR semantics, loop rule, call rule) and its Python runtime',
    'clang 18 front end and the opt inlining/SROA/instcombine/GVN pipeline (the verified text is the LLVM IR they produce from /repo\'s headers)',
    'SMT solvers z3 (python z3-solver) and cvc5',
]
TWIN_AFTER = 75
REAL_NOTE = 'IEEE-754 double arithmetic is treated as exact real arithmetic; inputs are finite and non-NaN'

class Ctx:
    def __init__(s, pid):
        s.pid = pid
        s.tier = os.environ.get('VERIF_TIER', 'quick')
        s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.thorough = s.tier == 'thorough'
        s.work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        s.units = {}
        s.obls = []
        s.functions = []       # functions under contract
        s.assumed = []         # assumed contracts / axioms
        s.gaps = []            # (function, reason): proof could not be regenerated
        s.covers = []
        s.bounded = []         # bounded stand-ins
        s.notes = []
        s.loops = []
        s.gen_time = 0
        s.solve_time = 0
        s.failed = []
        s.quick_queries = 0
        s.t0 = time.time()
        s.abstract = []
        s.kids = []; s.in_child = False; s.maxkids = int(os.environ.get('VERIF_JOBS', '8')); s.mod_timeout = None

    # ---------------------------------------------------------- building
    def unit(s, name, source, **kw):
        if name not in s.units:
            s.units[name] = Unit(name, source, **kw).build(s.work)
        return s.units[name]

    def assume_note(s, txt):
        if txt not in s.assumed: s.assumed.append(txt)

    def exec(s, unit, contracts=(), **kw):
        return Exec(unit, contracts, **kw)

    # ------------------------------------------------------- parallel sections
    SHARED = ('functions', 'gaps', 'covers', 'loops')
    def fork(s, label, fn):
        """run fn() (which adds obligations to this context) in a forked worker that also discharges them; results are collected at discharge time"""
        if os.environ.get('VERIF_SERIAL') or s.in_child:
            return s.guard(label, fn)
        while len(s.kids) >= s.maxkids and time.time() < solve.DEADLINE + 40: s.collect(1, limit=max(10, solve.DEADLINE + 40 - time.time()))
        s._spawn(label, fn)
    def _spawn(s, label, fn, twin=None):
        rfd, wfd = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                if twin is not None: z3.set_param('smt.random_seed', 17)
                s.in_child = True
                for k in s.SHARED: setattr(s, k, [])
                s.obls, s.kids, s.assumed = [], [], []
                s.gen_time = s.solve_time = 0; s.quick_queries = 0
                s.guard(label, fn)
                s.solve_time += solve.discharge(s.obls, timeout=s.sol_timeout(), budget=s.sol_budget(), jobs=2)
                data = dict(obls=[dict(name=o.name, kind=o.kind, fn=o.fn, status=o.status, time=o.time, model=o.model, backend=o.backend) for o in s.obls],
                            gen_time=s.gen_time, solve_time=s.solve_time, quick_queries=s.quick_queries, assumed=s.assumed, **{k: getattr(s, k) for k in s.SHARED})
                import pickle
                b = pickle.dumps(data)
            except BaseException as e:
                import pickle
                b = pickle.dumps(dict(crash='%s: %s' % (type(e).__name__, e)))
            try:
                sys.stdout.flush()
                with os.fdopen(wfd, 'wb') as f: f.write(b)
            finally:
                os._exit(0)
        os.close(wfd)
        s.kids.append((pid, rfd, label, bytearray(), time.time(), fn, twin if twin is not None else pid))
    def _drop(s, k):
        try: os.kill(k[0], 9); os.waitpid(k[0], 0)
        except OSError: pass
        os.close(k[1])
    def collect(s, maxwait=0, limit=None):
        """reap workers; maxwait: 1 = until at least one is done, 2 = all"""
        import select, pickle
        t_end = time.time() + (limit or 1e9)
        while s.kids:
            rd, _, _ = select.select([k[1] for k in s.kids], [], [], 1.0)
            done = []
            for k in s.kids:
                if k[1] in rd:
                    d = os.read(k[1], 1 << 20)
                    if d: k[3].extend(d)
                    else: done.append(k)
            if maxwait == 2:   # a second run (other solver seed) of a worker that is slow while cores are idle; the first answer counts
                for k in list(s.kids):
                    if len(s.kids) < s.maxkids and time.time() - k[4] > TWIN_AFTER and k[6] == k[0] and not any(q[6] == k[0] and q is not k for q in s.kids) and k not in done: s._spawn(k[2], k[5], k[0])
            for k in done:
                if k not in s.kids: continue
                s.kids.remove(k); os.close(k[1])
                try: os.waitpid(k[0], 0)
                except ChildProcessError: pass
                try: data = pickle.loads(bytes(k[3]))
                except Exception as e: data = dict(crash='worker ended without a result')
                twins = [q for q in s.kids if q[6] == k[6]]
                if twins and ('crash' in data or data['gaps'] or any(o['status'] != 'proved' for o in data['obls'])): continue   # the other run may still succeed
                for q in twins: s._drop(q); s.kids.remove(q)
                if 'crash' in data: s.gaps.append((k[2], 'worker: ' + data['crash'])); continue
                for o in data['obls']:
                    q = Obligation(o['name'], (), None, o['kind'], o['fn']); q.status, q.time, q.model, q.backend = o['status'], o['time'], o['model'], o['backend']
                    s.obls.append(q)
                for kk in s.SHARED: getattr(s, kk).extend(data[kk])
                for x in data['assumed']: s.assume_note(x)
                s.gen_time += data['gen_time']; s.solve_time += data['solve_time']; s.quick_queries += data['quick_queries']
            if maxwait == 1 and done: return
            if time.time() > t_end:
                for g in {k[6]: k for k in s.kids}.values(): s.gaps.append((g[2], 'proof worker exceeded the time budget'))
                for k in s.kids: s._drop(k)
                s.kids = []
                return
    def sol_timeout(s): return s.mod_timeout or (60 if s.thorough else 20)
    def sol_budget(s): return 600 if s.thorough else 300

    def verify(s, ex, fname, label, setup, post, loops=None, cover=True, timeout=None):
        if os.environ.get('VERIF_ONLY') and not re.search(os.environ['VERIF_ONLY'], label): return   # development only
        s.fork(label, lambda: s._verify(ex, fname, label, setup, post, loops, cover))
    def _verify(s, ex, fname, label, setup, post, loops=None, cover=True):
        """setup(ex, st) -> args ; post(ex, st0, st, ret, args) -> [(label, formula)]"""
        t0 = time.time()
        ex.fn_label = label
        st = State()
        n0 = len(ex.obls)
        try:
            args = setup(ex, st)
            ex.loopspec['*'] = loops
            ex.entry_state = st.copy()
            st0 = st.copy()
            outs = ex.run_function(fname, st, args)
            if cover:
                live = 0
                for t, ret in outs:
                    if not falsified(t.pc): live += 1; break
                s.covers.append((label, live > 0))
                if not live:
                    raise ProofGap('vacuous: no feasible return path of %s under its precondition' % label)
            for t, ret in outs:
                ps = post(ex, st0, t, ret, args)
                for nm, fm in ps:
                    ex.oblige(t, fm, 'post: ' + nm, 'post', assume=False)
            if os.environ.get('VERIF_DEBUG'):
                for x in ex.houdini_log: print('houdini', label, x)
                for x in ex.loops_done: print('loop', x)
            new = ex.obls[n0:]
            s.obls += new
            s.functions.append(dict(function=unit_dem(ex, fname), label=label, obligations=len(new), paths=len(outs)))
            for l in ex.loops_done: s.loops.append(dict(function=l[0][:120], header=l[1], invariants=l[2]))
            ex.loops_done = []
            s.quick_queries += ex.nqueries; ex.nqueries = 0
            s.gen_time += time.time() - t0
            return outs
        except (Unsupported, ir.IRError, ProofGap, KeyError, z3.Z3Exception, AttributeError, TypeError, IndexError, ValueError) as e:
            s.gen_time += time.time() - t0
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            s.gaps.append((label, '%s: %s' % (type(e).__name__, str(e)[:400])))
            return None

    def guard(s, label, fn):
        """run a proof section; anything the generator cannot digest becomes a gap"""
        try:
            return fn()
        except UnitError as e:
            s.gaps.append((label, str(e)[:1500]))
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            s.gaps.append((label, '%s: %s' % (type(e).__name__, str(e)[:400])))

    def lemma(s, name, hyps, goal, tactic=None):
        """pure obligation (no code)"""
        o = Obligation(name, tuple(bv_(h) for h in hyps), bv_(goal), 'lemma', 'lemma', tactic)
        s.obls.append(o)
        return o

    def discharge(s):
        mine = [o for o in s.obls if not o.status]
        s.solve_time += solve.discharge(mine, timeout=s.sol_timeout(), budget=s.sol_budget(), jobs=4 if s.kids else 8)
        s.collect(2, limit=max(10, solve.DEADLINE + 40 - time.time()))
        if os.environ.get('VERIF_SLOW'):
            for o in s.obls:
                if o.time and o.time > 8: print('slow %.1f %s %s %s' % (o.time, o.status, o.backend, o.name[:160]), file=sys.stderr)
        s.failed = [o for o in s.obls if o.status != 'proved']
        return not s.failed and not s.gaps

def unit_dem(ex, fname): return ex.unit.dem.get(fname, fname)[:300]

def falsified(pc, timeout=2000):
    sol = z3.Solver(); sol.set('timeout', timeout)
    for p in pc: sol.add(p)
    return sol.check() == z3.unsat

# ------------------------------------------------------------------ native harness
def build_native(ctx, name, src, flags=(), cxx='g++', opt='-O1'):
    """compile a native harness against /repo's headers"""
    out = os.path.join(ctx.work, name)
    cmd = [cxx, '-std=c++17', opt, '-w', '-fno-access-control', '-I%s/include' % REPO, '-I/usr/include/eigen3', '-I%s/harness' % VERIF] + list(flags) + [src, '-o', out]
    libs = [f for f in flags if f.startswith('-l')]
    cmd += libs
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise UnitError('harness %s does not compile:\n%s' % (name, r.stderr[-2500:]))
    return out

def run_native(ctx, exe, args, timeout=120, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e, cwd=ctx.work, errors='replace')
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), ''

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'): out.append(json.loads(l))
    return out

def main(pid):
    import importlib
    ctx = Ctx(pid)
    rc = 0
    try:
        rc = _main(ctx, pid)
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc

def _main(ctx, pid):
    import importlib
    mod = importlib.import_module('irvc.props.' + pid.lower())
    ok = True
    ctx.mod_timeout = getattr(mod, 'TIMEOUT', None)
    harness = None if os.environ.get('VERIF_PROOFONLY') else getattr(mod, 'harness', None)
    violations = []   # dict(kind, desc, replay)
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'finding']
    is_known = lambda v: any(re.search(k['match'], v['key']) for k in known)
    hres = None
    def run_h(deep):
        try: return harness(ctx, deep=deep)
        except UnitError as e:
            ctx.gaps.append(('harness', str(e)[:2000]))
            return dict(evaluations=0, distinct=0, rule='harness could not be built', samples=[], failures=[])
    hgap = 0
    if harness:
        hres = run_h(ctx.thorough)
        hgap = len(ctx.gaps)
    if hasattr(mod, 'prove'):
        tp = time.time()
        # a concrete failing input was already found: the proof only names the broken obligations
        found = hres and any(not is_known(v) for v in hres['failures'])
        if not ctx.thorough: solve.DEADLINE = tp + (100 if found else 400)
        ctx.guard('proof', lambda: mod.prove(ctx))
        ok = ctx.discharge()
    elif hgap: ok = False
    if harness and not ok and not hgap and not ctx.thorough and not any(not is_known(v) for v in hres['failures']):
        from .native import merge
        hres = merge(hres, run_h(True))
    if hres: violations += hres.get('failures', [])
    matched = []
    new = []
    # split known
    for v in violations:
        k = [k for k in known if re.search(k['match'], v['key'])]
        if k: matched.append((k[0], v))
        else: new.append(v)
    rdir = os.path.join(VERIF, 'replay'); os.makedirs(rdir, exist_ok=True)
    lines = []
    failed_txt = ''
    if not ok:
        failed_txt = failed_report(ctx)
    rcode = 0
    if new:
        v = new[0]
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s violated\n\nfailing input (replayed on the real code):\n%s\n\nhow to replay: %s\n' % (pid, v['desc'], v.get('replay', '')))
            for w in new[1:10]: f.write('\nalso: %s\n' % w['desc'][:2000])
            f.write('\n' + failed_txt)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path)); rcode = 1
    elif not ok:
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: the proof redone from the current source fails; the bounded replay search found no failing input\n\n%s' % (pid, failed_txt))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)); rcode = 1
    if not rcode or True:
        for k in known:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    write_evidence(ctx, mod, hres, new, ok)
    print('%s: %d obligations, %d proved, %d failed, %d gaps; functions under contract %d; solver %.1fs gen %.1fs wall %.1fs' % (
        pid, len(ctx.obls), sum(o.status == 'proved' for o in ctx.obls), len(ctx.failed), len(ctx.gaps), len(ctx.functions), ctx.solve_time, ctx.gen_time, time.time() - ctx.t0))
    if hres: print('%s: bounded harness: %d evaluations, %d failures' % (pid, hres.get('evaluations', 0), len(violations)))
    if failed_txt: print(failed_txt[:6000])
    for l in lines: print(l)
    sys.stdout.flush()
    return rcode

def failed_report(ctx):
    out = ['failed obligations: %d, proof gaps: %d\n' % (len(ctx.failed), len(ctx.gaps))]
    for f, r in ctx.gaps: out.append('GAP %s: %s\n' % (f, r))
    for o in ctx.failed[:40]:
        out.append('OBLIGATION [%s] %s (%s): %s by %s\n' % (o.fn, o.name, o.kind, o.status, o.backend))
        if o.model:
            out.append('  counterexample (solver): %s\n' % json.dumps(o.model)[:1500])
    return ''.join(out)

def write_evidence(ctx, mod, hres, new, ok):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    be = {}
    kinds = {}
    for o in ctx.obls:
        be[o.backend or '?'] = be.get(o.backend or '?', 0) + 1
        kinds[o.kind] = kinds.get(o.kind, 0) + 1
    cov = dict(
        obligations=len(ctx.obls), discharged=sum(o.status == 'proved' for o in ctx.obls),
        checker_cmd='python3-vt /verif/check.py %s' % ctx.pid,
        trusted_base=TRUST_BASE + ctx.assumed,
        by_backend=be, by_kind=kinds,
        functions_under_contract=ctx.functions,
        loop_invariants=ctx.loops,
        vacuity_covers=[dict(function=a, reachable=b) for a, b in ctx.covers],
        solver_seconds=round(ctx.solve_time, 2), generation_seconds=round(ctx.gen_time, 2), inline_queries=ctx.quick_queries,
        failed=[dict(name=o.name, fn=o.fn, status=o.status, backend=o.backend) for o in ctx.failed][:50],
        gaps=[dict(function=a, reason=b) for a, b in ctx.gaps],
        units={n: u.sha for n, u in ctx.units.items()},
        samples=[dict(obligation=o.name, function=o.fn, status=o.status, backend=o.backend, seconds=round(o.time, 3)) for o in ctx.obls[:8]],
    )
    level = getattr(mod, 'LEVEL', 'proof')
    if hres:
        cov['bounded_stand_in'] = dict(label='bounded: never counted as proved', evaluations=hres.get('evaluations', 0), distinct_nontrivial=hres.get('distinct', 0), rule=hres.get('rule', ''), samples=hres.get('samples', [])[:5])
        if level in ('exploration', 'fault_enumeration'):
            cov.update(evaluations=hres.get('evaluations', 0), distinct_nontrivial=hres.get('distinct', 0), rule=hres.get('rule', ''), samples=hres.get('samples', [])[:5] or ['none'])
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=ctx.assumed + getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - ctx.t0, 2), violations=len(new) if new else (0 if ok else 1))
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
