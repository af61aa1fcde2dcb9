"""Build and run native harnesses (replay search / labelled bounded stand-ins) against /repo's real code."""
import os, re, json
from .framework import build_native, run_native, VERIF, UnitError

def run_harness(ctx, name, deep=False, flags=(), args=(), env=None, cxx='g++', opt='-O1', iters=None, timeout=None, srcname=None):
    """Protocol on stdout:  STAT evals=N distinct=M   RULE text   SAMPLE text   FAIL key=<k> :: <description>"""
    src = os.path.join(VERIF, 'harness', (srcname or name) + '.cpp')
    exe = build_native(ctx, name, src, flags, cxx=cxx, opt=opt)
    budget = (120 if deep else 15)
    if ctx.thorough: budget = 200
    rc, out, err = run_native(ctx, exe, [ctx.seed, budget] + list(args), timeout=timeout or budget + 120, env=env)
    res = dict(evaluations=0, distinct=0, rule='', samples=[], failures=[])
    for l in out.split('\n'):
        if l.startswith('STAT '):
            m = re.search(r'evals=(\d+) distinct=(\d+)', l)
            if m: res['evaluations'] += int(m.group(1)); res['distinct'] += int(m.group(2))
        elif l.startswith('RULE '): res['rule'] = l[5:]
        elif l.startswith('SAMPLE '): res['samples'].append(l[7:][:600])
        elif l.startswith('FAIL '):
            m = re.match(r'FAIL key=(\S+) :: (.*)$', l)
            if m: res['failures'].append(dict(key=m.group(1), desc=m.group(2).replace('\\n', '\n'), replay='%s seed=%d (source /verif/harness/%s.cpp, built against the current /repo)' % (name, ctx.seed, srcname or name)))
    if rc != 0:
        if rc == 'timeout':
            res['failures'].append(dict(key='timeout', desc='the real code did not terminate within the time limit on the harness inputs (last output: %s)' % out[-500:], replay='%s seed=%d' % (name, ctx.seed)))
        elif not res['failures']:
            cur = [l for l in out.split('\n') if l.startswith('CASE ')]
            res['failures'].append(dict(key='crash', desc='the real code crashed (exit %s) on: %s\n%s' % (rc, cur[-1][5:] if cur else '?', err[-3000:]), replay='%s seed=%d' % (name, ctx.seed)))
    return res

def merge(*rs):
    out = dict(evaluations=0, distinct=0, rule='', samples=[], failures=[])
    for r in rs:
        out['evaluations'] += r['evaluations']; out['distinct'] += r['distinct']
        out['rule'] += ('; ' if out['rule'] else '') + r['rule']
        out['samples'] += r['samples'][:2]; out['failures'] += r['failures']
    return out
