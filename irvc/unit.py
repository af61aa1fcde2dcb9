"""Compile a wrapper TU against /repo's current headers and bring it to the scalar, fully inlined IR that the VC generator reads."""
import os, re, subprocess, hashlib, tempfile, shutil
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin'
CXX = shutil.which('clang++') or (LLVM + '/clang++')
CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off', '-fno-exceptions', '-fno-rtti', '-w',
          '-fno-access-control', '-I%s/include' % REPO, '-I/usr/include/eigen3']
OMPFLAGS = ['-fopenmp', '-I%s/irvc/inc' % VERIF]
PASSES = 'cgscc(inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)),function(gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce'

# additionally unrolls loops of a small constant trip count (fixed-size Eigen copies)
UNROLL = PASSES + ',function(loop-simplify,lcssa,loop(loop-rotate),loop-unroll<full-unroll-max=8;no-partial;no-runtime;no-peeling>,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce)'
# unrolls constant loops (clearing of fixed-size matrices) at the end, accumulators stay in memory
UNROLL_LATE = PASSES + ',function(loop-simplify,lcssa,loop-unroll<full-unroll-max=64;no-partial;no-runtime;no-peeling>,instcombine<no-verify-fixpoint>,simplifycfg)'

class UnitError(Exception):
    pass

# functions that stay calls (contract boundary); matched against the demangled name
DEFAULT_KEEP = [
    r'^std::ostream', r'std::operator<<', r'std::basic_ostream', r'std::endl',
]

def demangle(names):
    p = subprocess.run([LLVM + '/llvm-cxxfilt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

class Unit:
    def __init__(s, name, source, keep=(), extra_flags=(), roots=None, passes=PASSES, inline_anyway=(), keep_recursive=True, prefer_heads=()):
        s.prefer_heads = list(prefer_heads)
        s.name, s.source, s.keep, s.flags = name, source, list(keep), list(extra_flags)
        s.passes = passes; s.inline_anyway = list(inline_anyway); s.keep_recursive = keep_recursive
        s.roots = roots

    def build(s, workdir):
        os.makedirs(workdir, exist_ok=True)
        cpp = os.path.join(workdir, s.name + '.cpp')
        with open(cpp, 'w') as f: f.write(s.source)
        l0 = os.path.join(workdir, s.name + '.0.ll'); l1 = os.path.join(workdir, s.name + '.1.ll'); l2 = os.path.join(workdir, s.name + '.2.ll')
        r = subprocess.run([CXX] + CFLAGS + s.flags + ['-S', '-emit-llvm', cpp, '-o', l0], capture_output=True, text=True)
        if r.returncode: raise UnitError('clang failed on %s:\n%s' % (s.name, r.stderr[-3000:]))
        txt = open(l0).read()
        defs = re.findall(r'^define .*?(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', txt, re.M)
        dem = demangle(defs)
        s.dem0 = dem
        keepre = [re.compile(k) for k in DEFAULT_KEEP + s.keep]
        inl = [re.compile(k) for k in s.inline_anyway]
        noinl = set(d for d in defs if any(k.search(dem[d]) for k in keepre))
        # recursion (self or mutual) -> boundary
        calls = {}
        cur = None
        for l in txt.split('\n'):
            if l.startswith('define '):
                cur = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', l).group(1); calls[cur] = set()
            elif l == '}': cur = None
            elif cur and ('call ' in l):
                for g in re.findall(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', l): calls[cur].add(g)
        rec = set()
        if s.keep_recursive:
            rec = recursive_heads(calls, noinl, [d for d in defs if any(re.search(p, dem[d]) for p in s.prefer_heads)])
        s.recursive = {r: dem[r] for r in rec}
        noinl |= rec
        noinl -= set(d for d in noinl if any(k.search(dem[d]) for k in inl))
        s.kept = {d: dem[d] for d in noinl}
        out = []
        groups = dict(re.findall(r'^attributes (#\d+) = (\{.*\})$', txt, re.M)); extra = {}
        for l in txt.split('\n'):
            if l.startswith('define '):
                nm = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', l).group(1)
                if nm in noinl:
                    m = re.search(r'\) (?:[a-z_]+ )*(#\d+)', l)
                    if m and 'alwaysinline' in groups.get(m.group(1), ''):
                        g = '#%d' % (90000 + int(m.group(1)[1:])); extra[g] = groups[m.group(1)].replace('alwaysinline ', '')
                        l = l[:m.start(1)] + g + l[m.end(1):]
                    l = re.sub(r'^(define .*\)) ((?:[a-z_]+ )*)(#\d+)', r'\1 \2noinline \3', l, count=1)
            out.append(l)
        txt1 = '\n'.join(out + ['attributes %s = %s' % x for x in extra.items()])
        # attribute groups must not carry conflicting alwaysinline for kept fns
        open(l1, 'w').write(txt1)
        r = subprocess.run([LLVM + '/opt', '-S', '-passes=' + s.passes, '--inline-threshold=100000', '--inlinehint-threshold=100000', '--inlinecold-threshold=100000', l1, '-o', l2], capture_output=True, text=True)
        if r.returncode: raise UnitError('opt failed on %s:\n%s' % (s.name, r.stderr[-3000:]))
        s.text = open(l2).read()
        s.mod = ir.parse_module(s.text)
        names = list(s.mod.funcs) + list(s.mod.decls)
        s.dem = demangle([n for n in names if n != '!bad'])
        s.mod.dem = s.dem
        s.sha = hashlib.sha256(s.text.encode()).hexdigest()[:16]
        return s

    def find(s, pat, where='funcs'):
        rx = re.compile(pat)
        tab = s.mod.funcs if where == 'funcs' else s.mod.decls
        return [n for n in tab if n in s.dem and rx.search(s.dem[n])]

    def one(s, pat):
        r = s.find(pat)
        if not r: raise UnitError('no function matches /%s/ in unit %s' % (pat, s.name))
        if len(r) > 1:
            r.sort(key=lambda n: len(s.dem[n]))
        return r[0]

def sccs(calls, removed):
    import sys
    sys.setrecursionlimit(100000)
    idx = {}; low = {}; st = []; on = set(); res = []; c = [0]
    def sc(v):
        idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        for w in sorted(calls.get(v, ())):
            if w not in calls or w in removed: continue
            if w not in idx:
                sc(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v: break
            res.append(comp)
    for v in calls:
        if v not in idx and v not in removed: sc(v)
    return [comp for comp in res if len(comp) > 1 or comp[0] in calls.get(comp[0], ())]

def recursive_heads(calls, already, prefer):
    """functions that must stay calls so that the inlined call graph is acyclic: one head per cycle, preferably a function under contract"""
    out = set()
    while True:
        comps = sccs(calls, set(already) | out)
        if not comps: return out
        for comp in comps:
            pr = [c for c in comp if c in prefer]
            selfrec = [c for c in comp if c in calls[c]]
            out.add(sorted(pr or selfrec or comp, key=lambda c: (len(c), c))[0])
