"""Parser for textual LLVM 18 IR (the subset clang -O1 front-end output + our inlining pipeline produces)."""
import re, struct
from fractions import Fraction

class IRError(Exception):
    pass

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'name', 'packed')
    def __init__(s, k, n=0, el=None, els=None, name=None, packed=False):
        s.k, s.n, s.el, s.els, s.name, s.packed = k, n, el, els, name, packed
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'named': return s.name
        if s.k in ('array', 'vec'): return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.els))
        return s.k

VOID = Ty('void'); PTR = Ty('ptr'); F64 = Ty('double'); F32 = Ty('float'); LABEL = Ty('label'); META = Ty('metadata'); F80 = Ty('x86_fp80')
_ints = {}
def I(n):
    if n not in _ints: _ints[n] = Ty('i', n)
    return _ints[n]

TOK = re.compile(r'''\s+|;[^\n]*|(%"[^"]*"|@"[^"]*"|\$"[^"]*"|\$[-a-zA-Z$._0-9]+|%[-a-zA-Z$._0-9]+|@[-a-zA-Z$._0-9]+|c"[^"]*"|"[^"]*"|![-a-zA-Z$._0-9]*|\#\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+|[a-zA-Z_][-a-zA-Z0-9_.$]*|\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|])''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        if m.group(1) is not None:
            out.append(m.group(1))
        pos = m.end()
    return out

class TS:
    """token stream"""
    def __init__(s, toks, mod):
        s.t, s.p, s.mod = toks, 0, mod
    def peek(s, d=0):
        i = s.p + d
        return s.t[i] if i < len(s.t) else None
    def next(s):
        x = s.t[s.p]; s.p += 1
        return x
    def acc(s, x):
        if s.peek() == x:
            s.p += 1
            return True
        return False
    def exp(s, x):
        y = s.next()
        if y != x: raise IRError('expected %r got %r in %s' % (x, y, ' '.join(s.t[max(0, s.p - 8):s.p + 5])))
    def type(s):
        t = s.next()
        if t == 'void': r = VOID
        elif t == 'ptr':
            r = PTR
            if s.peek() == 'addrspace':
                s.p += 4
        elif t == 'double': r = F64
        elif t == 'float': r = F32
        elif t == 'x86_fp80': r = F80
        elif t == 'label': r = LABEL
        elif t == 'metadata': r = META
        elif t == 'token': r = Ty('token')
        elif re.fullmatch(r'i\d+', t): r = I(int(t[1:]))
        elif t[0] == '%': r = Ty('named', name=t)
        elif t == '[':
            n = int(s.next()); s.exp('x'); el = s.type(); s.exp(']')
            r = Ty('array', n=n, el=el)
        elif t == '<':
            n = int(s.next()); s.exp('x'); el = s.type(); s.exp('>')
            r = Ty('vec', n=n, el=el)
        elif t in ('{', '<{'):
            close = '}' if t == '{' else '}>'
            els = []
            if not s.acc(close):
                while True:
                    els.append(s.type())
                    if s.acc(close): break
                    s.exp(',')
            r = Ty('struct', els=els, packed=(t == '<{'))
        else:
            raise IRError('type? %r' % t)
        while s.peek() == '(' and r.k != 'x':   # function type
            depth = 0
            while True:
                x = s.next()
                if x == '(': depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0: break
            r = Ty('func', el=r)
        return r

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'nofree', 'inrange',
               'noreturn', 'nounwind', 'swiftself', 'allocptr', 'allocalign', 'nest', 'dead_on_unwind', 'writable', 'mustprogress'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'memory', 'range', 'nofpclass', 'captures', 'initializes', 'preallocated', 'inalloca'}

def skip_attrs(ts):
    sret = None
    while True:
        t = ts.peek()
        if t in PARAM_ATTRS:
            ts.p += 1
        elif t in PARAM_ATTRS_P:
            ts.p += 1
            if ts.peek() == '(':
                d = 0
                while True:
                    x = ts.next()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            else:
                ts.p += 1
        else:
            return

class Operand:
    """('reg',name) ('int',v) ('fp',Fraction) ('null',) ('undef',) ('zero',) ('global',name) ('gep',...) ('agg', list) ('bool',b) ('cexpr',...)"""
    __slots__ = ('k', 'v', 'ty')
    def __init__(s, k, v, ty): s.k, s.v, s.ty = k, v, ty
    def __repr__(s): return '%s:%r' % (s.k, s.v)

def hexfp(t):
    if t.startswith('0xK'): 
        raise IRError('fp80 const')
    bits = int(t[2:], 16)
    return struct.unpack('>d', struct.pack('>Q', bits))[0]

def parse_val(ts, ty):
    t = ts.next()
    if t[0] == '%': return Operand('reg', t, ty)
    if t[0] == '@': return Operand('global', t, ty)
    if t == 'null': return Operand('null', None, ty)
    if t in ('undef', 'poison'): return Operand('undef', None, ty)
    if t == 'zeroinitializer': return Operand('zero', None, ty)
    if t in ('true', 'false'): return Operand('bool', t == 'true', ty)
    if re.fullmatch(r'-?\d+', t) and ty.k == 'i': return Operand('int', int(t), ty)
    if t.startswith('0x'):
        v = hexfp(t)
        return Operand('fp', v, ty)
    if re.match(r'-?\d', t): return Operand('fp', float(t), ty)
    if t == 'getelementptr':
        inb = ts.acc('inbounds')
        if ts.peek() == 'inrange': ts.p += 1
        ts.exp('(')
        bt = ts.type(); ts.exp(',')
        ops = []
        while True:
            ts.acc('inrange')
            oty = ts.type()
            ops.append(parse_val(ts, oty))
            if ts.acc(')'): break
            ts.exp(',')
        return Operand('gep', (bt, ops), ty)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        ts.exp('(')
        oty = ts.type(); v = parse_val(ts, oty); ts.exp('to'); dty = ts.type(); ts.exp(')')
        return Operand('ccast', (t, v), dty)
    if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'icmp', 'select'):
        d = 0
        toks = []
        while ts.peek() != '(': toks.append(ts.next())
        while True:
            x = ts.next(); toks.append(x)
            if x == '(': d += 1
            if x == ')':
                d -= 1
                if d == 0: break
        return Operand('cexpr', (t, toks), ty)
    if t in ('[', '{', '<', '<{'):
        close = {'[': ']', '{': '}', '<': '>', '<{': '}>'}[t]
        els = []
        if not ts.acc(close):
            while True:
                ety = ts.type(); els.append(parse_val(ts, ety))
                if ts.acc(close): break
                ts.exp(',')
        return Operand('agg', els, ty)
    if t.startswith('c"'):
        raw = t[2:-1]
        bs = []
        i = 0
        while i < len(raw):
            if raw[i] == '\\': bs.append(int(raw[i + 1:i + 3], 16)); i += 3
            else: bs.append(ord(raw[i])); i += 1
        return Operand('str', bytes(bs), ty)
    if t == 'asm': raise IRError('asm')
    raise IRError('value? %r %r' % (t, ty))

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text')
    def __init__(s, op, res, ty, a, x, text): s.op, s.res, s.ty, s.a, s.x, s.text = op, res, ty, a, x, text
    def __repr__(s): return s.text

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'volatile', 'tail', 'musttail', 'notail'}

class Func:
    def __init__(s, name, params, ret):
        s.name, s.params, s.ret = name, params, ret
        s.blocks = {}      # label -> [Ins]
        s.order = []
        s.entry = None
        s.attrs = ''

class Module:
    def __init__(s):
        s.types = {}; s.funcs = {}; s.decls = {}; s.globals = {}; s.aliases = {}
        s._lay = {}
    # layout -----------------------------------------------------------
    def resolve(s, t):
        while t.k == 'named':
            t = s.types[t.name]
            if t is None: raise IRError('opaque type')
        return t
    def size_align(s, t):
        if t.k == 'named':
            if t.name in s._lay: return s._lay[t.name]
            r = s.size_align(s.resolve(t)); s._lay[t.name] = r
            return r
        if t.k == 'i':
            b = (t.n + 7) // 8
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16))
        if t.k == 'ptr': return (8, 8)
        if t.k == 'double': return (8, 8)
        if t.k == 'float': return (4, 4)
        if t.k == 'x86_fp80': return (16, 16)
        if t.k == 'array':
            sz, al = s.size_align(t.el)
            return (sz * t.n, al)
        if t.k == 'vec':
            sz, al = s.size_align(t.el)
            return (sz * t.n, sz * t.n)
        if t.k == 'struct':
            off, al = 0, 1
            for e in t.els:
                sz, a = s.size_align(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a + sz
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError('size of %r' % t)
    def sizeof(s, t): return s.size_align(t)[0]
    def field_off(s, t, i):
        t = s.resolve(t)
        off = 0
        for j, e in enumerate(t.els):
            sz, a = s.size_align(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off
            off += sz
        raise IRError('field')
    def flatten(s, t, base=0):
        """list of (offset, scalar type)"""
        t = s.resolve(t)
        if t.k in ('i', 'ptr', 'double', 'float', 'x86_fp80'): return [(base, t)]
        if t.k in ('array', 'vec'):
            sz = s.sizeof(t.el)
            r = []
            if t.n > 4096: raise IRError('huge array')
            for i in range(t.n): r += s.flatten(t.el, base + i * sz)
            return r
        if t.k == 'struct':
            r = []
            for i, e in enumerate(t.els): r += s.flatten(e, base + s.field_off(t, i))
            return r
        raise IRError('flatten %r' % t)

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rhs = l.split(' = type ', 1)
            if rhs.strip() == 'opaque': m.types[nm] = None
            else: m.types[nm] = TS(tokenize(rhs), m).type()
        elif l.startswith('@'):
            parse_global(m, l)
        elif l.startswith('declare '):
            parse_header(m, l, True)
        elif l.startswith('define '):
            j = i + 1
            while lines[j] != '}': j += 1
            try:
                f = parse_header(m, l, False)
                f.raw = lines[i + 1:j]
                f.parsed = False
                m.funcs[f.name] = f
            except IRError as e:
                m.decls.setdefault('!bad', []).append((l[:200], str(e)))
            i = j
        i += 1
    return m

def parse_global(m, l):
    nm = l.split(' = ', 1)[0]
    rhs = l.split(' = ', 1)[1]
    if ' alias ' in ' ' + rhs:
        mm = re.search(r', ptr (@"[^"]*"|@[-a-zA-Z$._0-9]+)', rhs)
        if mm: m.aliases[nm] = mm.group(1)
        return
    mm = re.search(r'\b(global|constant) (.*)$', rhs)
    if not mm: return
    m.globals[nm] = (mm.group(1) == 'constant', mm.group(2), 'external' in rhs.split(mm.group(1))[0])

def parse_global_init(m, nm):
    """returns (const?, type, Operand or None)"""
    const, rest, ext = m.globals[nm]
    ts = TS(tokenize(rest), m)
    ty = ts.type()
    if ext or ts.peek() is None or ts.peek() == ',': return const, ty, None
    try:
        v = parse_val(ts, ty)
    except IRError:
        v = None
    return const, ty, v

LINK = {'dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'available_externally', 'hidden', 'linkonce', 'weak', 'external', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'protected', 'extern_weak'}
def parse_header(m, l, decl):
    l = re.sub(r'^(declare|define) ((?:![\w.]+ !\d+ )+)', r'\1 ', l)
    toks = tokenize(l[len('declare '):] if decl else l[len('define '):].rsplit('{', 1)[0])
    ts = TS(toks, m)
    while True:
        if ts.peek() in LINK: ts.p += 1
        elif ts.peek() in PARAM_ATTRS or ts.peek() in PARAM_ATTRS_P: skip_attrs(ts)
        else: break
    ret = ts.type()
    name = ts.next()
    ts.exp('(')
    params = []
    if not ts.acc(')'):
        while True:
            if ts.acc('...'):
                ts.exp(')'); break
            ty = ts.type()
            skip_attrs(ts)
            pn = None
            if ts.peek()[0] == '%': pn = ts.next()
            params.append((ty, pn))
            if ts.acc(')'): break
            ts.exp(',')
    if decl:
        m.decls[name] = (ret, params, ' '.join(toks[ts.p:]))
        return None
    f = Func(name, params, ret)
    f.attrs = ' '.join(toks[ts.p:])
    return f

def ensure_parsed(m, f):
    if f.parsed: return f
    f.parsed = True
    # number unnamed params
    cnt = 0
    ps = []
    for ty, pn in f.params:
        if pn is None:
            pn = '%%%d' % cnt
        if re.fullmatch(r'%\d+', pn): cnt = int(pn[1:]) + 1
        ps.append((ty, pn))
    f.params = ps
    cur = None
    first = True
    raw = f.raw
    k = 0
    while k < len(raw):
        l = raw[k]; k += 1
        s = l.strip()
        if not s or s.startswith(';'): continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if mm:
            cur = '%' + mm.group(1)
            f.blocks[cur] = []; f.order.append(cur)
            if first: f.entry = cur; first = False
            continue
        if cur is None:
            cur = '%%%d' % cnt
            f.blocks[cur] = []; f.order.append(cur); f.entry = cur; first = False
        if s.startswith('switch ') or ' = landingpad' in s:
            while ']' not in s.split('[', 1)[-1] and '[' in s:
                s += ' ' + raw[k].strip(); k += 1
        f.blocks[cur].append(parse_ins(m, s))
    return f

def parse_ins(m, s):
    body = s
    toks = tokenize(body)
    # cut metadata
    ts = TS(toks, m)
    res = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        res = toks[0]; ts.p = 2
    op = ts.next()
    flags = set()
    while op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    while ts.peek() in FLAGS: flags.add(ts.next())
    if op in BIN:
        ty = ts.type(); a = parse_val(ts, ty); ts.exp(','); b = parse_val(ts, ty)
        return Ins(op, res, ty, [a, b], flags, s)
    if op == 'fneg' or op == 'freeze':
        ty = ts.type(); a = parse_val(ts, ty)
        return Ins(op, res, ty, [a], flags, s)
    if op in ('icmp', 'fcmp'):
        pred = ts.next(); ty = ts.type(); a = parse_val(ts, ty); ts.exp(','); b = parse_val(ts, ty)
        return Ins(op, res, I(1), [a, b], pred, s)
    if op in CAST:
        ty = ts.type(); a = parse_val(ts, ty); ts.exp('to'); dty = ts.type()
        return Ins(op, res, dty, [a], flags, s)
    if op == 'alloca':
        ty = ts.type()
        cnt = None
        if ts.acc(','):
            if ts.peek() != 'align':
                cty = ts.type(); cnt = parse_val(ts, cty)
        return Ins(op, res, PTR, [cnt] if cnt else [], ty, s)
    if op == 'load':
        at = ts.acc('atomic')
        while ts.peek() in FLAGS: ts.next()
        ty = ts.type(); ts.exp(','); pt = ts.type(); p = parse_val(ts, pt)
        return Ins(op, res, ty, [p], at, s)
    if op == 'store':
        at = ts.acc('atomic')
        while ts.peek() in FLAGS: ts.next()
        ty = ts.type(); v = parse_val(ts, ty); ts.exp(','); pt = ts.type(); p = parse_val(ts, pt)
        return Ins(op, None, ty, [v, p], at, s)
    if op == 'getelementptr':
        bt = ts.type(); ts.exp(',')
        ops = []
        while True:
            oty = ts.type(); ops.append(parse_val(ts, oty))
            if ts.peek() == ',' and ts.peek(1) is not None and not ts.peek(1).startswith('!'):
                ts.p += 1
                continue
            break
        return Ins(op, res, PTR, ops, bt, s)
    if op == 'select':
        cty = ts.type(); c = parse_val(ts, cty); ts.exp(',')
        ty = ts.type(); a = parse_val(ts, ty); ts.exp(','); ty2 = ts.type(); b = parse_val(ts, ty2)
        return Ins(op, res, ty, [c, a, b], flags, s)
    if op == 'phi':
        ty = ts.type()
        inc = []
        while True:
            ts.exp('['); v = parse_val(ts, ty); ts.exp(','); lb = ts.next(); ts.exp(']')
            inc.append((v, lb))
            if ts.peek() == ',' and ts.peek(1) == '[': ts.p += 1; continue
            break
        return Ins(op, res, ty, inc, flags, s)
    if op == 'br':
        if ts.acc('label'):
            return Ins('br', None, VOID, [], [ts.next()], s)
        ty = ts.type(); c = parse_val(ts, ty); ts.exp(','); ts.exp('label'); a = ts.next(); ts.exp(','); ts.exp('label'); b = ts.next()
        return Ins('cbr', None, VOID, [c], [a, b], s)
    if op == 'switch':
        ty = ts.type(); v = parse_val(ts, ty); ts.exp(','); ts.exp('label'); d = ts.next(); ts.exp('[')
        cases = []
        while not ts.acc(']'):
            cty = ts.type(); cv = parse_val(ts, cty); ts.exp(','); ts.exp('label'); cases.append((cv.v, ts.next()))
        return Ins('switch', None, ty, [v], (d, cases), s)
    if op == 'ret':
        ty = ts.type()
        if ty.k == 'void': return Ins('ret', None, ty, [], None, s)
        return Ins('ret', None, ty, [parse_val(ts, ty)], None, s)
    if op == 'unreachable':
        return Ins('unreachable', None, VOID, [], None, s)
    if op in ('call', 'invoke'):
        while ts.peek() in ('fastcc', 'ccc', 'coldcc'): ts.p += 1
        skip_attrs(ts)
        ty = ts.type()
        if ty.k == 'func': ty = ty.el
        if ts.peek() == 'asm':
            return Ins('asm', res, ty, [], None, s)
        fn = ts.next()
        ts.exp('(')
        args = []
        if not ts.acc(')'):
            while True:
                aty = ts.type()
                if aty.k == 'metadata':
                    d = 0
                    while not (d == 0 and ts.peek() in (',', ')')):
                        x = ts.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append(Operand('undef', None, aty))
                else:
                    skip_attrs(ts)
                    args.append(parse_val(ts, aty))
                if ts.acc(')'): break
                ts.exp(',')
        return Ins('call', res, ty, args, fn, s)
    if op == 'extractvalue':
        ty = ts.type(); a = parse_val(ts, ty)
        idx = []
        while ts.acc(','): 
            if ts.peek() and ts.peek()[0] == '!': break
            idx.append(int(ts.next()))
        return Ins(op, res, ty, [a], idx, s)
    if op == 'insertvalue':
        ty = ts.type(); a = parse_val(ts, ty); ts.exp(','); ety = ts.type(); v = parse_val(ts, ety)
        idx = []
        while ts.acc(','):
            if ts.peek() and ts.peek()[0] == '!': break
            idx.append(int(ts.next()))
        return Ins(op, res, ty, [a, v], idx, s)
    if op == 'atomicrmw':
        while ts.peek() in FLAGS: ts.next()
        bop = ts.next(); pt = ts.type(); p = parse_val(ts, pt); ts.exp(','); ty = ts.type(); v = parse_val(ts, ty)
        return Ins(op, res, ty, [p, v], bop, s)
    if op == 'cmpxchg':
        ts.acc('weak')
        pt = ts.type(); p = parse_val(ts, pt); ts.exp(','); ty = ts.type(); c = parse_val(ts, ty); ts.exp(','); ty2 = ts.type(); nv = parse_val(ts, ty2)
        return Ins(op, res, ty, [p, c, nv], None, s)
    if op == 'fence':
        return Ins(op, None, VOID, [], None, s)
    return Ins('unsupported', res, VOID, [], op, s)

# ---------------------------------------------------------------- CFG
def successors(ins):
    if ins.op in ('br', 'cbr'): return list(ins.x)
    if ins.op == 'switch': return [ins.x[0]] + [l for _, l in ins.x[1]]
    return []

class Loop:
    def __init__(s, header): s.header = header; s.body = {header}; s.latches = []; s.parent = None; s.idx = 0

def loops_of(f):
    """natural loops: {header: Loop}, via dominators"""
    succ = {b: successors(f.blocks[b][-1]) for b in f.order}
    preds = {b: [] for b in f.order}
    for b, ss in succ.items():
        for t in ss: preds[t].append(b)
    # RPO
    seen = set(); post = []
    stack = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for t in it:
            if t not in seen:
                seen.add(t); stack.append((t, iter(succ[t]))); break
        else:
            post.append(b); stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for t in succ[b]:
            if t in num and num[t] <= num[b]:
                if not dom(t, b): raise IRError('irreducible loop in ' + f.name)
                L = loops.setdefault(t, Loop(t))
                L.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.body: continue
                    L.body.add(x)
                    work += [p for p in preds[x] if p in num]
    hs = sorted(loops, key=lambda h: num[h])
    for i, h in enumerate(hs):
        loops[h].idx = i
    for h in hs:
        best = None
        for g in hs:
            if g != h and h in loops[g].body and (best is None or len(loops[g].body) < len(loops[best].body)): best = g
        loops[h].parent = best
    return loops
