"""Shared wrapper-source helpers and shared contracts (KNN result list, Eigen 4-vectors, std containers)."""
import z3
from . import ir
from .sym import *
from .framework import *

def off_src(pairs):
    """[(cname, type, member)] -> C++ source exporting offsetof constants"""
    out = ['#include <cstddef>\n']
    for i, (n, t, m) in enumerate(pairs):
        out.append('namespace { using vp_t_%s = %s; }\nextern "C" { extern const unsigned long vp_%s; const unsigned long vp_%s = offsetof(vp_t_%s, %s); }\n' % (n, t, n, n, n, m))
    return ''.join(out)
def size_src(pairs):
    return ''.join('namespace { using vp_s_%s = %s; }\nextern "C" { extern const unsigned long vps_%s; const unsigned long vps_%s = sizeof(vp_s_%s); }\n' % (n, t, n, n, n) for n, t in pairs)

class Offs:
    def __init__(s, unit): s.u = unit
    def __getattr__(s, n):
        g = '@vp_' + n if ('@vp_' + n) in s.u.mod.globals else '@vps_' + n
        const, ty, v = ir.parse_global_init(s.u.mod, g)
        return v.v if v.k == 'int' else 0
    def __getitem__(s, n): return getattr(s, n)

DMAX = rv(DBL_MAX)

def forall(vs, body, pats=()):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.ForAll(list(vs), bv_(body), patterns=list(pats)) if pats else z3.ForAll(list(vs), bv_(body))

def V4F(): return [(0, 'double'), (8, 'double'), (16, 'double'), (24, 'double')]
def M4F(): return [(8 * i, 'double') for i in range(16)]
