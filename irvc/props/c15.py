"""C15: optimisers never worsen the objective and report the truth."""
from ..common import *
from ..unit import UNROLL_LATE
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['the linear solver returns an arbitrary 6-vector (nothing is assumed about its accuracy)', 'se3_exp is a function of its argument (its contract is C16)', 'the reduction returns, at a pose, the system and error of the correspondences chosen at that pose, and error() evaluates the same objective at another pose (C12, C14)',
               'the general factor adds its part to H, b and e', 'lambda_factor > 0', 'printing to std::cout has no effect on the result']
SRC = '''
#include <vector>
#include <tuple>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <small_gicp/registration/optimizer.hpp>
#include <small_gicp/registration/termination_criteria.hpp>
using namespace small_gicp;
using M6 = Eigen::Matrix<double, 6, 6>; using V6 = Eigen::Matrix<double, 6, 1>;
struct Cl { double x; }; struct Tr { double x; }; struct Rj { double x; };
struct AF { double a, b, c; bool inlier() const; };
struct Red { double x; std::tuple<M6, V6, double> linearize(const Cl&, const Cl&, const Tr&, const Rj&, const Eigen::Isometry3d&, std::vector<AF>&) const; double error(const Cl&, const Cl&, const Eigen::Isometry3d&, std::vector<AF>&) const; };
struct GF { double x; void update_linearized_system(const Cl&, const Cl&, const Tr&, const Eigen::Isometry3d&, M6*, V6*, double*) const; void update_error(const Cl&, const Cl&, const Eigen::Isometry3d&, double*) const; };
#define FN(N, O) void vp_##N(RegistrationResult* o, const O& opt, const Cl& t, const Cl& s, const Tr& tr, const Rj& rj, const TerminationCriteria& c, Red& red, const Eigen::Isometry3d& T, std::vector<AF>& f, GF& g) { new (o) RegistrationResult(opt.optimize(t, s, tr, rj, c, red, T, f, g)); }
FN(gn, GaussNewtonOptimizer)
FN(lm, LevenbergMarquardtOptimizer)
bool vp_conv(const TerminationCriteria& c, const V6& d) { return c.converged(d); }
void vp_gctor(GaussNewtonOptimizer* o) { new (o) GaussNewtonOptimizer(); }
void vp_lctor(LevenbergMarquardtOptimizer* o) { new (o) LevenbergMarquardtOptimizer(); }
'''
SOLVERS = r'(LDLT|LLT|PartialPivLU|FullPivLU|ColPivHouseholderQR|FullPivHouseholderQR|HouseholderQR|CompleteOrthogonalDecomposition)<'
KEEP = [r'Eigen::' + SOLVERS, r'Eigen::Solve<Eigen::' + SOLVERS, r'^small_gicp::se3_exp', r'TerminationCriteria::converged\(', r'ostream']
RES = [('T', 'T_target_source'), ('conv', 'converged'), ('it', 'iterations'), ('inl', 'num_inliers'), ('H', 'H'), ('b', 'b'), ('e', 'error')]
def src():
    G, L = 'small_gicp::GaussNewtonOptimizer', 'small_gicp::LevenbergMarquardtOptimizer'
    return SRC + off_src([('r_' + a, 'small_gicp::RegistrationResult', m) for a, m in RES] + [('g_max', G, 'max_iterations'), ('g_v', G, 'verbose'), ('l_max', L, 'max_iterations'), ('l_in', L, 'max_inner_iterations'), ('l_v', L, 'verbose'), ('l_lf', L, 'lambda_factor'), ('c_t', 'small_gicp::TerminationCriteria', 'translation_eps'), ('c_r', 'small_gicp::TerminationCriteria', 'rotation_eps')]
      + [('tp_%s' % n, 'std::tuple_dummy', n) for n in ()]) + size_src([('res', 'small_gicp::RegistrationResult'), ('gn', G), ('lm', L), ('tc', 'small_gicp::TerminationCriteria')])
LN = [(a, b) for b in range(4) for a in range(3)]          # pose lanes: rotation columns and translation
POFF = [8 * (a + 4 * b) for a, b in LN]

class World:
    def __init__(s, ex, st, o, kind):
        s.ex, s.o, s.kind = ex, o, kind
        R12 = [RealS] * 12
        s.Err = z3.Function('Err', IntS, *R12, RealS); s.Obj = z3.Function('Obj', IntS, *R12, RealS)       # factor errors / objective of a pose under the correspondences of linearisation number e
        s.Hf = [z3.Function('H_%d' % k, IntS, RealS) for k in range(36)]; s.bf = [z3.Function('b_%d' % k, IntS, RealS) for k in range(6)]
        s.Hr = [z3.Function('Hred_%d' % k, IntS, RealS) for k in range(36)]; s.br = [z3.Function('bred_%d' % k, IntS, RealS) for k in range(6)]
        s.E = [z3.Function('exp_%d' % k, *([RealS] * 6), RealS) for k in range(12)]
        s.Conv = z3.Function('step_below_thresholds', *([RealS] * 6), BoolS)
        s.inl = z3.Function('is_inlier', IntS, BoolS); s.C = z3.Function('inliers_below', IntS, IntS)
        s.n = z3.Int('n'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 40)); st.assume(s.C(0) == 0)
        s.F = Region('factors', 1, 24, [(8 * k, 'double') for k in range(3)], length=s.n, const=True)
        s.vec = Region('factor_vector', size=24); cap = z3.Int('cap'); st.assume(cap >= s.n)
        for k, v in ((0, 0), (8, s.n), (16, cap)): st.mem[(s.vec, k)] = ('ptr', Ptr(s.F, (v,)))
        s.vec.const = True
        s.t, s.s, s.tr, s.rj, s.red, s.gf = [Region(x, size=8, const=True) for x in ('target', 'source', 'target_tree', 'rejector', 'reduction', 'general_factor')]
        s.crit = Region('criteria', size=o.tc, const=True)
        s.opt = Region('optimizer', size=o[kind], const=False)
        s.max = z3.Int('max_iterations'); st.assume(z3.And(s.max >= 1, s.max < 2 ** 31)); st.mem[(s.opt, o[kind[0] + '_max'])] = ('i32', s.max)
        f = ex.load(st, Ptr(s.opt, (), o[kind[0] + '_v']), 'i8'); st.assume(z3.Or(iv(f) == 0, iv(f) == 1))
        if kind == 'lm': st.assume(rv(ex.load(st, Ptr(s.opt, (), o.l_lf), 'double')) > 0)
        s.opt.const = True
        s.T = Region('init_T', size=128, const=True); s.init = s.pose(st, Ptr(s.T))
        for b in range(4): st.mem[(s.T, 8 * (3 + 4 * b))] = ('double', Fraction(1 if b == 3 else 0))
        s.r = Region('result', size=o.res)
        st.mem[('ghost', 'ep')] = z3.IntVal(0)
        for k in range(12): st.mem[('ghost', 'Tp', k)] = rv(s.init[k])
        for k in range(6): st.mem[('ghost', 'd', k)] = z3.RealVal(0)
        for k in range(12): st.mem[('ghost', 'S', k)] = z3.RealVal(0)
        s.args = [Ptr(x) for x in (s.r, s.opt, s.t, s.s, s.tr, s.rj, s.crit, s.red, s.T, s.vec, s.gf)]
    def pose(s, st, p): return [rv(s.ex.asreal(s.ex.load(st, s.ex.padd_const(p, k), 'double'))) for k in POFF]
    def ep(s, st): return st.mem[('ghost', 'ep')]
    def Tp(s, st): return [st.mem[('ghost', 'Tp', k)] for k in range(12)]
    def d(s, st): return [st.mem[('ghost', 'd', k)] for k in range(6)]
    def step(s, st):
        """lanes of Tp * exp(d)"""
        return [st.mem[('ghost', 'S', k)] for k in range(12)]
    def mkstep(s, st):
        T, E = s.Tp(st), [f(*s.d(st)) for f in s.E]
        at = lambda M, a, b: M[a + 3 * b]
        out = []
        for a, b in LN:
            v = sum((at(T, a, c) * at(E, c, b) for c in range(1, 3)), at(T, a, 0) * at(E, 0, b))
            out.append(v + at(T, a, 3) if b == 3 else v)
        return out
    def same(s, P, Q): return z3.And([p == q for p, q in zip(P, Q)])
    def legal(s, st, P):
        """P may follow the current pose Tp"""
        return z3.Or(s.same(P, s.Tp(st)), z3.And(s.same(P, s.step(st)), s.Obj(s.ep(st), *P) <= s.Obj(s.ep(st), *s.Tp(st)))) if s.kind == 'lm' else s.same(P, s.step(st))
    def who(s, ex, st, pairs):
        for nm, p, r in pairs: ex.oblige(st, z3.BoolVal(isinstance(p, Ptr) and p.r is r and p.off == 0), 'called with the caller\'s ' + nm, 'pre')

def contracts(box):
    def linearize(ex, st, ins, a):
        W = box['W']; ret, this, t, src, tr, rj, T, f = a
        W.who(ex, st, [('target', t, W.t), ('source', src, W.s), ('search tree', tr, W.tr), ('rejector', rj, W.rj), ('factors', f, W.vec)])
        P = W.pose(st, T); ep = W.ep(st)
        ex.oblige(st, z3.If(ep == 0, W.same(P, W.init), W.legal(st, P)), 'the pose linearised is the initial pose, or the previous one followed by an accepted step', 'pre')
        ep1 = z3.simplify(ep + 1); st.mem[('ghost', 'ep')] = ep1
        for k in range(12): st.mem[('ghost', 'Tp', k)] = P[k]
        ex.store(st, ret, W.Err(ep1, *P), 'double')
        for k in range(6): ex.store(st, ex.padd_const(ret, 8 + 8 * k), W.br[k](ep1), 'double')
        for k in range(36): ex.store(st, ex.padd_const(ret, 56 + 8 * k), W.Hr[k](ep1), 'double')
        return UNDEF
    def upd(ex, st, ins, a):
        W = box['W']; this, t, src, tr, T, H, b, e = a
        W.who(ex, st, [('target', t, W.t), ('source', src, W.s), ('search tree', tr, W.tr)])
        P = W.pose(st, T); ep = W.ep(st)
        ex.oblige(st, W.same(P, W.Tp(st)), 'the general factor is linearised at the same pose', 'pre')
        ld = lambda p, k: rv(ex.asreal(ex.load(st, ex.padd_const(p, k), 'double')))
        ex.oblige(st, ld(e, 0) == W.Err(ep, *P), 'the general factor is added to the error of the factors', 'pre')
        for k in range(36): ex.oblige(st, ld(H, 8 * k) == W.Hr[k](ep), 'the general factor is added to the reduced system', 'pre'); ex.store(st, ex.padd_const(H, 8 * k), W.Hf[k](ep), 'double')
        for k in range(6): ex.oblige(st, ld(b, 8 * k) == W.br[k](ep), 'the general factor is added to the reduced system', 'pre'); ex.store(st, ex.padd_const(b, 8 * k), W.bf[k](ep), 'double')
        ex.store(st, e, W.Obj(ep, *P), 'double')
        return UNDEF
    def error(ex, st, ins, a):
        W = box['W']; this, t, src, T, f = a
        W.who(ex, st, [('target', t, W.t), ('source', src, W.s), ('factors', f, W.vec)])
        return W.Err(W.ep(st), *W.pose(st, T))
    def upde(ex, st, ins, a):
        W = box['W']; this, t, src, T, e = a
        W.who(ex, st, [('target', t, W.t), ('source', src, W.s)])
        P = W.pose(st, T); ep = W.ep(st)
        ex.oblige(st, rv(ex.asreal(ex.load(st, e, 'double'))) == W.Err(ep, *P), 'the general factor is added to the factor errors of the same pose', 'pre')
        ex.store(st, e, W.Obj(ep, *P), 'double')
        return UNDEF
    def solve(ex, st, ins, a):
        for k in range(6):
            v = freal('delta'); st.mem[('ghost', 'd', k)] = v; ex.store(st, ex.padd_const(a[0], 8 * k), v, 'double')
        for k, v in enumerate(box['W'].mkstep(st)): st.mem[('ghost', 'S', k)] = v
        return UNDEF
    def exp(ex, st, ins, a):
        W = box['W']; d = [rv(ex.asreal(ex.load(st, ex.padd_const(a[1], 8 * k), 'double'))) for k in range(6)]
        for k in range(12): ex.store(st, ex.padd_const(a[0], POFF[k]), W.E[k](*d), 'double')
        for b in range(4): ex.store(st, ex.padd_const(a[0], 8 * (3 + 4 * b)), Fraction(1 if b == 3 else 0), 'double')
        return UNDEF
    def conv(ex, st, ins, a):
        W = box['W']; W.who(ex, st, [('termination criteria', a[0], W.crit)])
        return W.Conv(*[rv(ex.asreal(ex.load(st, ex.padd_const(a[1], 8 * k), 'double'))) for k in range(6)])
    def inlier(ex, st, ins, a):
        W = box['W']; this = a[0]
        ok = isinstance(this, Ptr) and this.r is W.F and this.off == 0
        ex.oblige(st, z3.BoolVal(ok), 'the factor counted is an element of the factor list', 'pre')
        i = iv(this.key[-1]); st.assume(W.C(i + 1) == W.C(i) + z3.If(W.inl(i), 1, 0)); ex.oblige(st, z3.And(i >= 0, i < W.n), 'the factor counted is in the list', 'pre')
        return W.inl(i)
    out = lambda ex, st, ins, a: a[0]
    sret = lambda ex, st, ins, a: (Agg([Ptr(Region('x', size=8, local=True))] * 2))
    return [(r'^Red::linearize', linearize), (r'^Red::error', error), (r'^GF::update_linearized_system', upd), (r'^GF::update_error', upde), (r'^AF::inlier', inlier), (r'^small_gicp::se3_exp', exp), (r'TerminationCriteria::converged', conv),
            (r'^Eigen::Matrix<double, 6, 1, 0, 6, 1>::Matrix<Eigen::Solve<', solve), (r'^Eigen::Matrix<double, 6, 1, 0, 6, 1>& .*operator=<Eigen::Solve<|_set_noalias<Eigen::Solve<', solve), (r'Eigen::SolverBase<.*>::solve<|::solve<', sret), (r'Eigen::' + SOLVERS + r'.*(>::~|::LDLT<|::LLT<|::\w+<Eigen::CwiseBinaryOp|>::compute<)', lambda ex, st, ins, a: a[0] if a else UNDEF),
            (r'Eigen::SolverBase<.*>::~', lambda ex, st, ins, a: UNDEF), (r'ostream', out)]

def loops(box):
    def go(L):
        W = box['W']; ex, st, o = L.ex, L.st, box['W'].o; out = []
        mods = set(L.mods); ghost = any(k[0] == 'ghost' for k in mods)
        ep, Tp, d = W.ep(st), W.Tp(st), W.d(st); stp = W.step(st)
        first = ep == 0
        ld = lambda off: st.mem.get((W.r, off), (None, None))[1]
        mod = lambda off: (W.r, off) in mods or ghost
        rT = []
        if all(ld(o.r_T + k) is not None for k in POFF): rT = [rv(ex.asreal(ld(o.r_T + k))) for k in POFF]
        cv = ld(o.r_conv)
        if cv is not None and mod(o.r_conv):
            c = iv(ex.asint(st, cv))
            out += [('converged is a flag', z3.Or(c == 0, c == 1)), ('converged only after a step below the thresholds', z3.Implies(c != 0, z3.And(ep >= 1, W.Conv(*d)))), ('not converged', c == 0)]
        outer = ('ghost', 'ep') in mods
        if outer: out += [('0<=linearisations', ep >= 0), ('linearisations<=max', ep <= W.max), ('1<=linearisations', ep >= 1)]
        if rT and outer:
            for k in range(12): out.append(('pose lane %d: initial or stepped' % k, rT[k] == z3.If(first, W.init[k], stp[k])))
            if W.kind == 'lm': out += [('objective not worse', z3.Implies(z3.Not(first), W.Obj(ep, *rT) <= W.Obj(ep, *Tp)))]
            e = ld(o.r_e)
            if e is not None: out += [('reported error', z3.Implies(z3.Not(first), rv(ex.asreal(e)) == W.Obj(ep, *(rT if W.kind == 'lm' else Tp))))]
            for nm, base, fs in (('H', o.r_H, W.Hf), ('b', o.r_b, W.bf)):
                for k, f in enumerate(fs):
                    v = ld(base + 8 * k)
                    if v is not None and v is not UNDEF: out.append(('%s[%d] is that of the last linearisation' % (nm, k), z3.Implies(z3.Not(first), rv(ex.asreal(v)) == f(ep))))
            it = ld(o.r_it)
            if it is not None: out.append(('iterations', z3.Implies(z3.Not(first), iv(ex.asint(st, it)) == ep - 1)))
        for n in L.phis:
            c = L.cur[n]
            if isinstance(c, Ptr):
                if c.r is W.F: q = iv(c.key[-1])
                else: continue
            elif L.tys[n].k == 'i' and L.tys[n].n > 1: q = iv(c.term() if isinstance(c, Scaled) else c)
            elif L.tys[n].k == 'double':
                out.append(('%s is the objective of the current pose' % n, rv(ex.asreal(c)) == W.Obj(ep, *Tp)))
                continue
            elif L.tys[n].k == 'i': out.append(('%s false' % n, z3.Not(bv_(ex.asbool(c))))); continue
            else: continue
            if L.tys[n].n == 8:
                if cv is not None: out.append(('%s is the convergence flag' % n, q == iv(ex.asint(st, cv))))
                continue
            if outer: out += [('%s counts linearisations' % n, q == ep)]
            out += [('%s<max' % n, q < W.max), ('%s<=max' % n, q <= W.max), ('%s<=n' % n, q <= W.n), ('%s>=0' % n, q >= 0)]
            for m in L.phis:
                if m != n and not isinstance(L.cur[m], Ptr) and L.tys[m].k == 'i' and L.tys[m].n > 1:
                    x = L.cur[m]; x = iv(x.term() if isinstance(x, Scaled) else x); out += [('%s = inliers below %s' % (m, n), x == W.C(q)), ('%s <= %s' % (m, n), x <= q)]
        for key in mods:
            if len(key) == 2 and isinstance(key[0], Region) and key[0].local and st.mem.get(key, (0, 0))[0] == 'double' and st.mem[key][1] is not UNDEF:
                out.append(('%s+%d is the objective of the current pose' % (key[0].name, key[1]), rv(ex.asreal(st.mem[key][1])) == W.Obj(ep, *Tp)))
        return out
    return go

def prove(ctx):
    u = ctx.unit('c15', src(), keep=KEEP, passes=UNROLL_LATE); o = Offs(u)
    ctx.assume_note(REAL_NOTE)
    def go(kind, name):
        box = {}
        def setup(ex, st): box.clear(); W = box['W'] = World(ex, st, o, kind); return W.args
        def post(ex, st0, st, ret, a):
            W = box['W']; ld = lambda off, k='double': ex.load(st, Ptr(W.r, (), off), k)
            P = W.pose(st, Ptr(W.r, (), o.r_T)); ep = W.ep(st); e = rv(ex.asreal(ld(o.r_e)))
            out = [('at least one linearisation, at most the configured maximum', z3.And(ep >= 1, ep <= W.max)), ('the reported pose is the last one followed by an accepted step', W.legal(st, P)),
                   ('the reported error', e == W.Obj(ep, *(P if kind == 'lm' else W.Tp(st)))),
                   ('the reported iteration is the last one', iv(ex.asint(st, ld(o.r_it, 'i64'))) == ep - 1),
                   ('converged only if the last step met the thresholds', z3.Implies(iv(ex.asint(st, ld(o.r_conv, 'i8'))) != 0, W.Conv(*W.d(st)))),
                   ('number of inliers', iv(ex.asint(st, ld(o.r_inl, 'i64'))) == W.C(W.n)), ('last row', z3.And([rv(ex.asreal(ld(o.r_T + 8 * (3 + 4 * b)))) == (1 if b == 3 else 0) for b in range(4)]))]
            if kind == 'lm': out.append(('a reported step did not worsen the objective', W.Obj(ep, *P) <= W.Obj(ep, *W.Tp(st))))
            out += [('H[%d] of the last linearisation' % k, rv(ex.asreal(ld(o.r_H + 8 * k))) == W.Hf[k](ep)) for k in range(36)] + [('b[%d] of the last linearisation' % k, rv(ex.asreal(ld(o.r_b + 8 * k))) == W.bf[k](ep)) for k in range(6)]
            return out
        ctx.verify(ctx.exec(u, contracts=contracts(box)), u.one(r'^vp_%s\(' % kind), name + '::optimize', setup, post, loops=loops(box))
    ctx.fork('gn', lambda: go('gn', 'GaussNewtonOptimizer')); ctx.fork('lm', lambda: go('lm', 'LevenbergMarquardtOptimizer'))
    # termination criteria
    box = {}
    def setup(ex, st):
        c = Region('criteria', size=o.tc, const=True); box['r'], box['t'] = [rv(ex.load(st, Ptr(c, (), x), 'double')) for x in (o.c_r, o.c_t)]
        d = Region('delta', size=48, const=True); box['d'] = [rv(ex.load(st, Ptr(d, (), 8 * k), 'double')) for k in range(6)]
        return [Ptr(c), Ptr(d)]
    def post(ex, st0, st, ret, a):
        d = box['d']; sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        c = bv_(ex.asbool(ret))
        return [('only with a rotation step within the threshold', z3.Implies(c, z3.And(box['r'] >= 0, sq(d[:3]) <= box['r'] * box['r']))), ('only with a translation step within the threshold', z3.Implies(c, z3.And(box['t'] >= 0, sq(d[3:]) <= box['t'] * box['t'])))]
    u2 = ctx.unit('c15c', src(), keep=[k for k in KEEP if 'Termination' not in k], passes=UNROLL_LATE)
    ctx.verify(ctx.exec(u2), u2.one(r'^vp_conv\('), 'TerminationCriteria::converged', setup, post)

def harness(ctx, deep):
    return run_harness(ctx, 'h_c15', deep, flags=('-fopenmp', '-ltbb'))
