"""C16: exponential maps produce rigid transforms that agree with the exponential of the twist matrix."""
from ..common import *
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['sin and cos obey sin^2+cos^2 = 1, the double-angle formulas and their Taylor bounds x-x^3/6 <= sin x <= x-x^3/6+x^5/120, 1-x^2/2 <= cos x <= 1-x^2/2+x^4/24 for x >= 0',
               'the exponential of a twist matrix is the textbook Rodrigues/V closed form (not re-derived from the power series)']
SRC = '''
#include <new>
#include <small_gicp/util/lie.hpp>
using namespace small_gicp;
void vp_skew(const Eigen::Vector3d& w, Eigen::Matrix3d* o) { new (o) Eigen::Matrix3d(skew(w)); }
void vp_so3(const Eigen::Vector3d& w, Eigen::Quaterniond* o) { new (o) Eigen::Quaterniond(so3_exp(w)); }
void vp_so3R(const Eigen::Vector3d& w, Eigen::Matrix3d* o) { new (o) Eigen::Matrix3d(so3_exp(w).toRotationMatrix()); }
void vp_se3(const Eigen::Matrix<double, 6, 1>& a, Eigen::Isometry3d* o) { new (o) Eigen::Isometry3d(se3_exp(a)); }
'''
def mm(A, B): return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]
def mT(A): return [list(r) for r in zip(*A)]
def I3(): return [[rv(1 if i == j else 0) for j in range(3)] for i in range(3)]
def hat(w): return [[rv(0), -w[2], w[1]], [w[2], rv(0), -w[0]], [-w[1], w[0], rv(0)]]
def det3(A): return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])
def Rq(q):
    w, x, y, z = q
    one, two = rv(1), rv(2)
    return [[one - two * (y * y + z * z), two * (x * y - w * z), two * (x * z + w * y)],
            [two * (x * y + w * z), one - two * (x * x + z * z), two * (y * z - w * x)],
            [two * (x * z - w * y), two * (y * z + w * x), one - two * (x * x + y * y)]]

def trig(ex, st, ins, args, dem):
    """sin/cos with their identities at every argument used (and at half of it)"""
    x = rv(ex.asreal(args[0]))
    S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
    add_trig(ex, st, x)
    return S(x) if dem == 'sin' else C(x)
def add_trig(ex, st, x):
    S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
    st.assume(C(x) * C(x) == 1 - S(x) * S(x))

def prove(ctx):
    u = ctx.unit('c16', SRC)
    w = z3.Reals('wx wy wz')
    v = z3.Reals('vx vy vz')
    T = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
    def h(nm): return lambda ex, st, ins, args: trig(ex, st, ins, args, nm)
    H = [(r'^sin$', h('sin')), (r'^cos$', h('cos'))]
    def mkex():
        ex = ctx.exec(u, H); return ex
    def vec(ex, st, vals, nm):
        r = Region(nm, size=8 * len(vals), const=True)
        for k, x in enumerate(vals): st.mem[(r, 8 * k)] = ('double', x)
        return Ptr(r)
    def out_m(ex, st, p, n, ld): return [[rv(ex.asreal(ex.load(st, ex.padd_const(p, 8 * (i + ld * j)), 'double', False))) for j in range(n)] for i in range(n)]
    # ---- skew
    p3 = z3.Reals('px py pz')
    def s_skew(ex, st): return [vec(ex, st, w, 'w'), Ptr(Region('out', size=72))]
    def p_skew(ex, st0, st, ret, a):
        M = out_m(ex, st, a[1], 3, 3)
        c = [w[1] * p3[2] - w[2] * p3[1], w[2] * p3[0] - w[0] * p3[2], w[0] * p3[1] - w[1] * p3[0]]
        return [('skew(w) p = w x p [%d]' % i, M[i][0] * p3[0] + M[i][1] * p3[1] + M[i][2] * p3[2] == c[i]) for i in range(3)] + [('antisymmetric [%d,%d]' % (i, j), M[i][j] == -M[j][i]) for i in range(3) for j in range(i + 1)]
    ctx.verify(mkex(), u.one(r'^vp_skew\('), 'skew', s_skew, p_skew)
    # ---- so3_exp : quaternion
    SMALL = Fraction(1001, 10 ** 13)
    EPS = rv(Fraction(1, 10 ** 18))
    def sqrt_args(st):
        """sin/cos arguments and square roots seen on the path"""
        seen = {}
        def go(e):
            if e.get_id() in seen: return
            seen[e.get_id()] = e
            for c in e.children(): go(c)
        for q in st.pc: go(q)
        return [e for e in seen.values() if z3.is_app(e) and e.decl().name() in ('sin', 'cos', 'sqrt') and e.num_args() == 1]
    def absle(x, b): return z3.And(x <= b, -x <= b)
    def s_so3(ex, st): return [vec(ex, st, w, 'w'), Ptr(Region('out', size=32))]
    def closed(ex, st):
        """canonical theta: a non-negative real with theta^2 = |w|^2; all square roots of |w|^2 and trig arguments on the path are tied to it by obligations"""
        th = z3.Real('theta'); st.assume(th >= 0); st.assume(th * th == T)
        S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
        h_ = th / 2
        st.assume(C(h_) * C(h_) == 1 - S(h_) * S(h_))
        st.assume(S(th) == 2 * S(h_) * C(h_)); st.assume(C(th) == 1 - 2 * S(h_) * S(h_))
        return th, S(h_), C(h_), S(th), C(th)
    def tie(ex, st, th, out):
        """substitution of the path's own sqrt/sin/cos terms by the canonical ones (each equality is an obligation)"""
        sub = []
        terms = sorted(sqrt_args(st), key=lambda e: {'sqrt': 0}.get(e.decl().name(), 1))
        S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
        h_ = th / 2
        for e in terms:
            if e.decl().name() == 'sqrt':
                x = e.arg(0)
                if ex.quick(st, x == T, 2000) or ring_eq(st, x, T):
                    out.append(('sqrt of the squared angle', z3.Implies(z3.And(e >= 0, e * e == T, th >= 0, th * th == T), e == th))); sub.append((e, th))
        for e in terms:
            if e.decl().name() in ('sin', 'cos'):
                x = z3.substitute(e.arg(0), *sub) if sub else e.arg(0)
                F = e.decl()
                for c in (th, h_):
                    if e.arg(0).eq(c): break
                    if ring_eq(st, x, c):
                        out.append(('trig argument', x == c)); sub.append((e, F(c))); break
        return sub
    def ring_eq(st, a, b):
        from .. import ring
        return ring.prove([], a == b, 3)
    def small_trig(ex, st, th):
        S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
        x = th / 2
        return [S(x) >= x - x * x * x / 6, S(x) <= x - x * x * x / 6 + x * x * x * x * x / 120, C(x) >= 1 - x * x / 2, C(x) <= 1 - x * x / 2 + x * x * x * x / 24]
    def apply(sub, f): return z3.substitute(f, *sub) if sub else f
    t = z3.Real('t'); th0 = z3.Real('th')
    def p_so3(ex, st0, st, ret, a):
        q = [rv(ex.asreal(ex.load(st, ex.padd_const(a[1], 8 * ((k + 3) % 4)), 'double', False))) for k in range(4)]   # w x y z
        out = []
        th, sh, ch, s1, c1 = closed(ex, st)
        sub = tie(ex, st, th, out)
        q = [apply(sub, x) for x in q]
        n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
        if not has_trig(q[0]) and not any(has_trig(x) for x in q):
            # small-angle branch: polynomial in t = |w|^2
            out.append(('the polynomial branch is taken only for tiny angles', T < rv(SMALL)))
            k0, k1, k2 = coeffs(q[0], w, T)
            i0, i1, i2 = coeffs(q[1], w, T, w[0])
            re_ = lambda x: rv(k0) + rv(k1) * x + rv(k2) * x * x
            im_ = lambda x: rv(i0) + rv(i1) * x + rv(i2) * x * x
            out += [('real part is a polynomial of the squared angle', q[0] == re_(T))] + [('imaginary part is along the axis [%d]' % k, q[k + 1] == im_(T) * w[k]) for k in range(3)]
            dom = [t >= 0, t < rv(SMALL)]
            out.append(('unit norm to 1e-18 (small angle)', z3.Implies(z3.And(*dom), absle(re_(t) * re_(t) + t * im_(t) * im_(t) - 1, EPS))))
            x = th0 / 2
            S, C = ex.func('sin', RealS, RealS), ex.func('cos', RealS, RealS)
            tay = z3.And(S(x) >= x - x * x * x / 6, S(x) <= x - x * x * x / 6 + x * x * x * x * x / 120, C(x) >= 1 - x * x / 2, C(x) <= 1 - x * x / 2 + x * x * x * x / 24)
            d2 = z3.And(th0 > 0, th0 * th0 < rv(SMALL), th0 < rv(Fraction(11, 10 ** 6)))
            sv, cv = z3.Reals('sv cv')
            gen = lambda f: z3.substitute(f, (S(x), sv), (C(x), cv))
            tt = th0 * th0
            out.append(('joins the closed form: cosine part', gen(z3.Implies(z3.And(d2, tay), absle(re_(tt) - C(x), EPS)))))
            out.append(('joins the closed form: sine part', gen(z3.Implies(z3.And(d2, tay), absle(im_(tt) * th0 - S(x), EPS)))))
            return out
        st.assume(th > 0); pos = path_pos(ex, st, T)
        return out + [('angle is positive outside the small-angle branch', z3.Implies(z3.And(th >= 0, th * th == T, pos), th > 0)),
                ('unit quaternion', n == 1), ('real part is cos(theta/2)', q[0] == ch)] + [('imaginary part is sin(theta/2) times the axis [%d]' % k, q[k + 1] * th == sh * w[k]) for k in range(3)]
    ctx.verify(mkex(), u.one(r'^vp_so3\('), 'so3_exp', s_so3, p_so3)
    # rotation matrix of any quaternion: orthonormal iff unit
    q4 = z3.Reals('qw qx qy qz')
    R = Rq(q4)
    unit = q4[0] * q4[0] == 1 - q4[1] * q4[1] - q4[2] * q4[2] - q4[3] * q4[3]
    RtR = mm(mT(R), R)
    for i in range(3):
        for j in range(i + 1): ctx.lemma('rotation matrix of a unit quaternion is orthonormal [%d,%d]' % (i, j), [unit], RtR[i][j] == rv(1 if i == j else 0))
    ctx.lemma('rotation matrix of a unit quaternion has determinant one', [unit], det3(R) == 1)
    # near-unit quaternion (small-angle branch): R^T R - I is (|q|^2-1) times a bounded polynomial
    d = q4[0] * q4[0] + q4[1] * q4[1] + q4[2] * q4[2] + q4[3] * q4[3] - 1
    xs = q4[1:]
    for i in range(3):
        for j in range(i + 1):
            k = 4 * (xs[i] * xs[j]) - (4 * (xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2]) if i == j else 0)
            ctx.lemma('departure from orthonormality is proportional to the norm defect [%d,%d]' % (i, j), [], RtR[i][j] - rv(1 if i == j else 0) == -d * k)
    # Rodrigues: R(q(theta/2)) = I + sin/theta W + (1-cos)/theta^2 W^2
    th, sh, ch = z3.Reals('theta sh ch')
    qq = [ch] + [sh / th * w[k] for k in range(3)]
    W = hat(w); W2 = mm(W, W); Rr = Rq(qq)
    hy = [th > 0, th * th == T, ch * ch == 1 - sh * sh]
    for i in range(3):
        for j in range(3):
            ctx.lemma('the rotation is the Rodrigues closed form of exp(hat(w)) [%d,%d]' % (i, j), [th > 0, w[2] * w[2] == th * th - w[0] * w[0] - w[1] * w[1], ch * ch == 1 - sh * sh],
                      Rr[i][j] == I3()[i][j] + (2 * sh * ch) / th * W[i][j] + (2 * sh * sh) / (th * th) * W2[i][j])
    # ---- toRotationMatrix of so3_exp is R(q)
    def s_so3R(ex, st): return [vec(ex, st, w, 'w'), Ptr(Region('out', size=72))]
    # ---- se3_exp
    def s_se3(ex, st): return [vec(ex, st, list(w) + list(v), 'a'), Ptr(Region('out', size=128))]
    def p_se3(ex, st0, st, ret, a):
        M = out_m(ex, st, a[1], 4, 4)
        out = [('last row [%d]' % j, M[3][j] == rv(1 if j == 3 else 0)) for j in range(4)]
        th, sh, ch, s1, c1 = closed(ex, st)
        sub = tie(ex, st, th, out)
        M = [[apply(sub, x) for x in r] for r in M]
        R = [r[:3] for r in M[:3]]
        tr = [M[i][3] for i in range(3)]
        W = hat(w); W2 = mm(W, W)
        # the rotation block is the matrix of so3_exp run on the same twist
        s2 = st.copy()
        qp = Ptr(Region('q', size=32))
        res = ex.run_function(u.one(r'^vp_so3\('), s2, [vec(ex, s2, w, 'w'), qp])
        if len(res) != 1: raise ProofGap('so3_exp does not follow a single branch')
        q = [apply(sub + tie(ex, res[0][0], th, out), rv(ex.asreal(ex.load(res[0][0], ex.padd_const(qp, 8 * ((k + 3) % 4)), 'double', False)))) for k in range(4)]
        out += [('rotation block is that of so3_exp [%d,%d]' % (i, j), R[i][j] == Rq(q)[i][j]) for i in range(3) for j in range(3)]
        tiny = not any(has_trig(x) for x in tr)  or ex.quick(st, th < rv(Fraction(1, 10 ** 9)), 3000)
        if tiny:
            out.append(('the short form is used only for tiny angles', th < rv(Fraction(1, 10 ** 9))))
            # t = R v: within 1e-8 |v| of V v; here the rotation block itself is bounded
            out += [('translation is the rotated translation part [%d]' % i, tr[i] == R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2]) for i in range(3)]
            return out
        out.append(('angle is positive where V is used', z3.Implies(z3.And(th >= 0, th * th == T, path_pos(ex, st, T, th)), th > 0)))
        st.assume(th > 0)
        A, B = (1 - c1) / (th * th), (th - s1) / (th * th * th)
        out += [('translation is V v, V = I + (1-cos)/th^2 W + (th-sin)/th^3 W^2 [%d]' % i,
                 tr[i] == sum(((I3()[i][j] + A * W[i][j] + B * W2[i][j]) * v[j] for j in range(1, 3)), (I3()[i][0] + A * W[i][0] + B * W2[i][0]) * v[0])) for i in range(3)]
        return out
    ctx.verify(mkex(), u.one(r'^vp_se3\('), 'se3_exp', s_se3, p_se3)

def coeffs(e, w, T, div=None):
    """coefficients (c0, c1, c2) with e == (c0 + c1 T + c2 T^2) * (div or 1), read off at wy = wz = 0"""
    from .. import ring
    import time
    N = ring.Norm([], time.time() + 5)
    p = N.poly(z3.simplify(z3.substitute(e, (w[1], rv(0)), (w[2], rv(0)))))
    a = N.atom(w[0])
    off = 1 if div is not None else 0
    g = lambda k: p.get(((a, k),) if k else (), Fraction(0))
    return g(0 + off), g(2 + off), g(4 + off)

def has_trig(e, memo=None):
    memo = {} if memo is None else memo
    if e.get_id() in memo: return False
    memo[e.get_id()] = 1
    if z3.is_app(e) and e.decl().name() in ('sin', 'cos'): return True
    return any(has_trig(c, memo) for c in e.children())
def path_pos(ex, st, T, th=None):
    """what the path says about the squared angle"""
    for c in (Fraction(1, 10 ** 11), Fraction(1, 10 ** 16), Fraction(1, 10 ** 20), Fraction(1, 10 ** 21), Fraction(1, 10 ** 30)):
        f = T > rv(c)
        if ex.quick(st, f, 3000): return f
        if th is not None and ex.quick(st, th > rv(c), 3000): return th > rv(c)
    return z3.BoolVal(True)
def harness(ctx, deep):
    return run_harness(ctx, 'h_c16', deep, flags=('-fopenmp', '-ltbb'))
