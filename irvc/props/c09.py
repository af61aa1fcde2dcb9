"""C09: voxel point containers accept points exactly by the insertion rule."""
from ..common import *
from ..native import run_harness

TIMEOUT = 30
ASSUMPTIONS = ['the pose has last row 0 0 0 1; normals have fourth component 0 and covariances a zero fourth row and column', 'fewer than 2^40 points per container',
               'std::vector emplace_back / push_back append one element and keep the others (assumed contract of the standard library)']
VARS = [('p', 'false, false'), ('n', 'true, false'), ('c', 'false, true'), ('nc', 'true, true')]
SRC = '''
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/flat_container.hpp>
using namespace small_gicp;
using NE = decltype(std::declval<const Eigen::Isometry3d&>().matrix() * traits::normal(std::declval<const PointCloud&>(), 0));
using CE = decltype(std::declval<const Eigen::Isometry3d&>().matrix() * traits::cov(std::declval<const PointCloud&>(), 0) * std::declval<const Eigen::Isometry3d&>().matrix().transpose());
template <typename E, typename M> void vp_eval(const E& e, M* o) { *o = e; }
template void vp_eval<NE, Eigen::Vector4d>(const NE&, Eigen::Vector4d*);
template void vp_eval<CE, Eigen::Matrix4d>(const CE&, Eigen::Matrix4d*);
''' + ''.join('''using C_%(n)s = FlatContainer<%(a)s>; using T_%(n)s = traits::Traits<C_%(n)s>;
void vp_add_%(n)s(C_%(n)s& v, const C_%(n)s::Setting& s, const Eigen::Vector4d& p, const PointCloud& c, size_t i, const Eigen::Isometry3d& T) { v.add(s, p, c, i, T); }
void vp_final_%(n)s(C_%(n)s& v) { v.finalize(); }
size_t vp_size_%(n)s(const C_%(n)s& v) { return T_%(n)s::size(v); }
const double* vp_pt_%(n)s(const C_%(n)s& v, size_t i) { return T_%(n)s::point(v, i).data(); }
''' % dict(n=n, a=a) for n, a in VARS)
def src():
    s = SRC + off_src([('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs'), ('s_min', 'C_p::Setting', 'min_sq_dist_in_cell'), ('s_max', 'C_p::Setting', 'max_num_points_in_cell')])
    for n, a in VARS: s += off_src([('%s_p' % n, 'C_' + n, 'points'), ('%s_n' % n, 'C_' + n, 'normals'), ('%s_c' % n, 'C_' + n, 'covs')]) + size_src([(n, 'C_' + n)])
    return s
KEEP = [r'^std::vector<Eigen::Matrix<double, 4, [14], .*>::(emplace_back<|push_back\(|reserve\(|_M_realloc_insert)|^(auto|.*&) std::vector<Eigen::Matrix<double, 4, [14],.*::(emplace_back<|push_back\()']

def vec_append(ex, st, ins, args):
    """std::vector<Vector4d / Matrix4d>::emplace_back / push_back: one element is appended; Eigen expressions are evaluated by their own compiled code"""
    this, e = args[0], args[1]
    dem = ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
    m = re.search(r'std::vector<Eigen::Matrix<double, 4, ([14]),', dem); cnt = 4 * int(m.group(1))
    end = ex.load(st, ex.padd_const(this, 8), 'ptr')
    k = re.search(r'emplace_back<(.*)>\(', dem)
    if k:
        ta = re.sub(r'( const)?&+$', '', k.group(1).strip())
        if not re.match(r'Eigen::Matrix<double, 4, %s,[^<>]*>( const)?$' % m.group(1), ta):
            q = Ptr(Region('value', size=8 * cnt, local=True))
            c = [n for n in ex.m.funcs if ex.unit.dem.get(n, '').startswith('void vp_eval<' + ta)]
            if len(c) != 1: raise Unsupported('appended expression: ' + ta[:120])
            rs = ex.run_function(c[0], st, [e, q])
            if len(rs) != 1: raise Unsupported('expression evaluation branches')
            st.mem = rs[0][0].mem; st.assume([f for f in rs[0][0].pc[len(st.pc):]]); e = q
    v = [ex.load(st, ex.padd_const(e, 8 * j), 'double') for j in range(cnt)]
    for j in range(cnt): ex.store(st, ex.padd_const(end, 8 * j), v[j], 'double', check=False)
    ex.store(st, ex.padd_const(this, 8), ex.padd_const(end, 8 * cnt), 'ptr')
    return end
APPEND = (r'std::vector<Eigen::Matrix<double, 4, [14], .*::(emplace_back<|push_back\()', vec_append)

class Box:
    """a container of n points (and as many normals / covariances)"""
    def __init__(s, ex, st, o, nm):
        s.n = z3.Int('n'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 40))
        s.r = Region('container', size=o[nm]); s.vec = {}
        for f, cnt in (('p', 4), ('n', 4), ('c', 16)):
            if f != 'p' and f not in nm: continue
            q = Region({'p': 'stored_points', 'n': 'stored_normals', 'c': 'stored_covs'}[f], 1, 8 * cnt, [(8 * k, 'double') for k in range(cnt)], length=lambda key, st: z3.IntVal(2 ** 41))
            off = o['%s_%s' % (nm, f)]
            cap = z3.Int('cap_' + f); st.assume(cap >= s.n)
            for k, v in ((0, 0), (8, s.n), (16, cap)): st.mem[(s.r, off + k)] = ('ptr', Ptr(q, (v,)))
            s.vec[f] = (q, off, cnt)
            for k in range(cnt): ex.get_arr(st, q, 8 * k, 'double')
    def size(s, ex, st, f): return iv(ex.load(st, Ptr(s.r, (), s.vec[f][1] + 8), 'ptr').key[-1])
    def lane(s, ex, st, f, k): return ex.named_arr(st, s.vec[f][0], 8 * k, 'double')

def prove(ctx):
    u = ctx.unit('c09', src(), keep=KEEP); o = Offs(u)
    ctx.assume_note(REAL_NOTE); ctx.assume_note('std::vector::emplace_back / push_back append one element')
    from .c12 import mk_cloud, wf, mm, mT
    for nm, _ in VARS:
        def go(nm=nm):
            box = {}
            def setup(ex, st):
                B = box['B'] = Box(ex, st, o, nm)
                cl = mk_cloud(ex, st, o, 'points'); i = z3.Int('i'); st.assume(z3.And(0 <= i, i < cl.n)); wf(ex, st, cl, i)
                X = Region('T', size=128, const=True)
                T = [[rv(ex.load(st, Ptr(X, (), 8 * (a + 4 * b)), 'double')) for b in range(4)] for a in range(4)]
                for b in range(4): st.mem[(X, 8 * (3 + 4 * b))] = ('double', Fraction(1 if b == 3 else 0)); T[3][b] = rv(1 if b == 3 else 0)
                p = Region('transformed', size=32, const=True); P = box['P'] = [rv(ex.load(st, Ptr(p, (), 8 * k), 'double')) for k in range(4)]
                R, C = [r[:3] for r in T[:3]], [r[:3] for r in cl.C(i)[:3]]
                N = cl.N(i)
                box['nor'] = [sum((T[a][b] * N[b] for b in range(1, 3)), T[a][0] * N[0]) for a in range(3)] + [rv(0)]
                box['RCR'] = mm(mm(R, C), mT(R))
                s = Region('setting', size=16, const=True)
                box['min'] = rv(ex.load(st, Ptr(s, (), o.s_min), 'double')); mx = iv(ex.asint(st, ex.load(st, Ptr(s, (), o.s_max), 'i64')))
                box['max'] = z3.If(mx < 0, mx + 2 ** 64, mx)
                # D(t): squared distance of stored point t to the offered point
                D = box['D'] = z3.Function('sq_dist', IntS, RealS); q = B.vec['p'][0]
                A = [B.lane(ex, st, 'p', k) for k in range(4)]
                def on_load(ex, st, p, kind):
                    if p.r is q and kind == 'double':
                        t = iv(p.key[-1]); d = [A[k][t] - P[k] for k in range(4)]
                        st.assume(D(t) == sum((x * x for x in d[1:]), d[0] * d[0]))
                ex.on_load = on_load
                return [Ptr(B.r), Ptr(s), Ptr(p), Ptr(cl.r), i, Ptr(X)]
            def loops(L):
                B, D, t = box['B'], box['D'], z3.Int('t_'); out = []
                for n in L.phis:
                    c = L.cur[n]
                    if isinstance(c, Ptr) and c.r is B.vec['p'][0]: q = iv(c.key[-1])
                    elif L.tys[n].k == 'i' and L.tys[n].n > 1: q = iv(c.term() if isinstance(c, Scaled) else c)
                    else: continue
                    out += [('no stored point before %s is too close' % n, forall(t, z3.Implies(z3.And(0 <= t, t < q), D(t) >= box['min']), [D(t)])), ('%s<=n' % n, q <= B.n)]
                return out
            def post(ex, st0, st, ret, a):
                B, D = box['B'], box['D']; t = z3.Int('t')
                acc = z3.And(B.n < box['max'], z3.ForAll(t, z3.Implies(z3.And(0 <= t, t < B.n), D(t) >= box['min']), patterns=[D(t)]))
                out = []
                for f in B.vec:
                    n1 = B.size(ex, st, f)
                    nmf = {'p': 'points', 'n': 'normals', 'c': 'covariances'}[f]
                    if ex.quick(st, n1 == B.n): out.append((nmf + ': nothing stored only if the rule rejects', z3.Not(acc)))
                    else: out += [(nmf + ': one element stored', n1 == B.n + 1), (nmf + ': stored only if the rule accepts', acc)]
                    u_ = z3.Int('u')
                    for k in range(B.vec[f][2]):
                        old, new = B.lane(ex, st0, f, k), B.lane(ex, st, f, k)
                        out.append((nmf + ': earlier elements unchanged [%d]' % k, z3.Implies(z3.And(0 <= u_, u_ < B.n), old[u_] == new[u_])))
                        exp = box['P'][k] if f == 'p' else box['nor'][k] if f == 'n' else (box['RCR'][k % 4][k // 4] if k % 4 < 3 and k // 4 < 3 else rv(0))
                        out.append((nmf + ': new element [%d]' % k, z3.Implies(n1 > B.n, new[B.n] == exp)))
                return out
            ex = ctx.exec(u, contracts=[APPEND])
            ctx.verify(ex, u.one(r'^vp_add_%s\(' % nm), 'FlatContainer<%s>::add' % nm, setup, post, loops=loops)
            def setup_q(ex, st): B = box['B'] = Box(ex, st, o, nm); B.r.const = True; return [Ptr(B.r)]
            ctx.verify(ctx.exec(u), u.one(r'^vp_final_%s\(' % nm), 'FlatContainer<%s>::finalize' % nm, setup_q, lambda ex, st0, st, ret, a: [])
            ctx.verify(ctx.exec(u), u.one(r'^vp_size_%s\(' % nm), 'Traits<FlatContainer<%s>>::size' % nm, setup_q, lambda ex, st0, st, ret, a: [('number of stored points', iv(ex.asint(st, ret)) == box['B'].n)])
            def setup_p(ex, st): r = setup_q(ex, st); j = z3.Int('j'); st.assume(z3.And(0 <= j, j < box['B'].n)); return r + [j]
            ctx.verify(ctx.exec(u), u.one(r'^vp_pt_%s\(' % nm), 'Traits<FlatContainer<%s>>::point' % nm, setup_p, lambda ex, st0, st, ret, a: [('the stored point', z3.And(z3.BoolVal(ret.r is box['B'].vec['p'][0] and ret.off == 0), iv(ret.key[-1]) == z3.Int('j')))])
        go()

def harness(ctx, deep):
    return run_harness(ctx, 'h_c09', deep, flags=('-fopenmp', '-ltbb', '-fsanitize=address'))
