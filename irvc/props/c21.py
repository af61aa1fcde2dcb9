"""C21: point cloud containers return exactly what was stored (element access, frames, resize, conversions)."""
from ..common import *
from ..native import run_harness
from ..unit import UNROLL

TIMEOUT = 30
FLAGS = ['-I/usr/include/pcl-1.14']
ASSUMPTIONS = ['std::vector::resize keeps the elements below the new size (assumed contract of the standard library)', 'values stored in PCL containers are rounded to float once (round_to_float is uninterpreted)', 'fewer than 2^40 points']
PCL = [('xyz', 'pcl::PointXYZ', 'p'), ('xyzn', 'pcl::PointNormal', 'pn'), ('xyzin', 'pcl::PointXYZINormal', 'pn'), ('pcov', 'pcl::PointCovariance', 'pc'), ('pncov', 'pcl::PointNormalCovariance', 'pnc')]
CONV = [('f3', 'float', 3), ('f4', 'float', 4), ('d3', 'double', 3), ('d4', 'double', 4)]
ACC = '''
void vp_setp_%(n)s(%(t)s& c, size_t i, const Eigen::Vector4d& p) { traits::set_point(c, i, p); }
void vp_getp_%(n)s(const %(t)s& c, size_t i, Eigen::Vector4d* o) { *o = traits::point(c, i); }
size_t vp_size_%(n)s(const %(t)s& c) { return traits::size(c); }
bool vp_hasp_%(n)s(const %(t)s& c) { return traits::has_points(c); }
void vp_resize_%(n)s(%(t)s& c, size_t n) { traits::resize(c, n); }
'''
ACCN = '''
void vp_setn_%(n)s(%(t)s& c, size_t i, const Eigen::Vector4d& p) { traits::set_normal(c, i, p); }
void vp_getn_%(n)s(const %(t)s& c, size_t i, Eigen::Vector4d* o) { *o = traits::normal(c, i); }
bool vp_hasn_%(n)s(const %(t)s& c) { return traits::has_normals(c); }
'''
ACCC = '''
void vp_setc_%(n)s(%(t)s& c, size_t i, const Eigen::Matrix4d& p) { traits::set_cov(c, i, p); }
void vp_getc_%(n)s(const %(t)s& c, size_t i, Eigen::Matrix4d* o) { *o = traits::cov(c, i); }
bool vp_hasc_%(n)s(const %(t)s& c) { return traits::has_covs(c); }
'''
def src():
    s = '''#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
using namespace small_gicp;
'''
    for n, t, a in [('pc', 'PointCloud', 'pnc')] + [(n, 'pcl::PointCloud<%s>' % t, a) for n, t, a in PCL]:
        s += ''.join(x % dict(n=n, t=t) for k, x in (('p', ACC), ('n', ACCN), ('c', ACCC)) if k in a)
    s += '''using PX = PointCloudProxy<pcl::PointXYZ>;
void vp_getp_px(const PX& c, size_t i, Eigen::Vector4d* o) { *o = traits::point(c, i); }
size_t vp_size_px(const PX& c) { return traits::size(c); }
bool vp_hasp_px(const PX& c) { return traits::has_points(c); }
void vp_resize_px(PX& c, size_t n) { traits::resize(c, n); }
void vp_setc_px(PX& c, size_t i, const Eigen::Matrix4d& p) { traits::set_cov(c, i, p); }
void vp_getc_px(const PX& c, size_t i, Eigen::Matrix4d* o) { *o = traits::cov(c, i); }
bool vp_hasc_px(const PX& c) { return traits::has_covs(c); }
void vp_mk_px(PX* x, const pcl::PointCloud<pcl::PointXYZ>& c, std::vector<Eigen::Matrix4d>& v) { new (x) PX(c, v); }
void vp_getp_mx(const Eigen::MatrixXd& c, size_t i, Eigen::Vector4d* o) { *o = traits::point(c, i); }
size_t vp_size_mx(const Eigen::MatrixXd& c) { return traits::size(c); }
bool vp_hasp_mx(const Eigen::MatrixXd& c) { return traits::has_points(c); }
'''
    for n, t, d in CONV: s += 'void vp_conv_%s(PointCloud* c, const std::vector<Eigen::Matrix<%s, %d, 1>>& v) { new (c) PointCloud(v); }\n' % (n, t, d)
    offs = [('pc_p', 'small_gicp::PointCloud', 'points'), ('pc_n', 'small_gicp::PointCloud', 'normals'), ('pc_c', 'small_gicp::PointCloud', 'covs')]
    sizes = [('pc', 'small_gicp::PointCloud')]
    for n, t, a in PCL:
        offs += [('%s_pts' % n, 'pcl::PointCloud<%s>' % t, 'points'), ('%s_p' % n, t, 'data')] + ([('%s_n' % n, t, 'data_n')] if 'n' in a else []) + ([('%s_c' % n, t, 'cov')] if 'c' in a else [])
        sizes += [(n, t), ('%s_cl' % n, 'pcl::PointCloud<%s>' % t)]
    offs += [('px_cloud', 'PX', 'cloud'), ('px_covs', 'PX', 'covs')][:0]
    return s + off_src(offs) + size_src(sizes + [('px', 'PX')])
KEEP = [r'^std::vector<(Eigen::Matrix<|pcl::Point).*>::resize\(']
LANES = dict(p=4, n=4, c=16)

class Box:
    """symbolic container nm with n elements: attribute -> (region, lane offsets, kind)"""
    def __init__(s, ex, st, o, nm, attrs, n=None):
        s.ex, s.nm, s.attrs = ex, nm, attrs
        s.n = z3.Int('n') if n is None else n
        if isz(s.n): st.assume(z3.And(s.n >= 0, s.n < 2 ** 40))
        s.vecs = []                                            # (owner region, offset of the vector, storage region)
        s.at = {}
        if nm == 'pc':
            s.r = Region('cloud', size=o.pc)
            for a in 'pnc':
                off = o['pc_' + a]; q = s.vec(ex, st, s.r, off, {'p': 'points', 'n': 'normals', 'c': 'covs'}[a], 8 * LANES[a], [(8 * k, 'double') for k in range(LANES[a])])
                s.at[a] = (q, [8 * k for k in range(LANES[a])], 'double')
        else:
            s.r = Region('cloud', size=o[nm + '_cl'])
            sz = o[nm]; q = s.vec(ex, st, s.r, o[nm + '_pts'], 'points', sz, [(4 * k, 'float') for k in range(sz // 4)])
            for a in attrs: s.at[a] = (q, [o['%s_%s' % (nm, a)] + 4 * k for k in range(LANES[a])], 'float')
    def vec(s, ex, st, r, off, name, stride, fields):
        # the storage is not bounded by a fixed capacity: accesses are checked against the current size
        q = Region(name, 1, stride, fields, length=lambda key, t: iv(t.mem[(r, off + 8)][1].key[-1]))
        cap = z3.Int('cap_' + name); st.assume(cap >= s.n)
        for k, v in ((0, 0), (8, s.n), (16, cap)): st.mem[(r, off + k)] = ('ptr', Ptr(q, (v,)))
        for f, k in fields: ex.get_arr(st, q, f, k)
        s.vecs.append((r, off, q)); return q
    def size(s, st, v): return iv(st.mem[(v[0], v[1] + 8)][1].key[-1])
    def lane(s, st, q, off, kind): return s.ex.named_arr(st, q, off, kind)
    def frame(s, st0, st, except_=None, at=None, below=None):
        """every lane of every element is unchanged, except lanes `except_` of element `at`"""
        out = []; j = z3.Int('j_f')
        for _, _, q in s.vecs:
            for off, kind in q.fields:
                a0, a1 = s.lane(st0, q, off, kind), s.lane(st, q, off, kind)
                if a0.eq(a1): continue
                w = except_ is not None and q is except_[0] and off in except_[1]
                g = a1[j] == a0[j]
                if w: g = z3.Implies(j != at, g)
                if below is not None: g = z3.Implies(z3.And(0 <= j, j < below), g)
                out.append(('%s+%d: %s' % (q.name, off, 'other elements unchanged' if w else 'unchanged'), g))
        return out
    def sizes(s, st, n): return [('size of %s' % v[2].name, s.size(st, v) == n) for v in s.vecs]

def fl(ex, x, kind): return ex.func('round_to_float', RealS, RealS)(x) if kind == 'float' else x

def resize_contract(ex, st, ins, args):
    """std::vector::resize(n): elements below min(n, size) kept, the others arbitrary"""
    this, n = args[0], iv(ex.toU(st, ex.asint(st, args[1]), 64))
    b = ex.load(st, this, 'ptr'); e = ex.load(st, ex.padd_const(this, 8), 'ptr')
    n0 = iv(e.key[-1]); q = b.r
    st.assume(n < 2 ** 40)                                     # otherwise std::length_error
    j = z3.Int('j_')
    for off, kind in q.fields:
        old = ex.named_arr(st, q, off, kind); new = z3.Const(fresh_name(q.name), old.sort()); st.mem[(q, off, kind)] = new
        st.assume(forall(j, z3.Implies(z3.And(0 <= j, j < n0, j < n), new[j] == old[j]), [new[j]]))
    cap = fint('cap'); st.assume(cap >= n)
    ex.store(st, ex.padd_const(this, 8), Ptr(q, (n,)), 'ptr'); ex.store(st, ex.padd_const(this, 16), Ptr(q, (cap,)), 'ptr')
    return UNDEF
CONTRACTS = [(r'^std::vector<(Eigen::Matrix<|pcl::Point).*>::resize\(', resize_contract)]

def prove(ctx):
    u = ctx.unit('c21', src(), keep=KEEP, extra_flags=FLAGS, passes=UNROLL); o = Offs(u)
    ctx.assume_note(REAL_NOTE)
    ctx.assume_note('std::vector::resize keeps the elements below min(old, new size)')
    box = {}
    def access(nm, attrs):
        E = lambda: ctx.exec(u, contracts=CONTRACTS)
        for a in attrs:
            cnt = LANES[a]; what = {'p': 'point', 'n': 'normal', 'c': 'cov'}[a]
            def setup(ex, st, a=a, cnt=cnt):
                B = box['B'] = Box(ex, st, o, nm, attrs); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < B.n))
                v = Region('value', size=8 * cnt, const=True); box['v'] = [rv(ex.load(st, Ptr(v, (), 8 * k), 'double')) for k in range(cnt)]
                return [Ptr(B.r), i, Ptr(v)]
            def post(ex, st0, st, ret, ar, a=a, cnt=cnt):
                B, i = box['B'], box['i']; q, offs, kind = B.at[a]
                return [('lane %d holds the value' % k, B.lane(st, q, offs[k], kind)[i] == fl(ex, box['v'][k], kind)) for k in range(cnt)] + B.frame(st0, st, (q, offs), i) + B.sizes(st, B.n)
            ctx.verify(E(), u.one(r'^vp_set%s_%s\(' % (a, nm)), 'set_%s<%s>' % (what, nm), setup, post)
            def setup_g(ex, st, cnt=cnt):
                B = box['B'] = Box(ex, st, o, nm, attrs); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < B.n)); B.r.const = True
                for v in B.vecs: v[2].const = True
                r = box['o'] = Region('out', size=8 * cnt); return [Ptr(B.r), i, Ptr(r)]
            def post_g(ex, st0, st, ret, ar, a=a, cnt=cnt):
                B, i = box['B'], box['i']; q, offs, kind = B.at[a]
                return [('lane %d' % k, rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double'))) == B.lane(st0, q, offs[k], kind)[i]) for k in range(cnt)]
            ctx.verify(E(), u.one(r'^vp_get%s_%s\(' % (a, nm)), '%s<%s>' % (what, nm), setup_g, post_g)
            def setup_h(ex, st): B = box['B'] = Box(ex, st, o, nm, attrs); B.r.const = True; return [Ptr(B.r)]
            ctx.verify(E(), u.one(r'^vp_has%s_%s\(' % (a, nm)), 'has_%ss<%s>' % (what, nm), setup_h, lambda ex, st0, st, ret, ar: [('true exactly for a non-empty attribute', ex.asbool(ret) == (box['B'].n > 0))])
        ctx.verify(E(), u.one(r'^vp_size_%s\(' % nm), 'size<%s>' % nm, setup_h, lambda ex, st0, st, ret, ar: [('number of points', iv(ex.asint(st, ret)) == box['B'].n)])
        def setup_r(ex, st): B = box['B'] = Box(ex, st, o, nm, attrs); m = box['m'] = z3.Int('new_size'); st.assume(z3.And(0 <= m, m < 2 ** 40)); return [Ptr(B.r), m]
        ctx.verify(E(), u.one(r'^vp_resize_%s\(' % nm), 'resize<%s>' % nm, setup_r, lambda ex, st0, st, ret, ar: box['B'].sizes(st, box['m']) + box['B'].frame(st0, st, below=z3.If(box['m'] < box['B'].n, box['m'], box['B'].n)))
    for nm, attrs in [('pc', 'pnc')] + [(n, a) for n, t, a in PCL]: ctx.fork(nm, lambda nm=nm, attrs=attrs: access(nm, attrs))

    def proxy():
        E = lambda: ctx.exec(u, contracts=CONTRACTS)
        def mk(ex, st, m=None):
            B = box['B'] = Box(ex, st, o, 'xyz', 'p'); B.r.const = True; B.vecs[0][2].const = True
            m = box['m'] = z3.Int('m') if m is None else m
            C = Box.__new__(Box); C.ex, C.vecs, C.at, C.n = ex, [], {}, m
            if isz(m): st.assume(z3.And(m >= 0, m < 2 ** 40))
            vr = Region('covs_vector', size=24); C.q = C.vec(ex, st, vr, 0, 'covs', 128, M4F()); box['C'] = C; box['vr'] = vr
            x = Region('proxy', size=o.px)
            s2 = st.copy(); rs = ex.run_function(u.one(r'^vp_mk_px\('), s2, [Ptr(x), Ptr(B.r), Ptr(vr)])
            st.mem = rs[0][0].mem
            return Ptr(x)
        def S1(ex, st): x = mk(ex, st); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < box['B'].n)); r = box['o'] = Region('out', size=32); return [x, i, Ptr(r)]
        def one_(ex):
            return rv(1)
        def P1(ex, st0, st, ret, ar):
            B = box['B']; q, offs, kind = B.at['p']
            return [('lane %d' % k, rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double'))) == B.lane(st0, q, offs[k], kind)[box['i']]) for k in range(4)]
        ctx.verify(E(), u.one(r'^vp_getp_px\('), 'point<PointCloudProxy>', S1, P1)
        ctx.verify(E(), u.one(r'^vp_size_px\('), 'size<PointCloudProxy>', lambda ex, st: [mk(ex, st)], lambda ex, st0, st, ret, ar: [('number of points of the mapped cloud', iv(ex.asint(st, ret)) == box['B'].n)])
        ctx.verify(E(), u.one(r'^vp_hasp_px\('), 'has_points<PointCloudProxy>', lambda ex, st: [mk(ex, st)], lambda ex, st0, st, ret, ar: [('non-empty cloud', ex.asbool(ret) == (box['B'].n > 0))])
        ctx.verify(E(), u.one(r'^vp_hasc_px\('), 'has_covs<PointCloudProxy>', lambda ex, st: [mk(ex, st)], lambda ex, st0, st, ret, ar: [('non-empty covariances', ex.asbool(ret) == (box['m'] > 0))])
        def S2(ex, st): x = mk(ex, st); m = box['k'] = z3.Int('new_size'); st.assume(z3.And(0 <= m, m < 2 ** 40)); return [x, m]
        ctx.verify(E(), u.one(r'^vp_resize_px\('), 'resize<PointCloudProxy>', S2, lambda ex, st0, st, ret, ar: box['C'].sizes(st, box['k']) + box['C'].frame(st0, st, below=z3.If(box['k'] < box['m'], box['k'], box['m'])))
        def S3(ex, st):
            x = mk(ex, st); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < box['m'])); v = Region('value', size=128, const=True); box['v'] = [rv(ex.load(st, Ptr(v, (), 8 * k), 'double')) for k in range(16)]; return [x, i, Ptr(v)]
        ctx.verify(E(), u.one(r'^vp_setc_px\('), 'set_cov<PointCloudProxy>', S3, lambda ex, st0, st, ret, ar: [('lane %d holds the value' % k, box['C'].lane(st, box['C'].q, 8 * k, 'double')[box['i']] == box['v'][k]) for k in range(16)] + box['C'].frame(st0, st, (box['C'].q, list(range(0, 128, 8))), box['i']) + box['C'].sizes(st, box['m']))
        def S4(ex, st): x = mk(ex, st); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < box['m'])); r = box['o'] = Region('out', size=128); return [x, i, Ptr(r)]
        ctx.verify(E(), u.one(r'^vp_getc_px\('), 'cov<PointCloudProxy>', S4, lambda ex, st0, st, ret, ar: [('lane %d' % k, rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double'))) == box['C'].lane(st0, box['C'].q, 8 * k, 'double')[box['i']]) for k in range(16)])
    ctx.fork('proxy', proxy)

    def matx():
        # Eigen::MatrixXd: { double* data; Index rows; Index cols }, column-major
        def mk(ex, st):
            R, C = box['R'], box['Cc'] = z3.Int('rows'), z3.Int('cols'); st.assume(z3.And(R >= 0, R < 2 ** 40, C >= 3, C < 2 ** 20))
            q = box['q'] = Region('matrix_data', 1, 8, [(0, 'double')], length=lambda key, t: R * C, const=True)
            m = Region('matrix', size=24); st.mem[(m, 0)] = ('ptr', Ptr(q, (0,))); st.mem[(m, 8)] = ('i64', R); st.mem[(m, 16)] = ('i64', C); m.const = True
            return Ptr(m)
        def S(ex, st): x = mk(ex, st); i = box['i'] = z3.Int('i'); st.assume(z3.And(0 <= i, i < box['R'])); r = box['o'] = Region('out', size=32); return [x, i, Ptr(r)]
        def P(ex, st0, st, ret, ar):
            A = ex.named_arr(st0, box['q'], 0, 'double'); ld = lambda k: rv(ex.asreal(ex.load(st, Ptr(box['o'], (), 8 * k), 'double')))
            return [('coordinate %d' % k, ld(k) == A[box['i'] + k * box['R']]) for k in range(3)] + [('homogeneous coordinate one', ld(3) == 1)]
        ctx.verify(ctx.exec(u), u.one(r'^vp_getp_mx\('), 'point<MatrixXd>', S, P)
        ctx.verify(ctx.exec(u), u.one(r'^vp_size_mx\('), 'size<MatrixXd>', lambda ex, st: [mk(ex, st)], lambda ex, st0, st, ret, ar: [('number of rows', iv(ex.asint(st, ret)) == box['R'])])
        ctx.verify(ctx.exec(u), u.one(r'^vp_hasp_mx\('), 'has_points<MatrixXd>', lambda ex, st: [mk(ex, st)], lambda ex, st0, st, ret, ar: [('non-empty', ex.asbool(ret) == (box['R'] > 0))])
    ctx.fork('MatrixXd', matx)

    def conv(nm, kind, d):
        es = 4 if kind == 'float' else 8; stride = {('float', 3): 12, ('float', 4): 16, ('double', 3): 24, ('double', 4): 32}[(kind, d)]
        def setup(ex, st):
            n = box['n'] = z3.Int('n'); st.assume(z3.And(n >= 0, n < 2 ** 40))
            q = box['q'] = Region('input', 1, stride, [(es * k, kind) for k in range(d)], length=n, const=True)
            v = Region('input_vector', size=24); cap = z3.Int('cap'); st.assume(cap >= n)
            for k, x in ((0, 0), (8, n), (16, cap)): st.mem[(v, k)] = ('ptr', Ptr(q, (x,)))
            v.const = True
            r = box['r'] = Region('cloud', size=o.pc)
            return [Ptr(r), Ptr(v)]
        def resize(ex, st, ins, args):
            # first resize of a freshly constructed vector: null storage becomes n arbitrary elements
            this, n = args[0], iv(ex.toU(st, ex.asint(st, args[1]), 64))
            if this.r is not box['r']: raise Unsupported('resize of another container')
            a = [k for k in 'pnc' if o['pc_' + k] == this.off]
            if len(a) != 1: raise Unsupported('resize of an unknown member')
            b = ex.load(st, this, 'ptr')
            if isinstance(b, Ptr) and b.r is not None and b.r.name in ('points', 'normals', 'covs'): raise Unsupported('second resize')
            B = box.setdefault('B', {})
            q = Region({'p': 'points', 'n': 'normals', 'c': 'covs'}[a[0]], 1, 8 * LANES[a[0]], [(8 * k, 'double') for k in range(LANES[a[0]])], length=lambda key, t: n)
            for k in range(LANES[a[0]]): ex.get_arr(st, q, 8 * k, 'double')
            B[a[0]] = (q, n)
            for k in range(0, 24, 8): st.mem[(box['r'], this.off + k)] = ('ptr', Ptr(q, ((n if k else 0),)))
            return UNDEF
        A = lambda ex, st, k: ex.named_arr(st, box['q'], es * k, kind)
        def inv(ex, st, hi):
            j = z3.Int('j_'); q = box['B']['p'][0]; out = []
            for k in range(4):
                L = ex.named_arr(st, q, 8 * k, 'double')
                out.append(('lane %d of the converted points' % k, forall(j, z3.Implies(z3.And(0 <= j, j < hi), L[j] == (A(ex, st, k)[j] if k < 3 else rv(1))), [L[j]])))
            return out
        def loops(L):
            out = []
            for n in L.phis:
                c = L.cur[n]
                if isinstance(c, Ptr): hi = iv(c.key[-1]) if c.r in (box['q'], box['B']['p'][0]) else None
                elif L.tys[n].k == 'i' and L.tys[n].n > 1: hi = iv(c.term() if isinstance(c, Scaled) else c)
                else: hi = None
                if hi is not None: out += inv(L.ex, L.st, hi) + [('0<=%s' % n, hi >= 0), ('%s<=n' % n, hi <= box['n']), ('%s<n' % n, hi < box['n'])]
            return out
        def post(ex, st0, st, ret, ar):
            out = []
            for a in 'pnc':
                e = st.mem.get((box['r'], o['pc_' + a] + 8)); ok = e and a in box.get('B', {}) and e[1].r is box['B'][a][0]
                out.append(('size of attribute %s' % a, iv(e[1].key[-1]) == box['n'] if ok else z3.BoolVal(False)))
            return out + (inv(ex, st, box['n']) if 'p' in box.get('B', {}) else [])
        box.pop('B', None)
        ex = ctx.exec(u, contracts=[(CONTRACTS[0][0], resize)])
        ctx.verify(ex, u.one(r'^vp_conv_%s\(' % nm), 'PointCloud(vector<Matrix<%s,%d,1>>)' % (kind, d), setup, post, loops=loops)
    for c in CONV: ctx.fork('conversion ' + c[0], lambda c=c: conv(*c))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c21', deep, flags=('-fsanitize=address', '-I/usr/include/pcl-1.14'))
