"""C06: random sampling draws the requested number of distinct points."""
from ..ds import *
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['std::sample is assumed to return min(n, population) elements of the population at distinct positions, every position being eligible', 'std::vector<size_t>(n) provides n elements', 'PointCloud::resize is under contract in C21', 'fewer than 2^31 points', 'printing to std::cerr has no effect on the result']
SRC6 = '''
#include <random>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;
std::shared_ptr<PointCloud> vp_rnd(const PointCloud& p, size_t n, std::mt19937& rng) { return random_sampling(p, n, rng); }
'''
def src6(): return SRC6 + off_src([('pts', 'small_gicp::PointCloud', 'points'), ('nrm', 'small_gicp::PointCloud', 'normals'), ('cov', 'small_gicp::PointCloud', 'covs')]) + size_src([('pc', 'small_gicp::PointCloud')])
KEEP6 = [r'^std::vector<unsigned long.*>::(vector\(|~vector\()', r'^[^(]* std::sample<|^std::sample<', r'shuffle<', r'PointCloud::resize\(', r'make_shared<', r'~shared_ptr|~__shared_count|_M_release', r'ostream', r'^(unsigned long )?std::(mersenne_twister|uniform_int_distribution)']

def cloud6(ex, st, o):
    class C: pass
    s = C(); s.n = z3.Int('n'); st.assume(z3.And(s.n >= 0, s.n < 2 ** 31))
    s.P = Region('points', 1, 32, V4F(), length=s.n, const=True); s.pc = Region('cloud', size=o.pc)
    for k, q in ((0, 0), (8, s.n), (16, s.n)): st.mem[(s.pc, o.pts + k)] = ('ptr', Ptr(s.P, (iv(q),)))
    s.pc.const = True; s.ptr = Ptr(s.pc); s.L = [ex.named_arr(st, s.P, 8 * k, 'double') for k in range(4)]
    return s

def contracts6(box, o):
    def vec(ex, st, ins, args):
        if len(args) > 1 and isinstance(args[1], Ptr): raise Unsupported('vector copy')
        n = iv(ex.toU(st, ex.asint(st, args[1]), 64)) if len(args) > 1 else z3.IntVal(0)
        r = Region('indices%d' % len(box['vecs']), 1, 8, [(0, 'i64')], length=n); box['vecs'].append(r)
        if len(args) > 3: raise Unsupported('vector fill')
        st.mem[(r, 0, 'i64')] = z3.K(IntS, z3.IntVal(0))
        for k, q in ((0, z3.IntVal(0)), (8, n), (16, n)): ex.store(st, ex.padd_const(args[0], k), Ptr(r, (q,)), 'ptr')
        return UNDEF
    def sample(ex, st, ins, args):
        a, b, o_, n = args[:4]
        if not all(isinstance(p, Ptr) and p.r in box['vecs'] for p in (a, b, o_)): raise Unsupported('sample of another range')
        n = iv(ex.toU(st, ex.asint(st, n), 64)); src, dst = a.r, o_.r
        lo, hi, d0 = iv(a.key[-1]), iv(b.key[-1]), iv(o_.key[-1]); L = hi - lo
        m = z3.If(n < L, n, L)
        arr = ex.named_arr(st, src, 0, 'i64'); j = z3.Int('jc')
        ex.oblige(st, z3.BoolVal(a.r is b.r and dst is not src), 'the population and the output are separate ranges', 'pre')
        ex.oblige(st, z3.And(lo == 0, hi == box['cl'].n), 'the population has one entry per input point', 'pre')
        ex.oblige(st, z3.Implies(z3.And(lo <= j, j < hi), arr[j] == j), 'every input point is in the population', 'pre', assume=False)
        ex.oblige(st, z3.And(d0 >= 0, d0 + m <= iv(dst.length)), 'the output has room for the samples', 'pre')
        F, G = z3.Function(fresh_name('drawn'), IntS, IntS), z3.Function(fresh_name('rank'), IntS, IntS)
        new = z3.Const(fresh_name('samples'), z3.ArraySort(IntS, IntS)); old = ex.named_arr(st, dst, 0, 'i64')
        st.mem[(dst, 0, 'i64')] = new; k = z3.Int('k_')
        st.assume(forall(k, z3.If(z3.And(d0 <= k, k < d0 + m), z3.And(new[k] == arr[F(k - d0)], lo <= F(k - d0), F(k - d0) < hi, G(F(k - d0)) == k - d0), new[k] == old[k]), [new[k]]))
        st.mem[('mark', 'S')] = (new, m)
        return Ptr(dst, (d0 + m,))
    return [(r'std::vector<unsigned long.*>::vector\(', vec), (r'^[^(]* std::sample<|^std::sample<', sample), (r'ostream', lambda ex, st, ins, a: a[0])]

def loops6(box):
    def go(L):
        ex, st = L.ex, L.st; cl = box['cl']; out = []; j = z3.Int('j_')
        ph = [(n, v) for n, v in vals(L) if v.sort() == IntS]
        for n, q in ph:
            out += [('%s<=%s' % (n, m), q <= b) for m, b in outer_ints(L)] + [(n + '>=0', q >= 0), (n + '<=n', q <= cl.n)]
            out += [('%s=%s' % (n, m), q == b) for m, b in ph if m > n]
            for r in box['vecs']:
                if any(k[0] is r for k in L.mods):
                    arr = ex.named_arr(st, r, 0, 'i64'); out.append(('%s is 0,1,2... below %s' % (r.name, n), forall(j, z3.Implies(z3.And(0 <= j, j < q), arr[j] == j), [arr[j]])))
            for pc in box.get('pcs', ()):
                if ('mark', 'S') in st.mem and any(k[0] is pc.outP for k in L.mods):
                    O = lanes(ex, st, pc.outP); S, m = st.mem[('mark', 'S')]
                    out += [('lane %d copied below %s' % (k, n), forall(j, z3.Implies(z3.And(0 <= j, j < q), O[k][j] == cl.L[k][S[j]]), [O[k][j]])) for k in range(4)]
                    out.append(('%s<=m' % n, q <= m))
        return out
    return go

def prove(ctx):
    u = ctx.unit('c06', src6(), keep=KEEP6); o = Offs(u); box = {}
    def setup(ex, st):
        box.clear(); box['vecs'] = []; box['cl'] = cl = cloud6(ex, st, o)
        box['num'] = z3.Int('num_samples'); st.assume(z3.And(box['num'] >= 0, box['num'] < 2 ** 64)); box['out'] = Region('result', size=16, local=True)
        return [Ptr(box['out']), cl.ptr, ex.ofU(st, box['num'], 64) if hasattr(ex, 'ofU') else box['num'], Ptr(Region('rng', size=5000))]
    def post(ex, st0, st, ret, a):
        cl = box['cl']; pc = ex.load(st, Ptr(box['out']), 'ptr').r; n = st.mem[('ghost', 'len_%s' % id(pc))]; num = box['num']
        out = [('the number of points is min(requested, available)', n == z3.If(num < cl.n, num, cl.n))]
        if ('mark', 'S') in st.mem:
            S, m = st.mem[('mark', 'S')]; O = lanes(ex, st, pc.outP); t, v = z3.Ints('t v'); ins = lambda t: z3.And(0 <= t, t < n)
            out += [('lane %d of every output point is that of an input point' % k, z3.Implies(ins(t), z3.And(0 <= S[t], S[t] < cl.n, O[k][t] == cl.L[k][S[t]]))) for k in range(4)]
            out += [('different outputs are different input points', z3.Implies(z3.And(ins(t), ins(v), t != v), S[t] != S[v]))]
        else: out.append(('no sample only without points', z3.Or(cl.n == 0, num == 0)))
        return out
    ex = ctx.exec(u, contracts=contracts6(box, o) + cloud_contracts(box, o))
    ctx.verify(ex, u.one(r'^vp_rnd\('), 'random_sampling', setup, post, loops=loops6(box))

def harness(ctx, deep):
    return run_harness(ctx, 'h_c06', deep)
