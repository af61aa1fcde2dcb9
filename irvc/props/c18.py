"""C18: the high-level registration entry points honour their settings."""
from ..common import *
from ..par import nop, split_targs
from ..unit import OMPFLAGS
from ..native import run_harness

TIMEOUT = 40
ASSUMPTIONS = ['the alignment itself (Registration::align) is C14/C15/C19, sampling is C04/C05, the estimators are C17, voxel map insertion is C08, tree construction is C01: here each is the contract "does its work with exactly the arguments it is handed"',
               'std::make_shared, shared_ptr ownership, std::string comparison/assignment and std::vector assignment/clear/swap are assumed contracts of the standard library; pcl::Registration base class methods (setInputSource/Target store the cloud; transformPointCloud) are assumed contracts of PCL']
RES = 'small_gicp::RegistrationResult'
REG = {'I': ('ICPFactor', 0), 'P': ('PointToPlaneICPFactor', 1), 'G': ('GICPFactor', 2)}
RF = [('rr_T', RES, 'T_target_source'), ('rr_conv', RES, 'converged'), ('rr_it', RES, 'iterations'), ('rr_in', RES, 'num_inliers'), ('rr_H', RES, 'H'), ('rr_b', RES, 'b'), ('rr_e', RES, 'error')]
def reg_offs():
    l = list(RF)
    for k, (F, _) in REG.items():
        t = 'R' + k
        l += [('%s_nt' % t, t, 'reduction.num_threads'), ('%s_d' % t, t, 'rejector.max_dist_sq'), ('%s_re' % t, t, 'criteria.rotation_eps'), ('%s_te' % t, t, 'criteria.translation_eps'), ('%s_it' % t, t, 'optimizer.max_iterations')]
    return l
REGSRC = '''
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
''' + ''.join('using R%s = small_gicp::Registration<small_gicp::%s, small_gicp::ParallelReductionOMP>;\n' % (k, F) for k, (F, _) in REG.items())
SF = ['type', 'voxel_resolution', 'downsampling_resolution', 'max_correspondence_distance', 'rotation_eps', 'translation_eps', 'num_threads', 'max_iterations']
ALIGN = r'^small_gicp::RegistrationResult small_gicp::Registration<.*>::align<'
MK = r'^std::shared_ptr<.*std::make_shared<'
REL = r'^std::(shared_ptr|__shared_ptr|__shared_count|weak_ptr)<.*>::~|_M_release|~_Vector_base|::~vector\('
OUT = r'^(.* )?std::(basic_)?ostream|operator<<|std::endl|std::flush'
PRE = r'^small_gicp::preprocess_points\('; ALN = r'^small_gicp::align\('; VMX = r'^small_gicp::create_gaussian_voxelmap\('
SMP = r'^std::shared_ptr<.*small_gicp::voxelgrid_sampling(_omp)?<'; EST = r'^void small_gicp::estimate_normals_covariances(_omp)?<'; INS = r'^void small_gicp::IncrementalVoxelMap<.*>::insert<'
KEEP = [ALIGN, MK, REL, PRE, ALN, VMX, SMP, EST, INS]
def src(ctx):
    return '#include "%s/src/small_gicp/registration/registration_helper.cpp"\n' % REPO + REGSRC + off_src(reg_offs() + [('s_' + f, 'small_gicp::RegistrationSetting', f) for f in SF])

def is_at(p, r, off=0): return isinstance(p, Ptr) and p.r is r and p.off == off
def num(ex, st, p, off, kind):
    v = ex.load(st, ex.padd_const(p, off), kind); return rv(ex.asreal(v)) if kind == 'double' else iv(ex.asint(st, v))
def fields(o): return [(o.rr_T + 8 * k, 'double') for k in range(16)] + [(o.rr_conv, 'i8'), (o.rr_it, 'i64'), (o.rr_in, 'i64')] + [(o.rr_H + 8 * k, 'double') for k in range(36)] + [(o.rr_b + 8 * k, 'double') for k in range(6)] + [(o.rr_e, 'double')]
def fresh_result(ex, st, o, p):
    """the alignment's result: fresh values in every field, remembered to compare with what the caller returns"""
    vals = []
    for off, k in fields(o):
        if k == 'double': v = freal('res')
        else: v = fint('res'); st.assume(z3.And(0 <= v, v < (2 if k == 'i8' else 2 ** 62)))
        ex.store(st, ex.padd_const(p, off), v, k); vals.append((off, k, v))
    st.mem[('mark', 'result')] = vals
def same_result(ex, st, o, p):
    vals = st.mem.get(('mark', 'result'))
    if vals is None: return [('an alignment is run', z3.BoolVal(False))]
    return [('the result of the alignment is returned [%d]' % off, num(ex, st, p, off, k) == v) for off, k, v in vals]
def sp(ex, st, dst, r, off=0):
    """store a shared_ptr to object region r"""
    ex.store(st, ex.padd_const(dst, off), Ptr(r), 'ptr'); ex.store(st, ex.padd_const(dst, off + 8), NULL, 'ptr')
def dem_of(ex, ins): return ex.unit.dem[ex.m.aliases.get(ins.x, ins.x)]
def once(ex, st, nm, what):
    ex.oblige(st, z3.BoolVal(('mark', nm) not in st.mem), what + ' happens once', 'pre')

class Setting:
    def __init__(s, ex, st, o):
        s.r = Region('setting', size=80, const=True); p = Ptr(s.r); s.p = p
        for f, k in zip(SF, ['i32'] + ['double'] * 5 + ['i32'] * 2): setattr(s, f, num(ex, st, p, o['s_' + f], k))
        st.assume([s.num_threads >= 1, s.num_threads < 2 ** 31, s.max_iterations > -2 ** 31, s.max_iterations < 2 ** 31])

def regconf(ex, st, o, p, k, want):
    """obligations: the Registration object at p carries the wanted configuration"""
    for f, kind, v, t in (('nt', 'i32', want['nt'], 'the configured thread count'), ('d', 'double', want['d'] * want['d'], 'the square of the configured correspondence distance'), ('re', 'double', want['re'], 'the configured rotation threshold'), ('te', 'double', want['te'], 'the configured translation threshold'), ('it', 'i32', want['it'], 'the configured iteration limit')):
        ex.oblige(st, num(ex, st, p, o['R%s_%s' % (k, f)], kind) == v, t + ' is used', 'pre')

def align_contract(o, box, o_args):
    def align(ex, st, ins, a):
        dem = dem_of(ex, ins); F = split_targs(dem)[0].split('::')[-1]; ks = [k for k, (n, _) in REG.items() if n == F]
        red = split_targs(dem)[1].split('::')[-1]
        if not ks or red != 'ParallelReductionOMP': raise Unsupported('registration type ' + dem[:120])
        ex.oblige(st, z3.BoolVal(('mark', 'result') not in st.mem), 'one alignment is run', 'pre')
        o_args(ex, st, ks[0], a)
        fresh_result(ex, st, o, a[0]); return UNDEF
    return align

def want(S): return dict(nt=S.num_threads, d=S.max_correspondence_distance, re=S.rotation_eps, te=S.translation_eps, it=S.max_iterations)

def prove_align(ctx, u, o, vm):
    box = {}
    def setup(ex, st):
        S = box['S'] = Setting(ex, st, o); st.assume(S.type == 3 if vm else S.type < 2 ** 31); st.assume(S.type >= 0)
        for n in ('out', 'target', 'source', 'tree', 'init'): box[n] = Region(n, size=600, const=n != 'out')
        return [Ptr(box['out']), Ptr(box['target']), Ptr(box['source'])] + ([] if vm else [Ptr(box['tree'])]) + [Ptr(box['init']), S.p]
    def args(ex, st, k, a):
        S = box['S']; _, this, t, s, tr, T = a[:6]
        ex.oblige(st, S.type == (3 if vm else REG[k][1]), 'the configured factor type is run', 'pre') if k == 'G' or not vm else ex.oblige(st, z3.BoolVal(False), 'voxel maps are aligned by GICP factors', 'pre')
        ex.oblige(st, z3.BoolVal(is_at(t, box['target']) and is_at(s, box['source']) and is_at(tr, box['target'] if vm else box['tree'])), 'the given clouds and search structure are aligned', 'pre')
        ex.oblige(st, z3.BoolVal(is_at(T, box['init']) or same_T(ex, st, T)), 'the alignment starts from the given transform', 'pre')
        regconf(ex, st, o, this, k, want(S))
    def same_T(ex, st, T):
        if not isinstance(T, Ptr): return False
        return all(num(ex, st, T, 8 * q, 'double').eq(num(ex, st, Ptr(box['init']), 8 * q, 'double')) for q in range(16) if q % 4 != 3)
    def ab(ex, st, ins, a): ex.oblige(st, z3.Or(box['S'].type < 0, box['S'].type > 3), 'only an invalid registration type aborts', 'pre'); return NORETURN
    def post(ex, st0, st, ret, a):
        S = box['S']
        if ('mark', 'result') in st.mem: return same_result(ex, st, o, Ptr(box['out']))
        return [('nothing is aligned only for VGICP on a point cloud', z3.BoolVal(not vm) if vm else S.type == 3), ('which is reported as not converged', num(ex, st, Ptr(box['out']), o.rr_conv, 'i8') == 0)]
    ex = ctx.exec(u, contracts=[(ALIGN, align_contract(o, box, args)), (r'^abort$', ab), (OUT, nop), (REL, nop)])
    ctx.verify(ex, u.one(r'^small_gicp::align\(small_gicp::%s' % ('IncrementalVoxelMap' if vm else 'PointCloud')), 'align(%s)' % ('GaussianVoxelMap' if vm else 'PointCloud'), setup, post)

def prove_pre(ctx, u, o):
    box = {}
    def setup(ex, st):
        box['out'] = Region('out', size=32); box['points'] = Region('points', size=80, const=True); box['res'] = z3.Real('resolution'); box['k'], box['nt'] = z3.Ints('num_neighbors num_threads')
        st.assume([box['nt'] >= 1, box['nt'] < 2 ** 31, box['k'] >= 1, box['k'] < 2 ** 31])
        return [Ptr(box['out']), Ptr(box['points']), box['res'], box['k'], box['nt']]
    def threads(ex, st, omp, a, k):
        ex.oblige(st, iv(ex.asint(st, a[k])) == box['nt'] if omp else box['nt'] == 1, 'the configured thread count is used', 'pre')
    def smp(ex, st, ins, a):
        omp = 'voxelgrid_sampling_omp' in dem_of(ex, ins); once(ex, st, 'sampled', 'downsampling'); threads(ex, st, omp, a, 3)
        ex.oblige(st, z3.And(z3.BoolVal(is_at(a[1], box['points'])), rv(ex.asreal(a[2])) == box['res']), 'the given points are downsampled with the given resolution', 'pre')
        r = Region('downsampled', size=80, local=True); st.mem[('mark', 'sampled')] = r; sp(ex, st, a[0], r); return UNDEF
    def mk(ex, st, ins, a):
        t = split_targs(dem_of(ex, ins)[dem_of(ex, ins).index('make_shared'):])[0]
        if 'KdTree<' not in t: raise Unsupported('make_shared<%s>' % t)
        p = ex.load(st, a[1], 'ptr'); ex.oblige(st, z3.BoolVal(('mark', 'sampled') in st.mem and is_at(p, st.mem[('mark', 'sampled')])), 'the tree is built over the downsampled cloud', 'pre')
        r = Region('tree', size=80, local=True); st.mem[('mark', 'tree')] = r; sp(ex, st, a[0], r); return UNDEF
    def est(ex, st, ins, a):
        dem = dem_of(ex, ins); omp = 'estimate_normals_covariances_omp' in dem; once(ex, st, 'estimated', 'the estimation'); off = 2
        ok = ('mark', 'sampled') in st.mem and is_at(a[0], st.mem[('mark', 'sampled')])
        if 'Tree' in ','.join(split_targs(dem)): ok = ok and ('mark', 'tree') in st.mem and is_at(a[1], st.mem[('mark', 'tree')])
        else: off = 1
        ex.oblige(st, z3.BoolVal(ok), 'normals and covariances of the downsampled cloud are estimated with its tree', 'pre'); ex.oblige(st, iv(ex.asint(st, a[off])) == box['k'], 'the given neighbour count is used', 'pre')
        threads(ex, st, omp, a, off + 1); st.mem[('mark', 'estimated')] = True; return UNDEF
    def post(ex, st0, st, ret, a):
        p = Ptr(box['out']); x, y = ex.load(st, p, 'ptr'), ex.load(st, ex.padd_const(p, 16), 'ptr')
        return [('the downsampled cloud is returned', z3.BoolVal(('mark', 'sampled') in st.mem and is_at(x, st.mem[('mark', 'sampled')]))), ('its tree is returned', z3.BoolVal(('mark', 'tree') in st.mem and is_at(y, st.mem[('mark', 'tree')]))), ('normals and covariances were estimated', z3.BoolVal(('mark', 'estimated') in st.mem))]
    ex = ctx.exec(u, contracts=[(SMP, smp), (MK, mk), (EST, est), (OUT, nop), (REL, nop)])
    ctx.verify(ex, u.one(PRE), 'preprocess_points(PointCloud)', setup, post)

def prove_vmap(ctx, u, o):
    box = {}
    def setup(ex, st): box['out'] = Region('out', size=16); box['points'] = Region('points', size=80, const=True); box['res'] = z3.Real('voxel_resolution'); return [Ptr(box['out']), Ptr(box['points']), box['res']]
    def mk(ex, st, ins, a):
        ex.oblige(st, num(ex, st, a[1], 0, 'double') == box['res'], 'the map has the given resolution', 'pre'); r = Region('voxelmap', size=400, local=True); st.mem[('mark', 'map')] = r; sp(ex, st, a[0], r); return UNDEF
    def ins(ex, st, i, a):
        once(ex, st, 'inserted', 'insertion'); ex.oblige(st, z3.BoolVal(('mark', 'map') in st.mem and is_at(a[0], st.mem[('mark', 'map')]) and is_at(a[1], box['points'])), 'the given points are inserted', 'pre')
        I = [num(ex, st, a[2], 8 * q, 'double') == (1 if q % 5 == 0 else 0) for q in range(16) if q % 4 != 3]; ex.oblige(st, z3.And(I), 'without a transform', 'pre'); st.mem[('mark', 'inserted')] = True; return UNDEF
    def post(ex, st0, st, ret, a): return [('the map is returned', z3.BoolVal(('mark', 'map') in st.mem and is_at(ex.load(st, Ptr(box['out']), 'ptr'), st.mem[('mark', 'map')]))), ('with the points', z3.BoolVal(('mark', 'inserted') in st.mem))]
    ctx.verify(ctx.exec(u, contracts=[(MK, mk), (INS, ins), (OUT, nop), (REL, nop)]), u.one(VMX), 'create_gaussian_voxelmap', setup, post)

TYPES = [('float', 3), ('float', 4), ('double', 3), ('double', 4)]
def mkcloud(ex, st, a):
    r = Region('cloud', size=80, local=True); st.mem[('mark', 'cloud', r)] = a[1]; sp(ex, st, a[0], r); return UNDEF
def from_vec(st, p, v): return isinstance(p, Ptr) and ('mark', 'cloud', p.r) in st.mem and p.off == 0 and is_at(st.mem[('mark', 'cloud', p.r)], v)
def prove_eigen_pre(ctx, u, o, T, D):
    box = {}
    def setup(ex, st):
        box['out'] = Region('out', size=32); box['v'] = Region('points', size=24, const=True); box['res'] = z3.Real('resolution'); box['k'], box['nt'] = z3.Ints('num_neighbors num_threads')
        return [Ptr(box['out']), Ptr(box['v']), box['res'], box['k'], box['nt']]
    def mk(ex, st, ins, a): return mkcloud(ex, st, a)
    def pre(ex, st, ins, a):
        ex.oblige(st, z3.BoolVal(from_vec(st, a[1], box['v'])), 'the given points are preprocessed', 'pre')
        ex.oblige(st, z3.And(rv(ex.asreal(a[2])) == box['res'], iv(ex.asint(st, a[3])) == box['k'], iv(ex.asint(st, a[4])) == box['nt']), 'resolution, neighbour count and thread count are passed on', 'pre')
        p, t = box['p'], box['t'] = Region('cloud', size=80, local=True), Region('tree', size=80, local=True); sp(ex, st, a[0], p); sp(ex, st, a[0], t, 16); return UNDEF
    def post(ex, st0, st, ret, a): return [('the preprocessed cloud and its tree are returned', z3.BoolVal('p' in box and is_at(ex.load(st, Ptr(box['out']), 'ptr'), box['p']) and is_at(ex.load(st, Ptr(box['out'], (), 16), 'ptr'), box['t'])))]
    ctx.verify(ctx.exec(u, contracts=[(MK, mk), (PRE, pre), (OUT, nop), (REL, nop)]), u.one(r'small_gicp::preprocess_points<%s, %d>\(' % (T, D)), 'preprocess_points<%s, %d>' % (T, D), setup, post)

def prove_eigen_align(ctx, u, o, T, D):
    box = {}
    def setup(ex, st):
        S = box['S'] = Setting(ex, st, o); st.assume(z3.And(0 <= S.type, S.type <= 3))
        box['out'] = Region('out', size=600)
        for n in ('target', 'source', 'init'): box[n] = Region(n, size=128, const=True)
        return [Ptr(box['out']), Ptr(box['target']), Ptr(box['source']), Ptr(box['init']), S.p]
    def mk(ex, st, ins, a): return mkcloud(ex, st, a)
    def pre(ex, st, ins, a):
        S = box['S']; which = [n for n in ('target', 'source') if from_vec(st, a[1], box[n])]
        ex.oblige(st, z3.BoolVal(len(which) == 1), 'the given points are preprocessed', 'pre')
        ex.oblige(st, z3.And(rv(ex.asreal(a[2])) == S.downsampling_resolution, iv(ex.asint(st, a[4])) == S.num_threads, iv(ex.asint(st, a[3])) >= 5), 'with the configured resolution and thread count', 'pre')
        p, t = Region('cloud', size=80, local=True), Region('tree', size=80, local=True); st.mem[('mark', 'pre', which[0] if which else '?')] = (p, t); sp(ex, st, a[0], p); sp(ex, st, a[0], t, 16); return UNDEF
    def got(st, n): return st.mem.get(('mark', 'pre', n), (None, None))
    def vmx(ex, st, ins, a):
        S = box['S']; ex.oblige(st, z3.And(z3.BoolVal(isinstance(a[1], Ptr) and a[1].r is got(st, 'target')[0]), rv(ex.asreal(a[2])) == S.voxel_resolution), 'the voxel map of the target has the configured resolution', 'pre')
        r = Region('voxelmap', size=400, local=True); st.mem[('mark', 'map')] = r; sp(ex, st, a[0], r); return UNDEF
    def aln(ex, st, ins, a):
        S = box['S']; vm = 'align(small_gicp::Inc' in dem_of(ex, ins); t, s = a[1], a[2]; tr, T, se = (None, a[3], a[4]) if vm else a[3:6]
        ex.oblige(st, z3.BoolVal(('mark', 'result') not in st.mem), 'one alignment is run', 'pre')
        ex.oblige(st, S.type == 3 if vm else S.type != 3, 'voxel maps are used exactly for VGICP', 'pre')
        ok = isinstance(s, Ptr) and s.r is got(st, 'source')[0] and isinstance(t, Ptr) and (t.r is st.mem.get(('mark', 'map')) if vm else t.r is got(st, 'target')[0] and isinstance(tr, Ptr) and tr.r is got(st, 'target')[1])
        ex.oblige(st, z3.BoolVal(ok), 'the preprocessed clouds and search structure are aligned', 'pre')
        ex.oblige(st, z3.BoolVal(is_at(T, box['init']) and is_at(se, S.r)), 'from the given transform with the given settings', 'pre')
        fresh_result(ex, st, o, a[0]); return UNDEF
    def post(ex, st0, st, ret, a): return same_result(ex, st, o, Ptr(box['out']))
    ctx.verify(ctx.exec(u, contracts=[(MK, mk), (PRE, pre), (VMX, vmx), (ALN, aln), (OUT, nop), (REL, nop)]), u.one(r'small_gicp::align<%s, %d>\(' % (T, D)), 'align<%s, %d>' % (T, D), setup, post)

# ---------------------------------------------------------------- RegistrationPCL
PSRC = """#include <pcl/point_types.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
""" + REGSRC + """
using P = pcl::PointXYZ; using R = small_gicp::RegistrationPCL<P, P>; using CV = std::vector<Eigen::Matrix4d>; using PCX = pcl::PointCloud<P>; using PPX = small_gicp::PointCloudProxy<P>; using BLD = small_gicp::KdTreeBuilderOMP;
struct RX : R { using R::computeTransformation; };
void vp_ctor(R* r) { new (r) R(); }
void vp_setsrc(R& r, const R::PointCloudSourceConstPtr& c) { r.R::setInputSource(c); }
void vp_settgt(R& r, const R::PointCloudTargetConstPtr& c) { r.R::setInputTarget(c); }
void vp_covsrc(R& r, const CV& c) { r.setSourceCovariances(c); }
void vp_covtgt(R& r, const CV& c) { r.setTargetCovariances(c); }
const CV* vp_getsrc(R& r) { return &r.getSourceCovariances(); }
const CV* vp_gettgt(R& r) { return &r.getTargetCovariances(); }
const Eigen::Matrix<double, 6, 6>* vp_getH(R& r) { return &r.getFinalHessian(); }
const small_gicp::RegistrationResult* vp_getres(R& r) { return &r.getRegistrationResult(); }
void vp_swap(R& r) { r.swapSourceAndTarget(); }
void vp_clrsrc(R& r) { r.clearSource(); }
void vp_clrtgt(R& r) { r.clearTarget(); }
void vp_nt(R& r, int n) { r.setNumThreads(n); }
void vp_rnd(R& r, int n) { r.setCorrespondenceRandomness(n); }
void vp_nn(R& r, int n) { r.setNumNeighborsForCovariance(n); }
void vp_vr(R& r, double v) { r.setVoxelResolution(v); }
void vp_re(R& r, double v) { r.setRotationEpsilon(v); }
void vp_type(R& r, const std::string& t) { r.setRegistrationType(t); }
void vp_verb(R& r, bool v) { r.setVerbosity(v); }
void vp_comp(RX& r, R::PointCloudSource& o, const R::Matrix4& g) { r.R::computeTransformation(o, g); }
"""
PF = dict(src='input_', tgt='target_', srctree='source_tree_', tgttree='target_tree_', srcmap='source_voxelmap_', tgtmap='target_voxelmap_', srccov='source_covs_', tgtcov='target_covs_', nt='num_threads_', k='k_correspondences_', re='rotation_epsilon_', vr='voxel_resolution_', type='registration_type_', verb='verbose_', dist='corr_dist_threshold_', maxit='max_iterations_', te='transformation_epsilon_', fin='final_transformation_', conv='converged_', res='result_')
SETK = dict(nt='i32', k='i32', re='double', vr='double', verb='i8', dist='double', maxit='i32', te='double')
def psrc(): return PSRC + off_src(reg_offs() + [('p_' + n, 'R', m) for n, m in PF.items()] + [('pc_pts', 'PCX', 'points'), ('px_cloud', 'PPX', 'cloud'), ('px_covs', 'PPX', 'covs'), ('bl_nt', 'BLD', 'num_threads')]) + size_src([('R', 'R')])
ECO = r'^void small_gicp::estimate_covariances(_omp)?<'; TRC = r'^void pcl::transformPointCloud<'; BASE = r'^pcl::(Registration|PCLBase)<'; STR = r'^(.* )?std::(__cxx11::)?basic_string<.*>::'
VCOV = r'^(.* )?std::vector<Eigen::Matrix<double, 4, 4, .*>::'
PKEEP = [ALIGN, MK, REL, ECO, INS, TRC, BASE, STR + r'(compare|_M_assign|operator=|assign|_M_replace|_M_create|~basic_string|basic_string)[<(]', VCOV + r'(operator=|clear|swap|assign|resize|_M_move_assign)[<(]', r'pcl::console']
LEN = {1: 4, 2: 5}; CODE = {'GICP': 1, 'VGICP': 2}

class Reg:
    """a RegistrationPCL object in a given configuration: side -> (cloud, covariances sized?, voxel map?)"""
    def __init__(s, ex, st, o, conf):
        s.ex, s.o, s.conf = ex, o, conf; s.r = Region('registration', size=o.R); s.p = Ptr(s.r); s.cl, s.cov, s.tree, s.map, s.n = {}, {}, {}, {}, {}
        s.set = {}
        for f, k in SETK.items(): s.set[f] = num(ex, st, s.p, o['p_' + f], k)
        st.assume([s.set['nt'] >= 1, s.set['k'] >= 5, s.set['vr'] > 0, s.set['verb'] >= 0, s.set['verb'] <= 1])
        s.code = string(ex, st, s.p, o.p_type, 'registration_type'); st.assume(z3.Or(s.code == 1, s.code == 2))
        for side in ('src', 'tgt'):
            has, sized, mp = conf[side]
            if has: c, n = cloud(ex, st, o, side + '_cloud')
            else: c, n = None, z3.IntVal(0)
            s.cl[side], s.n[side] = c, n; s.slot(st, 'p_' + side, c)
            t = s.tree[side] = Region(side + '_tree', size=80) if has else None; s.slot(st, 'p_%stree' % side, t)
            v = s.cov[side] = Region(side + '_covs', 1, 128, M4F(), length=n); m = n if sized else z3.IntVal(0)
            for d, q in ((0, z3.IntVal(0)), (8, m), (16, z3.Int(side + '_cap'))): st.mem[(s.r, o['p_%scov' % side] + d)] = ('ptr', Ptr(v, (q,)))
            g = s.map[side] = Region(side + '_voxelmap', size=400) if mp else None; s.slot(st, 'p_%smap' % side, g)
            if t: st.mem[('mark', 'tree', t)] = c
            if g: st.mem[('mark', 'map', g)] = (s.set['vr'], c, v)
    def slot(s, st, f, r): st.mem[(s.r, s.o[f])] = ('ptr', Ptr(r) if r is not None else NULL); st.mem[(s.r, s.o[f] + 8)] = ('ptr', NULL)
    def get(s, st, f):
        v = st.mem.get((s.r, s.o['p_' + f])); v = v[1] if v else None
        if isinstance(v, Ptr) and v.off == 0 and not v.key: return v.r
        return None if not isinstance(v, Ptr) else '?'
    def covs(s, st, side):
        b, e = [s.ex.load(st, Ptr(s.r, (), s.o['p_%scov' % side] + d), 'ptr') for d in (0, 8)]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is e.r and b.r.nkeys == 1 and b.off == 0 and e.off == 0): return None, z3.IntVal(-1)
        return b.r, iv(e.key[-1]) - iv(b.key[-1])
    def typecode(s, st): return st.mem[('ghost', 'code', 'registration_type')]
    def inv(s, st):
        """the object invariant"""
        ex = s.ex; out = []; S = {f: num(ex, st, s.p, s.o['p_' + f], k) for f, k in SETK.items()}
        out.append(('thread count positive', S['nt'] >= 1)); out.append(('at least five neighbours', S['k'] >= 5)); out.append(('voxel resolution positive', S['vr'] > 0)); c = s.typecode(st); out.append(('registration type GICP or VGICP', z3.Or(c == 1, c == 2)))
        for side in ('src', 'tgt'):
            cl, t, m = s.get(st, side), s.get(st, side + 'tree'), s.get(st, side + 'map'); v, n = s.covs(st, side); cn = st.mem.get(('mark', 'n', cl), z3.IntVal(0)) if cl else z3.IntVal(0)
            out.append(('%s: the tree is built over the current cloud' % side, z3.BoolVal((cl is None and t is None) or (cl is not None and cl != '?' and t is not None and st.mem.get(('mark', 'tree', t)) is cl))))
            out.append(('%s: covariances are absent or one per point' % side, z3.Or(n == 0, n == cn)))
            if m is not None:
                k = st.mem.get(('mark', 'map', m)); out.append(('%s: the voxel map reflects the current cloud and covariances' % side, z3.And(z3.BoolVal(k is not None and k[1] is cl and cl is not None and k[2] is v), n == cn)))
                if k is not None: out.append(('%s: the voxel map has the current resolution' % side, k[0] == S['vr']))
        return out
    def same(s, ex, st, but=(), sides=('src', 'tgt'), maps=True):
        """everything not listed is unchanged"""
        out = [('%s unchanged' % PF[f], num(ex, st, s.p, s.o['p_' + f], k) == s.set[f]) for f, k in SETK.items() if f not in but]
        if 'type' not in but: out.append(('registration_type_ unchanged', s.typecode(st) == s.code))
        for side in sides:
            v, n = s.covs(st, side)
            out += [('%s: cloud and tree unchanged' % side, z3.BoolVal(s.get(st, side) is s.cl[side] and s.get(st, side + 'tree') is s.tree[side])), ('%s: covariances unchanged' % side, z3.And(z3.BoolVal(v is s.cov[side]), n == (s.n[side] if s.conf[side][1] else 0)))]
            if maps: out.append(('%s: voxel map unchanged or dropped' % side, z3.BoolVal(s.get(st, side + 'map') in (None, s.map[side]))))
        return out

def cloud(ex, st, o, nm):
    r = Region(nm, size=128, const=True); n = z3.Int('n_' + nm); st.assume([n >= 1, n < 2 ** 31]); q = Region(nm + '_points', 1, 16, [(0, 'float'), (4, 'float'), (8, 'float'), (12, 'float')], length=n, const=True)
    for d, x in ((0, z3.IntVal(0)), (8, n), (16, n)): st.mem[(r, o.pc_pts + d)] = ('ptr', Ptr(q, (x,)))
    st.mem[('mark', 'n', r)] = n; return r, n
def string(ex, st, p, off, nm):
    d = Region(nm + '_chars', size=64); n, c = z3.Int('len_' + nm), z3.Int('code_' + nm); st.assume([n >= 0, n < 2 ** 31, c >= 0] + [z3.Implies(c == k, n == l) for k, l in LEN.items()])
    st.mem[(p.r, p.off + off)] = ('ptr', Ptr(d)); st.mem[(p.r, p.off + off + 8)] = ('i64', n); st.mem[('ghost', 'code', nm)] = c; st.mem[('mark', 'string', d)] = nm; return c
def literal(ex, ptr):
    """bytes of a string constant"""
    for nm, r in ex.globals.items():
        if isinstance(ptr, Ptr) and r is ptr.r and ptr.off == 0:
            m = re.search(r'^%s = .*? c"((?:[^"\\]|\\[0-9A-F]{2})*)"' % re.escape(nm), ex.unit.text, re.M)
            if m: return re.sub(r'\\([0-9A-F]{2})', lambda q: chr(int(q.group(1), 16)), m.group(1)).rstrip('\0')
    return None

def pcl_contracts(o, box):
    R = lambda: box['R']
    def base(ex, st, ins, a):
        dem = dem_of(ex, ins); g = R(); m = re.search(r'::(setInputSource|setInputTarget|setInputCloud)\(', dem)
        if m and is_at(a[0], g.r):
            side = 'tgt' if 'Target' in m.group(1) else 'src'; g.slot(st, 'p_' + side, ex.load(st, a[1], 'ptr').r); return UNDEF
        if re.search(r'::Registration\(\)', dem): g.slot(st, 'p_src', None); g.slot(st, 'p_tgt', None); return UNDEF
        raise Unsupported('base class call ' + dem[:100])
    def mk(ex, st, ins, a):
        dem = dem_of(ex, ins); t = split_targs(dem[dem.index('make_shared'):])[0]; g = R()
        if 'KdTree<' in t:
            c = ex.load(st, a[1], 'ptr'); r = Region('new_tree', size=80, local=True)
            if len(a) > 2: ex.oblige(st, iv(ex.asint(st, ex.load(st, ex.padd_const(a[2], o.bl_nt), 'i32'))) == num(ex, st, g.p, o.p_nt, 'i32'), 'the tree is built with the configured thread count', 'pre')
            st.mem[('mark', 'tree', r)] = c.r if isinstance(c, Ptr) else None; sp(ex, st, a[0], r); return UNDEF
        if 'IncrementalVoxelMap<' in t:
            r = Region('new_voxelmap', size=400, local=True); st.mem[('mark', 'map', r)] = (num(ex, st, a[1], 0, 'double'), None, None); sp(ex, st, a[0], r); return UNDEF
        raise Unsupported('make_shared<%s>' % t[:80])
    def proxy(ex, st, p):
        c, v = ex.load(st, ex.padd_const(p, o.px_cloud), 'ptr'), ex.load(st, ex.padd_const(p, o.px_covs), 'ptr'); g = R()
        if not (isinstance(c, Ptr) and isinstance(v, Ptr) and v.r is g.r): raise Unsupported('point cloud proxy')
        side = [s for s in ('src', 'tgt') if v.off == o['p_%scov' % s]]
        if not side: raise Unsupported('proxy covariances')
        ex.oblige(st, z3.BoolVal(c.r is g.get(st, side[0])), 'a cloud is paired with its own covariances', 'pre'); return side[0], c.r
    def eco(ex, st, ins, a):
        g = R(); side, c = proxy(ex, st, a[0]); dem = dem_of(ex, ins)
        if 'omp' not in dem.split('<')[0]: raise Unsupported('serial estimation')
        ex.oblige(st, z3.BoolVal(isinstance(a[1], Ptr) and a[1].r is g.get(st, side + 'tree')), 'neighbours come from the tree of that cloud', 'pre')
        ex.oblige(st, iv(ex.asint(st, a[2])) == num(ex, st, g.p, o.p_k, 'i32'), 'the configured neighbour count is used', 'pre'); ex.oblige(st, iv(ex.asint(st, a[3])) == num(ex, st, g.p, o.p_nt, 'i32'), 'the configured thread count is used', 'pre')
        v, n = g.covs(st, side); cn = st.mem[('mark', 'n', c)]; ex.oblige(st, n != cn, 'covariances in force are not estimated again', 'pre')
        q = Region('estimated_covs', 1, 128, M4F(), length=cn, local=True)
        for d, x in ((0, z3.IntVal(0)), (8, cn), (16, cn)): ex.store(st, Ptr(g.r, (), o['p_%scov' % side] + d), Ptr(q, (x,)), 'ptr')
        st.mem[('mark', 'estimated', side)] = q; return UNDEF
    def insert(ex, st, ins, a):
        g = R(); side, c = proxy(ex, st, a[1]); v, n = g.covs(st, side); m = st.mem.get(('mark', 'map', a[0].r))
        ex.oblige(st, z3.And(z3.BoolVal(m is not None and m[1] is None), n == st.mem[('mark', 'n', c)]), 'the cloud with its covariances is inserted once into a new voxel map', 'pre')
        ex.oblige(st, z3.And([num(ex, st, a[2], 8 * q, 'double') == (1 if q % 5 == 0 else 0) for q in range(16) if q % 4 != 3]), 'without a transform', 'pre')
        st.mem[('mark', 'map', a[0].r)] = (m[0] if m else rv(0), c, v); return UNDEF
    def vcov(ex, st, ins, a):
        g = R(); dem = dem_of(ex, ins); m = re.search(r'::(operator=|clear|swap)\(', dem)
        if not m: raise Unsupported('vector call ' + dem[-60:])
        cells = lambda p: [(p.r, p.off + d) for d in (0, 8, 16)]
        get = lambda p: [('ptr', ex.load(st, ex.padd_const(p, d), 'ptr')) for d in (0, 8, 16)]
        if m.group(1) == 'clear':
            q = get(a[0]); ex.store(st, ex.padd_const(a[0], 8), q[0][1], 'ptr')
        elif m.group(1) == 'swap':
            x, y = get(a[0]), get(a[1])
            for k in range(3): ex.store(st, ex.padd_const(a[0], 8 * k), y[k][1], 'ptr'); ex.store(st, ex.padd_const(a[1], 8 * k), x[k][1], 'ptr')
        elif '&&' in dem: raise Unsupported('move assignment of covariances')
        else:
            y = get(a[1]); q = Region('copied_covs', 1, 128, M4F(), local=True); n = iv(y[1][1].key[-1]) - iv(y[0][1].key[-1]); st.mem[('mark', 'copy', q)] = y[0][1].r
            for d, x in ((0, z3.IntVal(0)), (8, n), (16, n)): ex.store(st, ex.padd_const(a[0], d), Ptr(q, (x,)), 'ptr')
            return a[0]
        return UNDEF
    def bcmp(ex, st, ins, a):
        p, q = a[0], a[1]; lit = literal(ex, q); d = p
        if lit is None: lit, d = literal(ex, p), q
        nm = st.mem.get(('mark', 'string', d.r)) if isinstance(d, Ptr) else None
        if lit not in CODE or nm is None: raise Unsupported('string comparison')
        n = iv(ex.asint(st, a[2])); ex.oblige(st, n == len(lit), 'whole strings are compared', 'pre'); r = fint('cmp'); st.assume((r == 0) == (st.mem[('ghost', 'code', nm)] == CODE[lit])); return r
    def strop(ex, st, ins, a):
        dem = dem_of(ex, ins); nm = [st.mem.get(('mark', 'string', x.r)) for p in a[:1] for x in [st.mem.get((p.r, p.off), (0, None))[1]] if isinstance(x, Ptr)]
        if re.search(r'::compare\(', dem):
            lit = literal(ex, a[1])
            if lit not in CODE or not nm: raise Unsupported('string comparison')
            r = fint('cmp'); st.assume((r == 0) == (st.mem[('ghost', 'code', nm[0])] == CODE[lit])); return r
        if re.search(r'::(operator=|_M_assign|assign)\(', dem) and nm:
            lit = literal(ex, a[1]); src = st.mem.get((a[1].r, a[1].off), (0, None))[1]; sn = st.mem.get(('mark', 'string', src.r)) if isinstance(src, Ptr) else None
            if lit is None and sn is None: raise Unsupported('string assignment')
            st.mem[('ghost', 'code', nm[0])] = z3.IntVal(CODE.get(lit, 0)) if lit is not None else st.mem[('ghost', 'code', sn)]; return a[0]
        raise Unsupported('string call ' + dem[-60:])
    def args(ex, st, k, a):
        g = R(); _, this, t, s, tr, T = a[:6]; ex.oblige(st, z3.BoolVal(k == 'G'), 'GICP factors are used', 'pre'); gicp = g.typecode(st) == 1
        side, c = proxy(ex, st, s); v, n = g.covs(st, 'src'); ex.oblige(st, z3.And(z3.BoolVal(side == 'src'), n == st.mem[('mark', 'n', c)]), 'the source cloud with its covariances is aligned', 'pre')
        if isinstance(t, Ptr) and t.r is g.get(st, 'tgtmap'):
            m = st.mem.get(('mark', 'map', t.r)); v, n = g.covs(st, 'tgt')
            ex.oblige(st, z3.Not(gicp), 'the voxel map is used exactly for VGICP', 'pre'); ex.oblige(st, z3.BoolVal(isinstance(tr, Ptr) and tr.r is t.r), 'the target voxel map is searched', 'pre')
            ex.oblige(st, z3.And(z3.BoolVal(m is not None and m[1] is g.cl['tgt'] and m[2] is v), m[0] == num(ex, st, g.p, o.p_vr, 'double')), 'the voxel map holds the current target with the current covariances and resolution', 'pre')
        else:
            side, c = proxy(ex, st, t); v, n = g.covs(st, 'tgt'); ex.oblige(st, gicp, 'the voxel map is used exactly for VGICP', 'pre'); ex.oblige(st, z3.And(z3.BoolVal(side == 'tgt' and isinstance(tr, Ptr) and st.mem.get(('mark', 'tree', tr.r)) is c), n == st.mem[('mark', 'n', c)]), 'the target cloud with its covariances and tree is aligned', 'pre')
        for q in range(16):
            if q % 4 != 3: ex.oblige(st, num(ex, st, T, 8 * q, 'double') == num(ex, st, Ptr(box['guess']), 4 * q, 'float') if False else rv(ex.asreal(ex.load(st, ex.padd_const(T, 8 * q), 'double'))) == rv(ex.asreal(ex.load(st, Ptr(box['guess'], (), 4 * q), 'float'))), 'the alignment starts from the given transform [%d]' % q, 'pre')
        G = lambda f, kd: num(ex, st, g.p, o['p_' + f], kd)
        regconf(ex, st, o, this, k, dict(nt=G('nt', 'i32'), d=G('dist', 'double'), re=G('re', 'double'), te=G('te', 'double'), it=G('maxit', 'i32')))
    def trc(ex, st, ins, a):
        g = R(); ok = is_at(a[0], g.cl['src']) and is_at(a[1], box['output'])
        ex.oblige(st, z3.BoolVal(ok), 'the source cloud is transformed into the output', 'pre')
        for q in range(16): ex.oblige(st, rv(ex.asreal(ex.load(st, ex.padd_const(a[2], 4 * q), 'float'))) == rv(ex.asreal(ex.load(st, Ptr(g.r, (), o.p_fin + 4 * q), 'float'))), 'by the final transformation [%d]' % q, 'pre')
        st.mem[('mark', 'output')] = True; return UNDEF
    return [(BASE, base), (MK, mk), (ECO, eco), (INS, insert), (VCOV + r'(operator=|clear|swap)', vcov), (r'^(bcmp|memcmp)$', bcmp), (ALIGN, align_contract(o, box, args)), (TRC, trc), (r'pcl::console', nop), (REL, nop), (STR + r'(compare|operator=|_M_assign|assign)', strop), (OUT, nop)]

CONFS = [(False, False, False), (True, False, False), (True, True, False), (True, True, True)]
def prove_pcl(ctx, u, o, fn, label, confs, argf, postf):
    for cs in confs:
        conf = dict(src=cs[0], tgt=cs[1]); box = {}
        def setup(ex, st, conf=conf, box=box):
            box.clear(); g = box['R'] = Reg(ex, st, o, conf); return [g.p] + argf(ex, st, box)
        def post(ex, st0, st, ret, a, box=box): return postf(ex, st, box, ret) + [('invariant: ' + t, f) for t, f in box['R'].inv(st)]
        nm = lambda c: '-' if not c[0] else 'cloud' + ('+covs' if c[1] else '') + ('+map' if c[2] else '')
        ctx.verify(ctx.exec(u, contracts=pcl_contracts(o, box)), u.one(r'^vp_%s\(' % fn), 'RegistrationPCL::%s [source %s, target %s]' % (label, nm(cs[0]), nm(cs[1])), setup, post)

def prove_pcl_all(ctx):
    u = ctx.unit('c18p', psrc(), keep=PKEEP, extra_flags=OMPFLAGS + ['-I/usr/include/pcl-1.14', '-frtti']); o = Offs(u)
    ALL = [(a, b) for a in CONFS for b in CONFS]; other = dict(src='tgt', tgt='src')
    def setter(fn, label, f, kind, ok=lambda x: z3.BoolVal(True), maps=True):
        x = z3.Real('value') if kind == 'double' else z3.Int('value')
        def argf(ex, st, box):
            if kind != 'double': st.assume([x >= (-2 ** 31 if kind == 'i32' else 0), x < (2 ** 31 if kind == 'i32' else 2)])
            return [x]
        ctx.guard(fn, lambda: prove_pcl(ctx, u, o, fn, label, ALL, argf, lambda ex, st, box, ret: [('the value is stored', z3.Implies(ok(x), num(ex, st, box['R'].p, o['p_' + f], kind) == x))] + box['R'].same(ex, st, (f,), maps=maps)))
    setter('nt', 'setNumThreads', 'nt', 'i32', lambda x: x >= 1); setter('rnd', 'setCorrespondenceRandomness', 'k', 'i32', lambda x: x >= 5); setter('nn', 'setNumNeighborsForCovariance', 'k', 'i32', lambda x: x >= 5)
    setter('vr', 'setVoxelResolution', 'vr', 'double', lambda x: x > 0); setter('re', 'setRotationEpsilon', 're', 'double'); setter('verb', 'setVerbosity', 'verb', 'i8')
    for side, S in (('src', 'Source'), ('tgt', 'Target')):
        oth = other[side]
        for how in ('new', 'same'):
            def argf(ex, st, box, how=how, side=side):
                g = box['R']; c = cloud(ex, st, o, 'new_cloud')[0] if how == 'new' or g.cl[side] is None else g.cl[side]; box['c'] = c; r = Region('cloud_ptr', size=16, const=True); st.mem[(r, 0)] = ('ptr', Ptr(c)); st.mem[(r, 8)] = ('ptr', NULL); return [Ptr(r)]
            def postf(ex, st, box, ret, side=side, oth=oth):
                g = box['R']; v, n = g.covs(st, side)
                out = [('the given cloud is set', z3.BoolVal(g.get(st, side) is box['c']))] + g.same(ex, st, (), (oth,))
                return out + (g.same(ex, st) if box['c'] is g.cl[side] else [('covariances of an earlier cloud are dropped', n == 0)])
            ctx.guard('set%s%s' % (side, how), lambda: prove_pcl(ctx, u, o, 'set' + side, 'setInput%s (%s cloud)' % (S, how), ALL if how == 'new' else [c for c in ALL if c[0 if side == 'src' else 1][0]], argf, postf))
        def argc(ex, st, box, side=side):
            r = Region('given', size=24, const=True); q = Region('given_covs', 1, 128, M4F(), const=True); m = box['m'] = z3.Int('num_given'); st.assume([0 <= m, m < 2 ** 31]); box['given'] = q
            for d, x in ((0, z3.IntVal(0)), (8, m), (16, m)): st.mem[(r, d)] = ('ptr', Ptr(q, (x,)))
            return [Ptr(r)]
        def postc(ex, st, box, ret, side=side, oth=oth):
            g = box['R']; v, n = g.covs(st, side); out = g.same(ex, st, (), (oth,)) + [('cloud and tree unchanged', z3.BoolVal(g.get(st, side) is g.cl[side] and g.get(st, side + 'tree') is g.tree[side]))]
            if v is g.cov[side]: return out + g.same(ex, st, (), (side,)) + [('one covariance per point is accepted', z3.BoolVal(True) if not g.conf[side][0] else box['m'] != g.n[side])]
            return out + [('the given covariances are stored', z3.And(z3.BoolVal(st.mem.get(('mark', 'copy', v)) is box['given']), n == box['m']))]
        ctx.guard('cov' + side, lambda: prove_pcl(ctx, u, o, 'cov' + side, 'set%sCovariances' % S, ALL, argc, postc))
        ctx.guard('get' + side, lambda: prove_pcl(ctx, u, o, 'get' + side, 'get%sCovariances' % S, [(CONFS[1], CONFS[2]), (CONFS[2], CONFS[1])], lambda ex, st, box: [], lambda ex, st, box, ret: [('the covariances in force are returned', z3.BoolVal(is_at(ret, box['R'].r, o['p_%scov' % side])))] + box['R'].same(ex, st)))
        ctx.guard('clr' + side, lambda: prove_pcl(ctx, u, o, 'clr' + side, 'clear' + S, ALL, lambda ex, st, box: [], lambda ex, st, box, ret: [('the cloud is cleared', z3.BoolVal(box['R'].get(st, side) is None)), ('its covariances are cleared', box['R'].covs(st, side)[1] == 0)] + box['R'].same(ex, st, (), (oth,))))
    def swapped(ex, st, box, ret):
        g = box['R']; out = g.same(ex, st, (), ())
        for side in ('src', 'tgt'):
            t = other[side]; v, n = g.covs(st, side); out += [('%s takes the cloud and tree of the other' % side, z3.BoolVal(g.get(st, side) is g.cl[t] and g.get(st, side + 'tree') is g.tree[t])), ('%s takes the covariances of the other' % side, z3.And(z3.BoolVal(v is g.cov[t]), n == (g.n[t] if g.conf[t][1] else 0)))]
        return out
    ctx.guard('swap', lambda: prove_pcl(ctx, u, o, 'swap', 'swapSourceAndTarget', ALL, lambda ex, st, box: [], swapped))
    for fn, label, off in (('getH', 'getFinalHessian', o.p_res + o.rr_H), ('getres', 'getRegistrationResult', o.p_res)):
        ctx.guard(fn, lambda: prove_pcl(ctx, u, o, fn, label, [(CONFS[1], CONFS[1])], lambda ex, st, box: [], lambda ex, st, box, ret: [('the stored result is returned', z3.BoolVal(is_at(ret, box['R'].r, off)))]))
    def argt(ex, st, box): r = Region('given_type', size=32, const=True); box['t'] = string(ex, st, Ptr(r), 0, 'given_type'); return [Ptr(r)]
    ctx.guard('type', lambda: prove_pcl(ctx, u, o, 'type', 'setRegistrationType', ALL, argt, lambda ex, st, box, ret: [('a valid type is stored, an invalid one ignored', box['R'].typecode(st) == z3.If(z3.Or(box['t'] == 1, box['t'] == 2), box['t'], box['R'].code))] + box['R'].same(ex, st, ('type',))))
    def argx(ex, st, box):
        r = box['output'] = Region('output', size=128); q = Region('output_points', 1, 16, [(0, 'float')]); st.mem[(r, o.pc_pts)] = ('ptr', Ptr(q, (z3.IntVal(0),))); gs = box['guess'] = Region('guess', size=64, const=True); return [Ptr(r), Ptr(gs)]
    def postx(ex, st, box, ret):
        g = box['R']; out = g.same(ex, st, (), ()); vals = st.mem.get(('mark', 'result'))
        if vals is None: return [('an alignment is run', z3.BoolVal(False))]
        out += same_result(ex, st, o, Ptr(g.r, (), o.p_res)); V = {off: v for off, k, v in vals}
        out.append(('the convergence flag is passed on', num(ex, st, g.p, o.p_conv, 'i8') == V[o.rr_conv]))
        rf = ex.func('round_to_float', RealS, RealS)
        out += [('the final transformation is the result [%d]' % q, rv(ex.asreal(ex.load(st, Ptr(g.r, (), o.p_fin + 4 * q), 'float'))) == rf(rv(V[o.rr_T + 8 * q]))) for q in range(16)]
        out.append(('the output cloud is written', z3.BoolVal(('mark', 'output') in st.mem)))
        for side in ('src', 'tgt'):
            v, n = g.covs(st, side); q = st.mem.get(('mark', 'estimated', side)); out += [('%s: cloud and tree unchanged' % side, z3.BoolVal(g.get(st, side) is g.cl[side] and g.get(st, side + 'tree') is g.tree[side])), ('%s: covariances in force are kept, missing ones are the estimated ones' % side, z3.And(z3.BoolVal(v is (g.cov[side] if g.conf[side][1] else q) and (q is None or not g.conf[side][1])), n == g.n[side]))]
        return out
    ctx.guard('comp', lambda: prove_pcl(ctx, u, o, 'comp', 'computeTransformation', [(a, b) for a in CONFS[1:] for b in CONFS[1:]], argx, postx))

def prove(ctx):
    ctx.assume_note(REAL_NOTE)
    u = ctx.unit('c18', src(ctx), keep=KEEP, extra_flags=OMPFLAGS); o = Offs(u)
    for vm in (False, True): ctx.guard('align%d' % vm, lambda vm=vm: prove_align(ctx, u, o, vm))
    ctx.guard('pre', lambda: prove_pre(ctx, u, o))
    ctx.guard('vmap', lambda: prove_vmap(ctx, u, o))
    ctx.guard('pcl', lambda: prove_pcl_all(ctx))
    for T, D in TYPES:
        ctx.guard('pre%s%d' % (T, D), lambda T=T, D=D: prove_eigen_pre(ctx, u, o, T, D)); ctx.guard('align%s%d' % (T, D), lambda T=T, D=D: prove_eigen_align(ctx, u, o, T, D))

LIBS = ['-fopenmp', '-I/usr/include/pcl-1.14', '-Wl,--wrap=GOMP_parallel', '-DVP_HELPER="%s/src/small_gicp/registration/registration_helper.cpp"' % REPO, '-lpcl_common', '-lpcl_kdtree', '-lpcl_search', '-lpcl_features', '-lpcl_registration', '-llz4', '-ltbb']
def harness(ctx, deep): return run_harness(ctx, 'h_c18', deep, flags=LIBS)
