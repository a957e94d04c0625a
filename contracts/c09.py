"""operations on the spectral state (geometry, forces, velocity)"""
from vc.contract import *

V = 'vmecpp/vmec/'
FC = V + 'fourier_coefficients/fourier_coefficients.cc'
FF = V + 'fourier_forces/fourier_forces.cc'
FG = V + 'fourier_geometry/fourier_geometry.cc'
CONTRACTS = []
SOURCES = [FC, FF, FG, V + 'radial_partitioning/radial_partitioning.cc', 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/util/util.cc',
           'vmecpp/common/fourier_basis/fourier_basis.cc', V + 'boundaries/boundaries.cc', V + 'boundaries/guess_magnetic_axis.cc', V + 'radial_profiles/radial_profiles.cc',
           'vmecpp/common/vmec_indata/vmec_indata.cc', 'vmecpp/common/vmec_indata/boundary_from_json.cc', 'util/json_io/json_io.cc', 'util/file_io/file_io.cc',
           'util/hdf5_io/hdf5_io.cc', V + 'profile_parameterization_data/profile_parameterization_data.cc', V + 'vmec_constants/vmec_constants.cc',
           V + 'handover_storage/handover_storage.cc', 'vmecpp/common/flow_control/flow_control.cc']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <mutex>
#include <thread>
#define private public
#define protected public
#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include "vmecpp/vmec/fourier_geometry/fourier_geometry.h"
#include "vmecpp/vmec/boundaries/boundaries.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#undef private
#undef protected
static void Put(vd::Case& C, const char* n, Eigen::VectorXd& d) { if (d.size()) { Eigen::VectorXd t = C.e(n); for (int i = 0; i < t.size() && i < d.size(); ++i) d[i] = t[i]; } }
static void Get(vd::Case& C, const char* n, const Eigen::VectorXd& d) { if (d.size()) C.set(n, d); }
'''
CHUNK = 2
BASE = ['rcc', 'zsc', 'lsc']
T3 = ['rss', 'zcs', 'lcs']
AS = ['rsc', 'zcc', 'lcc']
A3 = ['rcs', 'zss', 'lss']
ALL = BASE + T3 + AS + A3
PARITY = {'rcc': 0}


def on(E, v, n):
    """is this block of coefficients in use?"""
    if n in BASE:
        return True
    if n in T3:
        return v.lthreed
    if n in AS:
        return v.lasym
    return E.and_(v.lthreed, v.lasym)


def state(K, names=ALL, suffix=''):
    K.ints.update(nsMin=(0, 3), nsMax=(1, 6), ns=(2, 8), nsMinF1=(0, 3), nsMaxF1=(1, 8), J=(1, 8), mpol=(2, 4), ntor=(0, 3))
    K.bools = ['lthreed', 'lasym']
    K.pre = lambda E, v: [v.nsMin >= 0, v.nsMin < v.nsMax, v.nsMax <= v.nsMaxF1, v.nsMaxF1 <= v.ns, v.nsMinF1 >= 0, v.nsMinF1 <= v.nsMin, v.mpol >= 2, v.ntor >= 0,
                          v.ns >= 2, E.or_(E.and_(E.eq(v.nsMaxF1, v.ns), E.eq(v.nsMin + v.J, v.ns)), E.and_(v.nsMaxF1 < v.ns, E.eq(v.nsMin + v.J, v.nsMax)))]

    def gen(r, v):
        v.ns = r.randint(2, 8)
        v.nsMin = r.randint(0, v.ns - 1) if r.random() < .6 else 0
        v.nsMax = r.randint(v.nsMin + 1, v.ns)
        v.nsMaxF1 = r.choice([v.nsMax, min(v.ns, v.nsMax + 1)])
        v.nsMinF1 = max(0, v.nsMin - r.randint(0, 1))
        v.J = (v.ns if v.nsMaxF1 == v.ns else v.nsMax) - v.nsMin
    K.gen = gen
    for n in names:
        K.arrays[n + suffix] = lambda v: (v.J, v.mpol, v.ntor + 1)
    return K


def sizes(K):
    v = K.v
    return Obj('s', 'Sizes', fields=dict(lthreed=v.lthreed, lasym=v.lasym, mpol=v.mpol, ntor=v.ntor))


def radial(K):
    v = K.v
    return Obj('r', 'RadialPartitioning', fields=dict(nsMinF1=v.nsMinF1, nsMaxF1=v.nsMaxF1))


def coeffs(K, cls, spans='', suffix='', names=ALL):
    v = K.v
    f = dict(s_=sizes(K), r_=radial(K), nsMin_=v.nsMin, nsMax_=v.nsMax, ns=v.ns)
    for n in names:
        f[n] = K.ref(n + suffix)
        if spans:
            f[(spans % (n[0], n[1:]))] = K.ref(n + suffix)
    return Obj('x' + suffix, cls, fields=f)


MK = '''vmecpp::Sizes s(C.b("lasym"), 1, C.i("mpol"), C.i("ntor"), 20, 8); s.lthreed = C.b("lthreed");
vmecpp::RadialPartitioning r; r.nsMinF1 = C.i("nsMinF1"); r.nsMaxF1 = C.i("nsMaxF1"); r.nsMinF = C.i("nsMin"); r.nsMaxF = C.i("nsMax");
'''


def mk(cls, name='x', suffix=''):
    """an object of the class over rows nsMin..nsMax holding the case arrays"""
    if cls == 'FourierCoeffs':
        t = 'vmecpp::FourierCoeffs %s(&s, &r, C.i("nsMin"), C.i("nsMax"), C.i("ns"));\n' % name
    elif cls == 'FourierGeometry':
        t = 'r.nsMinF1 = C.i("nsMin"); r.nsMaxF1 = C.i("nsMax"); auto kEdge = C.i("nsMaxF1") == C.i("ns") ? C.i("ns") : C.i("nsMax"); vmecpp::FourierGeometry %s(&s, &r, C.i("ns")); r.nsMinF1 = C.i("nsMinF1"); r.nsMaxF1 = C.i("nsMaxF1"); (void)kEdge;\n' % name
        t += ''.join('%s.%s.resize(%s.%s.size() ? C.e("%s%s").size() : 0);\n' % (name, n, name, n, n, suffix) for n in ALL) + '%s.BindSpans();\n' % name
    else:
        t = 'vmecpp::%s %s(&s, &r, C.i("ns"));\n' % (cls, name)
    return t + ''.join('Put(C, "%s%s", %s.%s);' % (n, suffix, name, n) for n in ALL) + '\n'


def back(name='x', suffix=''):
    return ''.join('Get(C, "%s%s", %s.%s);' % (n, suffix, name, n) for n in ALL) + '\n'


# ---------------------------------------------------------------- decomposition
K = state(Contract('decompose_into', FC, 'decomposeInto', 'FourierCoeffs'))
K = state(K, suffix='_o')
K.arrays['scalxc'] = lambda v: (v.nsMaxF1 - v.nsMinF1, 2)
K.args = lambda K, M: ([coeffs(K, 'FourierCoeffs', suffix='_o'), K.ref('scalxc')], coeffs(K, 'FourierCoeffs'))


def dec(n):
    def f(E, v, o, j, m, k):
        return lazy_branch(E, on(E, v, n), lambda: o(n, j, m, k) * o('scalxc', j + v.nsMin - v.nsMinF1, E.imod(m, 2)), lambda: o(n + '_o', j, m, k))
    return f


for n in ALL:
    K.post[n + '_o'] = dec(n)
K.glue = MK + mk('FourierCoeffs') + mk('FourierCoeffs', 'y', '_o') + 'x.decomposeInto(y, C.e("scalxc"));\n' + back('y', '_o') + back()
CONTRACTS.append(K)

# ---------------------------------------------------------------- m = 1 constraint
K = state(Contract('m1_constraint', FC, 'm1Constraint', 'FourierCoeffs'))
K.ints['jMax'] = (0, 8)
K.reals = {'fac': (0.2, 2)}
K.bools = K.bools + ['hasJ']
K.args = lambda K, M: ([K.v.fac, StatusVal(K.v.hasJ, K.v.jMax)], coeffs(K, 'FourierCoeffs'))


def m1(a, b, sgn, flag):
    def f(E, v, o, j, m, n):
        me = a if sgn > 0 else b
        hit = E.and_(v[flag], E.eq(m, 1), j + v.nsMin < v.nsMax, E.or_(E.not_(v.hasJ), j + v.nsMin < v.jMax))
        return E.ite(hit, (o(a, j, m, n) + sgn * o(b, j, m, n)) * v.fac, o(me, j, m, n))
    return f


K.post = {'rss': m1('rss', 'zcs', 1, 'lthreed'), 'zcs': m1('rss', 'zcs', -1, 'lthreed'), 'rsc': m1('rsc', 'zcc', 1, 'lasym'), 'zcc': m1('rsc', 'zcc', -1, 'lasym')}


def lem(K):
    """constraining with 1/2 and releasing with 1 (or twice 1/sqrt 2) is the identity"""
    a, b, s = fresh('a', 'r'), fresh('b', 'r'), fresh('s', 'r')
    p, q = (a + b) * P(Fraction(1, 2)), (a - b) * P(Fraction(1, 2))
    yield eq_lemma('R+ + R- gives R back', [], p + q, a)
    yield eq_lemma('R+ - R- gives Z back', [], p - q, b)


K.lemmas = lem
K.glue = MK + mk('FourierCoeffs') + 'if (C.b("hasJ")) x.m1Constraint(C.r("fac"), C.i("jMax")); else x.m1Constraint(C.r("fac"));\n' + back()
CONTRACTS.append(K)

# ---------------------------------------------------------------- masking, zeroing
K = state(Contract('mask_geometry', FC, 'maskGeometryAbove', 'FourierCoeffs'))
K.ints.update(mg=(0, 5), ng=(-1, 4))
K.args = lambda K, M: ([K.v.mg, K.v.ng], coeffs(K, 'FourierCoeffs'))
for n in ALL:
    if n[0] != 'l':
        K.post[n] = (lambda n: lambda E, v, o, j, m, k: E.ite(E.and_(on(E, v, n), E.or_(m >= v.mg, k > v.ng)), 0, o(n, j, m, k)))(n)
K.glue = MK + mk('FourierCoeffs') + 'x.maskGeometryAbove(C.i("mg"), C.i("ng"));\n' + back()
CONTRACTS.append(K)

K = state(Contract('set_zero', FC, 'setZero', 'FourierCoeffs'))
K.args = lambda K, M: ([], coeffs(K, 'FourierCoeffs'))
for n in ALL:
    K.post[n] = (lambda n: lambda E, v, o, j, m, k: E.ite(on(E, v, n), 0, o(n, j, m, k)))(n)
K.glue = MK + mk('FourierCoeffs') + 'x.setZero();\n' + back()
CONTRACTS.append(K)

K = state(Contract('zero_z_force_m1', FF, 'zeroZForceForM1', 'FourierForces'))
K.args = lambda K, M: ([], coeffs(K, 'FourierForces', 'f%s%s'))
for n, fl in (('zcs', 'lthreed'), ('zcc', 'lasym')):
    K.post[n] = (lambda n, fl: lambda E, v, o, j, m, k: E.ite(E.and_(v[fl], E.eq(m, 1), j + v.nsMin < v.nsMax), 0, o(n, j, m, k)))(n, fl)
K.glue = MK + mk('FourierForces') + 'x.zeroZForceForM1();\n' + back()
CONTRACTS.append(K)

# ---------------------------------------------------------------- norms and residuals
K = state(Contract('rz_norm', FC, 'rzNorm', 'FourierCoeffs'))
K.bools = K.bools + ['inc']
K.ints.update(lo=(0, 6), hi=(0, 8))
pre0, gen0 = K.pre, K.gen
K.pre = lambda E, v: pre0(E, v) + [v.lo >= v.nsMin, v.hi <= v.nsMin + v.J]


def gen(r, v):
    gen0(r, v)
    v.lo = r.randint(v.nsMin, v.nsMin + v.J)
    v.hi = r.randint(v.nsMin, v.nsMin + v.J)


K.gen = gen
K.args = lambda K, M: ([K.v.inc, K.v.lo, K.v.hi], coeffs(K, 'FourierCoeffs'))


def sq(E, v, o, names, lo, hi, skip=None):
    """sum of squares over rows lo..hi-1 (row numbers relative to nsMin)"""
    def cell(j, m, n):
        t = 0
        for a in names:
            c = on(E, v, a)
            if skip and a in ('rcc', 'zcc'):
                c = E.and_(c, E.or_(skip, m > 0, n > 0))
            t = t + E.ite(c, o(a, j, m, n) * o(a, j, m, n), 0)
        return t
    return E.sum(lo, hi, lambda j: E.sum(0, v.mpol, lambda m: E.sum(0, v.ntor + 1, lambda n: cell(j, m, n))))


def rzn(E, v, o):
    def cell(j, m, n):
        t = 0
        for a in ALL:
            if a[0] == 'l':
                continue
            c = on(E, v, a)
            if a in ('rcc', 'zcc'):
                c = E.and_(c, E.or_(v.inc, m > 0, n > 0))
            t = t + E.ite(c, o(a, j, m, n) * o(a, j, m, n), 0)
        return t
    return E.sum(v.lo - v.nsMin, v.hi - v.nsMin, lambda j: E.sum(0, v.mpol, lambda m: E.sum(0, v.ntor + 1, lambda n: cell(j, m, n))))


K.ret = rzn
K.glue = MK + mk('FourierCoeffs') + 'C.out("ret", x.rzNorm(C.b("inc"), C.i("lo"), C.i("hi")));\n'
CONTRACTS.append(K)

K = state(Contract('residuals', FF, 'residuals', 'FourierForces'))
K.bools = K.bools + ['edge']
K.arrays['fRes'] = lambda v: (P(3) if not isinstance(v.ns, int) else 3,)
K.args = lambda K, M: ([K.ref('fRes'), K.v.edge], coeffs(K, 'FourierForces', 'f%s%s'))


def resid(E, v, o, i):
    jrz = lazy_branch(E, E.and_(v.edge, E.eq(v.nsMaxF1, v.ns)), lambda: v.ns, lambda: E.min(v.nsMax, v.ns - 1)) - v.nsMin

    def comp(c, hi):
        names = [a for a in ALL if a[0] == c]

        def cell(j, m, n):
            t = 0
            for a in names:
                t = t + E.ite(on(E, v, a), o(a, j, m, n) * o(a, j, m, n), 0)
            return t
        return E.sum(0, hi, lambda j: E.sum(0, v.mpol, lambda m: E.sum(0, v.ntor + 1, lambda n: cell(j, m, n))))
    return lazy_branch(E, E.eq(i, 0), lambda: comp('r', jrz), lambda: lazy_branch(E, E.eq(i, 1), lambda: comp('z', jrz), lambda: comp('l', lazy_branch(E, E.eq(v.nsMaxF1, v.ns), lambda: v.ns, lambda: v.nsMax) - v.nsMin)))


K.post['fRes'] = resid
K.glue = MK + mk('FourierForces') + 'Eigen::Vector3d f; x.residuals(f, C.b("edge")); C.set("fRes", f);\n' + back()
CONTRACTS.append(K)

# ---------------------------------------------------------------- geometry
K = state(Contract('extrapolate_axis', FG, 'extrapolateTowardsAxis', 'FourierGeometry'))
pre1 = K.pre
K.pre = lambda E, v: pre1(E, v) + [E.or_(v.nsMin > 0, v.J >= 2)]
K.args = lambda K, M: ([], coeffs(K, 'FourierGeometry', '%smn%s'))


def extra(a):
    m0 = a in ('lcs', 'lcc')

    def f(E, v, o, j, m, n):
        hit = E.and_(on(E, v, a), E.eq(v.nsMin, 0), E.eq(j, 0), E.or_(E.eq(m, 1), E.and_(m0, E.eq(m, 0))))
        return lazy_branch(E, hit, lambda: o(a, 1, m, n), lambda: o(a, j, m, n))
    return f


for n in ALL:
    K.post[n] = extra(n)
K.glue = MK + mk('FourierGeometry') + 'x.extrapolateTowardsAxis();\n' + back()
CONTRACTS.append(K)

K = state(Contract('interp_boundary_axis', FG, 'interpFromBoundaryAndAxis', 'FourierGeometry'))
K.arrays.update(mscale=lambda v: (v.mpol,), nscale=lambda v: (v.ntor + 1,), sqrtSF=lambda v: (v.nsMaxF1 - v.nsMinF1,))
K.rng.update(mscale=(1, 2), nscale=(1, 2), sqrtSF=(0.1, 1))
BD = {'rcc': 'rbcc', 'rss': 'rbss', 'rsc': 'rbsc', 'rcs': 'rbcs', 'zsc': 'zbsc', 'zcs': 'zbcs', 'zcc': 'zbcc', 'zss': 'zbss'}
AX = {'rcc': ('raxis_c', 1), 'zcs': ('zaxis_s', -1), 'zcc': ('zaxis_c', 1), 'rcs': ('raxis_s', -1)}
for n in BD.values():
    K.arrays[n] = lambda v: (v.mpol, v.ntor + 1)
for n, _ in AX.values():
    K.arrays[n] = lambda v: (v.ntor + 1,)


def iargs(K, M):
    t = Obj('t', 'FourierBasis', fields={n: K.ref(n) for n in ('mscale', 'nscale')})
    b = Obj('b', 'Boundaries', fields={n: K.ref(n) for n in list(BD.values()) + [x for x, _ in AX.values()]})
    p = Obj('p', 'RadialProfiles', fields={'sqrtSF': K.ref('sqrtSF')})
    return [t, b, p], coeffs(K, 'FourierGeometry', '%smn%s')


K.args = iargs


def interp(a):
    def f(E, v, o, j, m, n):
        s = o('sqrtSF', j + v.nsMin - v.nsMinF1)
        nrm = 1 / (o('mscale', m) * o('nscale', n))

        def zero():
            t = s * s * o(BD[a], m, n)
            if a in AX:
                ax, sg = AX[a]
                t = t + sg * (1 - s * s) * o(ax, n)
            return nrm * t

        def pos():
            return nrm * E.pow(s, m) * o(BD[a], m, n)
        val = lambda: lazy_branch(E, E.eq(m, 0), zero, pos)
        return lazy_branch(E, E.and_(on(E, v, a), j + v.nsMin < v.nsMax), val, lambda: o(a, j, m, n))
    return f


for n in BD:
    K.post[n] = interp(n)
SETB = ''.join('b.%s = C.e("%s");' % (n, n) for n in list(BD.values()) + [x for x, _ in AX.values()])
K.glue = MK + mk('FourierGeometry') + '''vmecpp::FourierBasisFastPoloidal t(&s); t.mscale = C.e("mscale"); t.nscale = C.e("nscale"); vmecpp::Boundaries b(&s, &t, 1); %s
vmecpp::VmecINDATA id; vmecpp::HandoverStorage h(&s); vmecpp::FlowControl fc(false, 1., 1); vmecpp::RadialProfiles p(&r, &h, &id, &fc, 1, 0.); p.sqrtSF = C.e("sqrtSF");
x.interpFromBoundaryAndAxis(t, b, p);
''' % SETB + back()
CONTRACTS.append(K)
