"""Free boundary: geometry of the plasma boundary and the external field on it"""
from vc.contract import *

D = 'vmecpp/free_boundary/'
SG = D + 'surface_geometry/surface_geometry.cc'
EF = D + 'external_magnetic_field/external_magnetic_field.cc'
MG = D + 'mgrid_provider/mgrid_provider.cc'
SOURCES = [SG, EF, MG]
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <span>
#include <optional>
#include <iostream>
#include <algorithm>
#define private public
#include "vmecpp/free_boundary/surface_geometry/surface_geometry.h"
#include "vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
#undef private
template <class T> static T& RawR() { return *(T*)calloc(1, sizeof(T) + 64); }
template <class T> static const T* Obj_(T& x) { return &x; }
'''
CHUNK = 1
CONTRACTS = []
POL = 'cosmu sinmu cosmum sinmum'.split()
TOR = 'cosnv sinnv cosnvn sinnvn'.split()
CO = 'rCC rSS rSC rCS zSC zCS zCC zSS'.split()
FULLR = 'r1b z1b rcosuv rsinuv rzb2'.split()
D1 = 'rub rvb zub zvb'.split()
D2 = 'ruu ruv rvv zuu zuv zvv'.split()
LOC1 = 'snr snv snz guu guv gvv'.split()
LOC2 = 'auu auv avv drv'.split()
ASY = [n + '_asym' for n in ['r1b', 'z1b'] + D1 + D2]


def grid(name, func, cls, src=SG):
    K = Contract(name, src, func, cls)
    K.ints = dict(nfp=(1, 4), mpol=(1, 3), ntor=(0, 3), mb=(2, 4), nb=(1, 5), nZeta=(1, 4), nThetaReduced=(2, 4), nThetaEven=(2, 6), ztMin=(0, 5), ztMax=(1, 20))
    K.bools = ['lasym']
    K.pre = lambda E, v: [v.nfp >= 1, v.mpol >= 1, v.ntor >= 0, v.mb >= v.mpol, v.nb >= v.ntor + 1, v.nZeta >= 1, v.nThetaReduced >= 2, E.eq(v.nThetaEven, 2 * v.nThetaReduced - 2), v.ztMin >= 0, v.ztMin <= v.ztMax, v.ztMax <= eff(E, v) * v.nZeta]

    def gen(r, v):
        v.nThetaEven = 2 * v.nThetaReduced - 2
        v.mb = v.mpol + r.randint(0, 1)
        v.nb = v.ntor + 1 + r.randint(0, 1)
        tot = (2 * v.nThetaReduced - 2 if v.lasym else v.nThetaReduced) * v.nZeta
        v.ztMin, v.ztMax = sorted([r.randint(0, tot), r.randint(0, tot)])
        if r.random() < .3:
            v.ztMin, v.ztMax = 0, tot
    K.gen = gen
    return K


even = lambda v: v.nThetaEven
eff = lambda E, v: E.ite(v.lasym, even(v), v.nThetaReduced)


def sizes(K):
    v, E = K.v, SymE()
    return Obj('s', 'Sizes', fields=dict(nfp=v.nfp, mpol=v.mpol, ntor=v.ntor, mnyq2=v.mb - 1, nnyq2=v.nb - 1, nZeta=v.nZeta, nThetaReduced=v.nThetaReduced, nThetaEven=even(v),
                                         nThetaEff=eff(E, v), nZnT=v.nZeta * eff(E, v), lasym=v.lasym))


def part(K):
    return Obj('tp', 'TangentialPartitioning', fields=dict(ztMin=K.v.ztMin, ztMax=K.v.ztMax))


GLUE = '''auto& s = RawR<vmecpp::Sizes>(); s.nfp = C.i("nfp"); s.mpol = C.i("mpol"); s.ntor = C.i("ntor"); s.mnyq2 = C.i("mb") - 1; s.nnyq2 = C.i("nb") - 1; s.nZeta = C.i("nZeta"); s.nThetaReduced = C.i("nThetaReduced"); s.nThetaEven = 2 * s.nThetaReduced - 2;
s.lasym = C.b("lasym"); s.nThetaEff = s.lasym ? s.nThetaEven : s.nThetaReduced; s.nZnT = s.nZeta * s.nThetaEff;
auto& tp = RawR<vmecpp::TangentialPartitioning>(); tp.ztMin = C.i("ztMin"); tp.ztMax = C.i("ztMax");
auto& fb = RawR<vmecpp::FourierBasisFastToroidal>(); const int z0 = tp.ztMin, zn = tp.ztMax - tp.ztMin; (void)z0; (void)zn;
'''
MKSG = 'vmecpp::SurfaceGeometry& g = *new vmecpp::SurfaceGeometry(&s, &fb, &tp);\n'


def span(K, name, off, n):
    """array of (poloidal, toroidal) points of which only [off, off + n) is stored"""
    b = K.block(name)
    b.lo, b.hi = P(off), P(off) + P(n)
    return ArrRef(b, (), P(off), P(n))


def local(names):
    """glue for arrays holding only this thread's points"""
    return ''.join('g.%s = C.e("%s").segment(z0, zn); ' % (n, n) for n in names), ''.join('{ auto t = C.e("%s"); t.segment(z0, zn) = g.%s; C.set("%s", t); } ' % (n, n, n) for n in names)


def mine(E, v, l, k):
    p = l * v.nZeta + k
    return E.and_(v.ztMin <= p, p < v.ztMax)


# ---- toroidal angle tables
K = grid('angle_tables', 'computeConstants', 'SurfaceGeometry')
for n in ('cos_per', 'sin_per'):
    K.arrays[n] = lambda v: (v.nfp,)
    K.post[n] = lambda E, v, o, p, f=n[:3]: getattr(E, f)(2 * E.pi / v.nfp * p if E.num else 2 * E.pi * P(p) / v.nfp)
for n in ('cos_phi', 'sin_phi'):
    K.arrays[n] = lambda v: (v.nZeta,)
    K.post[n] = lambda E, v, o, k, f=n[:3]: getattr(E, f)(2 * E.pi / (v.nfp * v.nZeta) * k if E.num else 2 * E.pi * P(k) / (P(v.nfp) * v.nZeta))
K.args = lambda K, M: ([], Obj('g', 'SurfaceGeometry', fields=dict({n: K.ref(n) for n in K.arrays}, s_=sizes(K), tp_=part(K))))
K.glue = GLUE + MKSG + ' '.join('C.set("%s", g.%s);' % (n, n) for n in K.arrays)
CONTRACTS.append(K)


# ---- Fourier series of the boundary and its derivatives
def series(E, v, o, x, du, dv, asym, l, k):
    """d^du/dtheta^du d^dv/dphi^dv of the symmetric/antisymmetric part of R or Z at a point of the first half"""
    blocks = {('r', False): ('rCC', 'rSS'), ('r', True): ('rSC', 'rCS'), ('z', False): ('zSC', 'zCS'), ('z', True): ('zCC', 'zSS')}[x, asym]

    def term(n, m):
        r = 0
        for b in blocks:
            pu, pv = b[1].lower(), b[2].lower()
            cu = {'c': 'cosmu', 's': 'sinmu'}
            dcu = {'c': 'sinmum', 's': 'cosmum'}
            cv = {'c': 'cosnv', 's': 'sinnv'}
            dcv = {'c': 'sinnvn', 's': 'cosnvn'}
            u = o(cu[pu], l, m) if du == 0 else o(dcu[pu], l, m) if du == 1 else -(m * m) * o(cu[pu], l, m)
            w = o(cv[pv], n, k) if dv == 0 else o(dcv[pv], n, k) if dv == 1 else -(n * v.nfp * n * v.nfp) * o(cv[pv], n, k)
            r = r + o(b, n, m) * u * w
        return r
    return E.sum(0, v.ntor + 1, lambda n: E.sum(0, v.mpol, lambda m: term(n, m)))


ORD = {'r1b': ('r', 0, 0), 'z1b': ('z', 0, 0)}
for x in 'rz':
    ORD.update({x + 'ub': (x, 1, 0), x + 'vb': (x, 0, 1), x + 'uu': (x, 2, 0), x + 'uv': (x, 1, 1), x + 'vv': (x, 0, 2)})


def full(E, v, o, n, l, k):
    """value over the full poloidal range (non-symmetric case)"""
    x, du, dv = ORD[n]
    sg = (1 if x == 'r' else -1) * (-1) ** (du + dv)
    kr = E.ite(E.eq(k, 0), 0, v.nZeta - k)
    return lazy_branch(E, l < v.nThetaReduced, lambda: series(E, v, o, x, du, dv, False, l, k) + series(E, v, o, x, du, dv, True, l, k),
                       lambda: sg * (series(E, v, o, x, du, dv, False, even(v) - l, kr) - series(E, v, o, x, du, dv, True, even(v) - l, kr)))


def dft(lasym):
    K = grid('boundary_series_' + ('asymmetric' if lasym else 'symmetric'), 'inverseDFT', 'SurfaceGeometry')
    K.bools = ['lasym', 'fullUpdate']
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym if lasym else E.not_(v.lasym)])(K.pre)

    def gen(r, v, g=K.gen):
        v.lasym = lasym
        g(r, v)
    K.gen = gen
    for n in POL:
        K.arrays[n] = lambda v: (v.nThetaReduced, v.mb)
    for n in TOR:
        K.arrays[n] = lambda v: (v.nb, v.nZeta)
    for n in CO:
        if lasym or n in 'rCC rSS zSC zCS'.split():
            K.arrays[n] = lambda v: (v.ntor + 1, v.mpol)
    for n in ['r1b', 'z1b'] + D1 + D2 + (ASY if lasym else []):
        K.arrays[n] = lambda v: (even(v), v.nZeta)

    def args(K, M):
        v = K.v
        f = {n: K.ref(n) for n in ['r1b', 'z1b'] + (ASY if lasym else [])}
        for n in D1 + D2:
            f[n] = K.ref(n) if lasym else span(K, n, v.ztMin, v.ztMax - v.ztMin)
        f.update(s_=sizes(K), tp_=part(K), fb_=Obj('fb', 'FourierBasisFastToroidal', fields={n: K.ref(n) for n in POL + TOR}))
        f['s_'].fields['lasym'] = TRUE if lasym else FALSE
        empty = K.ref('rCC')
        return [K.ref(n) if n in K.arrays else empty for n in CO] + [v.fullUpdate], Obj('g', 'SurfaceGeometry', fields=f)
    K.args = args
    for n in ['r1b', 'z1b'] + D1 + D2:
        def f(E, v, o, l, k, n=n):
            x, du, dv = ORD[n]
            if lasym:
                val = lambda: full(E, v, o, n, l, k)
            else:
                val = lambda: lazy_branch(E, l < v.nThetaReduced, lambda: series(E, v, o, x, du, dv, False, l, k), lambda: 0) if n in ('r1b', 'z1b') else \
                    lazy_branch(E, mine(E, v, l, k), lambda: series(E, v, o, x, du, dv, False, l, k), lambda: o(n, l, k))
            return lazy_branch(E, v.fullUpdate, val, lambda: o(n, l, k)) if n in D2 else val()
        K.post[n] = f
    K.free = tuple(ASY) if lasym else ()
    li, lo = local(D1 + D2)
    names = ['r1b', 'z1b'] + (D1 + D2 if lasym else [])
    K.glue = GLUE + ' '.join('fb.%s = C.e("%s");' % (n, n) for n in POL + TOR) + MKSG + ' '.join('g.%s = C.e("%s");' % (n, n) for n in names) + ('' if lasym else li) + \
        ' '.join('auto %s = C.v("%s");' % (n, n) for n in CO if n in K.arrays) + ('' if lasym else 'std::vector<double> rSC, rCS, zCC, zSS;') + \
        'g.inverseDFT(%s, C.b("fullUpdate"));' % ', '.join(CO) + ' '.join('C.set("%s", g.%s);' % (n, n) for n in names) + ('' if lasym else lo)
    CONTRACTS.append(K)


dft(False)
dft(True)


# ---- normal vector, metric and second-derivative projections, Cartesian coordinates of the full surface
K = grid('surface_quantities', 'derivedSurfaceQuantities', 'SurfaceGeometry')
K.bools = ['lasym', 'fullUpdate']
K.ints['sgn'] = (-1, 1)
npts = lambda v: v.ztMax - v.ztMin
for n in FULLR:
    K.arrays[n] = lambda v: (even(v), v.nZeta)
for n in ('cos_phi', 'sin_phi'):
    K.arrays[n] = lambda v: (v.nZeta,)
for n in D1 + D2:
    K.arrays[n] = lambda v: (even(v), v.nZeta)
for n in LOC1 + LOC2:
    K.arrays[n] = lambda v: (npts(v),)


def args(K, M):
    v = K.v
    f = {n: K.ref(n) for n in FULLR + LOC1 + LOC2 + ['cos_phi', 'sin_phi']}
    E = SymE()
    for n in D1 + D2:
        off = E.ite(v.lasym, 0, v.ztMin)
        f[n] = ArrRef(K.block(n), (), off, E.ite(v.lasym, even(v) * v.nZeta, v.ztMax - v.ztMin))
    f.update(s_=sizes(K), tp_=part(K))
    return [v.sgn, v.fullUpdate], Obj('g', 'SurfaceGeometry', fields=f)


K.args = args


def at(E, v, p):
    return (p // v.nZeta, p % v.nZeta) if E.num else (E.idiv(p, v.nZeta), E.imod(p, v.nZeta))


def surf(E, v, o, i):
    """quantities of the i-th point of this thread"""
    d = at(E, v, v.ztMin + i)
    q = {n: (lambda n: lambda: o(n, *d))(n) for n in FULLR + D1 + D2}
    q['snr'] = lambda: v.sgn * q['r1b']() * q['zub']()
    q['snv'] = lambda: v.sgn * (q['rub']() * q['zvb']() - q['zub']() * q['rvb']())
    q['snz'] = lambda: -v.sgn * q['r1b']() * q['rub']()
    q['guu'] = lambda: q['rub']() * q['rub']() + q['zub']() * q['zub']()
    q['guv'] = lambda: 2 * (q['rub']() * q['rvb']() + q['zub']() * q['zvb']()) / v.nfp
    q['gvv'] = lambda: (q['rvb']() * q['rvb']() + q['r1b']() * q['r1b']() + q['zvb']() * q['zvb']()) / (v.nfp * v.nfp)
    # second derivatives of the position vector (R, phi, Z) projected on the normal
    q['auu'] = lambda: E.frac(1, 2) * (q['ruu']() * q['snr']() + q['zuu']() * q['snz']())
    q['auv'] = lambda: (q['ruv']() * q['snr']() + q['rub']() * q['snv']() + q['zuv']() * q['snz']()) / v.nfp
    q['avv'] = lambda: E.frac(1, 2) * ((q['rvv']() - q['r1b']()) * q['snr']() + 2 * q['rvb']() * q['snv']() + q['zvv']() * q['snz']()) / (v.nfp * v.nfp)
    q['drv'] = lambda: -(q['r1b']() * q['snr']() + q['z1b']() * q['snz']())
    return q


for n in LOC1 + LOC2:
    K.post[n] = lambda E, v, o, i, n=n: lazy_branch(E, v.fullUpdate, lambda: surf(E, v, o, i)[n](), lambda: o(n, i)) if n in LOC2 else surf(E, v, o, i)[n]()


def whole(E, v, o, x, l, k):
    """R or Z over the full poloidal range: mirrored if stellarator symmetric"""
    kr = E.ite(E.eq(k, 0), 0, v.nZeta - k)
    return lazy_branch(E, E.and_(E.not_(v.lasym), l >= v.nThetaReduced), lambda: (1 if x == 'r1b' else -1) * o(x, even(v) - l, kr), lambda: o(x, l, k))


for n in ('r1b', 'z1b'):
    K.post[n] = lambda E, v, o, l, k, n=n: lazy_branch(E, v.fullUpdate, lambda: whole(E, v, o, n, l, k), lambda: o(n, l, k))
K.post['rzb2'] = lambda E, v, o, l, k: lazy_branch(E, v.fullUpdate, lambda: whole(E, v, o, 'r1b', l, k) ** 2 + whole(E, v, o, 'z1b', l, k) ** 2, lambda: o('rzb2', l, k))
for n, c in (('rcosuv', 'cos_phi'), ('rsinuv', 'sin_phi')):
    K.post[n] = lambda E, v, o, l, k, n=n, c=c: lazy_branch(E, v.fullUpdate, lambda: whole(E, v, o, 'r1b', l, k) * o(c, k), lambda: o(n, l, k))
full_names = FULLR + LOC1 + LOC2 + ['cos_phi', 'sin_phi']
K.glue = GLUE + MKSG + ' '.join('g.%s = C.e("%s");' % (n, n) for n in full_names) + ' '.join('{ Eigen::VectorXd t = C.e("%s"); if (s.lasym) g.%s = t; else g.%s = t.segment(z0, zn); }' % (n, n, n) for n in D1 + D2) + \
    'g.derivedSurfaceQuantities(C.i("sgn"), C.b("fullUpdate"));' + ' '.join('C.set("%s", g.%s);' % (n, n) for n in full_names)
CONTRACTS.append(K)


# ---------------------------------------------------------------- external field on the boundary
XYZ = 'interpBr interpBp interpBz curtorBr curtorBp curtorBz'.split()
BO = 'bSubU bSubV bDotN'.split()


def field(name, func, cls='ExternalMagneticField', src=EF):
    K = grid(name, func, cls, src)
    K.arrays = {}
    return K


def surface(K, names):
    """members of the surface geometry, points numbered poloidally then toroidally"""
    v, E = K.v, SymE()
    f = {}
    for n in names:
        if n in D1:
            f[n] = ArrRef(K.block(n), (), E.ite(v.lasym, 0, v.ztMin), E.ite(v.lasym, even(v) * v.nZeta, npts(v)))
        else:
            f[n] = K.ref(n)
    return Obj('sg', 'SurfaceGeometry', fields=f)


SGGLUE = 'auto& g = RawR<vmecpp::SurfaceGeometry>();'
EFGLUE = 'auto& e = *(vmecpp::ExternalMagneticField*)calloc(1, sizeof(vmecpp::ExternalMagneticField)); static vmecpp::MGridProvider mg; new (&e) vmecpp::ExternalMagneticField(&s, &tp, &g, &mg);'
SET = lambda obj, names: ' '.join('%s.%s = C.e("%s");' % (obj, n, n) for n in names)
GET = lambda obj, names: ' '.join('C.set("%s", %s.%s);' % (n, obj, n) for n in names)
SETD = lambda names: ' '.join('{ Eigen::VectorXd t = C.e("%s"); if (s.lasym) g.%s = t; else g.%s = t.segment(z0, zn); }' % (n, n, n) for n in names)

K = field('field_components', 'covariantAndNormalComponents')
for n in XYZ + BO + ['snr', 'snv', 'snz']:
    K.arrays[n] = lambda v: (npts(v),)
for n in ['r1b'] + D1:
    K.arrays[n] = lambda v: (even(v) * v.nZeta,)
K.args = lambda K, M: ([], Obj('e', 'ExternalMagneticField', fields=dict({n: K.ref(n) for n in XYZ + BO}, s_=sizes(K), tp_=part(K), sg_=surface(K, ['r1b', 'snr', 'snv', 'snz'] + D1))))
tot = lambda o, c, i: o('interpB' + c, i) + o('curtorB' + c, i)
K.post = dict(bSubU=lambda E, v, o, i: tot(o, 'r', i) * o('rub', v.ztMin + i) + tot(o, 'z', i) * o('zub', v.ztMin + i),
              bSubV=lambda E, v, o, i: tot(o, 'r', i) * o('rvb', v.ztMin + i) + tot(o, 'z', i) * o('zvb', v.ztMin + i) + tot(o, 'p', i) * o('r1b', v.ztMin + i),
              bDotN=lambda E, v, o, i: -(tot(o, 'r', i) * o('snr', i) + tot(o, 'p', i) * o('snv', i) + tot(o, 'z', i) * o('snz', i)))
K.glue = GLUE + SGGLUE + SET('g', ['r1b', 'snr', 'snv', 'snz']) + SETD(D1) + EFGLUE + SET('e', XYZ + BO) + 'e.covariantAndNormalComponents();' + GET('e', XYZ + BO)
CONTRACTS.append(K)


# ---- the net toroidal current as a closed polygon along the axis, repeated over all field periods
def axis(E, v, o, p, k, c):
    """corner (p, k) of the polygon"""
    base = (lambda: o('rAxis', k) * o('cos_phi', k), lambda: o('rAxis', k) * o('sin_phi', k), lambda: o('zAxis', k))
    w = 2 * E.pi * p / v.nvper if E.num else 2 * E.pi * P(p) / v.nvper
    rot = (lambda: E.cos(w) * base[0]() - E.sin(w) * base[1](), lambda: E.sin(w) * base[0]() + E.cos(w) * base[1](), base[2])
    # cos(0) = 1, sin(0) = 0; the last corner is the first one again
    return lazy_branch(E, E.eq(p, v.nvper), lambda: axis(E, v, o, 0, 0, c), lambda: lazy_branch(E, E.eq(p, 0), base[c], rot[c])) if not (isinstance(p, int) and p == 0) else base[c]()


def biot(E, v, o, i):
    """field of the polygon at the i-th point of this thread, Cartesian"""
    l, k = at(E, v, v.ztMin + i)
    if not E.num:     # the arrays as they are at the intermediate assertions
        x = tuple(sel('surfaceXYZ#cut', (P(i), P(c))) for c in range(3))
    else:
        x = (o('r1b', v.ztMin + i) * o('cos_phi', k), o('r1b', v.ztMin + i) * o('sin_phi', k), o('z1b', v.ztMin + i))

    def seg(s, c):
        pt = lambda s, q: axis(E, v, o, *at(E, v, s), q) if E.num else sel('axisXYZ#cut', (*at(E, v, P(s)), P(q)))
        a = [pt(s, q) for q in range(3)]
        b = [pt(s + 1, q) for q in range(3)]
        d = [q - p for p, q in zip(a, b)]
        ri = [q - p for p, q in zip(a, x)]
        rf = [q - p for p, q in zip(b, x)]
        n2 = lambda t: t[0] * t[0] + t[1] * t[1] + t[2] * t[2]
        ni, nf = E.sqrt(n2(ri)), E.sqrt(n2(rf))
        ll = E.sqrt(n2(d))
        mag = 2 * (1e-7 if E.num else P(1e-7)) * v.current * (ni + nf) / (ni * nf * ((ni + nf) * (ni + nf) - ll * ll))
        a1, a2 = (c + 1) % 3, (c + 2) % 3
        return mag * (d[a1] * ri[a2] - d[a2] * ri[a1])
    return [E.sum(0, v.nZeta * v.nvper, lambda s, c=c: seg(s, c)) for c in range(3)], k


K = field('axis_current', 'AddAxisCurrentFieldSimple')
K.ints['nvper'] = (1, 3)
K.pre = (lambda p: lambda E, v: p(E, v) + [v.nvper >= 1])(K.pre)
K.reals = dict(current=(-1e6, 1e6))
K.arrays = {'rAxis': lambda v: (v.nZeta,), 'zAxis': lambda v: (v.nZeta,), 'cos_phi': lambda v: (v.nZeta,), 'sin_phi': lambda v: (v.nZeta,), 'r1b': lambda v: (even(v) * v.nZeta,), 'z1b': lambda v: (even(v) * v.nZeta,),
            'axisXYZ': lambda v: (v.nvper + 1, v.nZeta, 3), 'surfaceXYZ': lambda v: (npts(v), 3), 'bCoilsXYZ': lambda v: (npts(v), 3)}
for n in XYZ[3:]:
    K.arrays[n] = lambda v: (npts(v),)


def args(K, M):
    v = K.v
    b = K.block('axisXYZ')
    b.hi = 3 * (v.nZeta * v.nvper + 1)
    f = {n: K.ref(n) for n in XYZ[3:] + ['surfaceXYZ', 'bCoilsXYZ']}
    f['axisXYZ'] = ArrRef(b, (), ZERO, b.hi)
    return [K.ref('rAxis'), K.ref('zAxis'), v.current], Obj('e', 'ExternalMagneticField', fields=dict(f, s_=sizes(K), tp_=part(K), nvper_=v.nvper, sg_=surface(K, ['r1b', 'z1b', 'cos_phi', 'sin_phi'])))


K.args = args
K.post = dict(curtorBr=lambda E, v, o, i: (lambda b, k: o('cos_phi', k) * b[0] + o('sin_phi', k) * b[1])(*biot(E, v, o, i)),
              curtorBp=lambda E, v, o, i: (lambda b, k: o('cos_phi', k) * b[1] - o('sin_phi', k) * b[0])(*biot(E, v, o, i)),
              curtorBz=lambda E, v, o, i: biot(E, v, o, i)[0][2])
K.free = ('bCoilsXYZ',)


def axisxyz(E, v, o, p, k, c):
    return lazy_branch(E, E.and_(E.eq(p, v.nvper), k > 0), lambda: o('axisXYZ', p, k, c), lambda: lazy_branch(E, E.eq(c, 0), lambda: axis(E, v, o, p, k, 0), lambda: lazy_branch(E, E.eq(c, 1), lambda: axis(E, v, o, p, k, 1), lambda: axis(E, v, o, p, k, 2))))


K.post['axisXYZ'] = axisxyz
K.post['surfaceXYZ'] = lambda E, v, o, i, c: (lambda k: lazy_branch(E, E.eq(c, 2), lambda: o('z1b', v.ztMin + i), lambda: o('r1b', v.ztMin + i) * lazy_branch(E, E.eq(c, 0), lambda: o('cos_phi', k), lambda: o('sin_phi', k))))(at(E, v, v.ztMin + i)[1])
K.cuts = {n: K.post[n] for n in ('axisXYZ', 'surfaceXYZ')}


def fill(r, v, arr):
    import math
    for k in range(v.nZeta):
        a = 2 * math.pi * k / (v.nZeta * v.nvper)
        arr['cos_phi'][1][k], arr['sin_phi'][1][k] = math.cos(a), math.sin(a)
        arr['rAxis'][1][k] = 5 + r.random()
        arr['zAxis'][1][k] = r.random() - .5
    for i in range(len(arr['r1b'][1])):
        arr['r1b'][1][i] = r.choice([3, 8]) + r.random()


K.fill = fill
K.glue = GLUE + SGGLUE + SET('g', ['r1b', 'z1b', 'cos_phi', 'sin_phi']) + EFGLUE + 'e.nvper_ = C.i("nvper"); e.axisXYZ.resize(3 * (s.nZeta * e.nvper_ + 1)); e.axisXYZ.setConstant(7.0); e.bCoilsXYZ.setConstant(3.0); { auto t = C.e("axisXYZ"); e.axisXYZ = t.head(e.axisXYZ.size()); }' + SET('e', XYZ[3:] + ['surfaceXYZ']) + \
    'auto ra = C.v("rAxis"), za = C.v("zAxis"); e.AddAxisCurrentFieldSimple(ra, za, C.r("current"));' + GET('e', XYZ[3:] + ['surfaceXYZ']) + '{ auto t = C.e("axisXYZ"); t.head(e.axisXYZ.size()) = e.axisXYZ; C.set("axisXYZ", t); }'
CONTRACTS.append(K)


# ---- interpolation of the tabulated field
K = field('mgrid_interpolation', 'interpolate', 'MGridProvider', MG)
K.ints.update(numR=(2, 4), numZ=(2, 4), numPhi=(1, 4))
K.bools = ['lasym', 'fixed']
K.reals = dict(minR=(1, 2), deltaR=(.3, 1), maxR=(3, 4), minZ=(-2, -1), deltaZ=(.3, 1), maxZ=(1, 2))
K.pre = (lambda p: lambda E, v: p(E, v) + [v.numR >= 2, v.numZ >= 2, E.eq(v.numPhi, v.nZeta), v.deltaR > 0, v.deltaZ > 0, E.eq(v.maxR, v.minR + (v.numR - 1) * v.deltaR), E.eq(v.maxZ, v.minZ + (v.numZ - 1) * v.deltaZ)])(K.pre)
K.opaque_scans = True   # extremes, only reported in a message


def gen(r, v, g=K.gen):
    g(r, v)
    v.numPhi = v.nZeta
    v.deltaR, v.deltaZ = r.choice([.25, .5, 1.]), r.choice([.25, .5, 1.])
    v.minR, v.minZ = 1. + r.randint(0, 4) / 4, -r.randint(0, 4) / 4
    v.maxR, v.maxZ = v.minR + (v.numR - 1) * v.deltaR, v.minZ + (v.numZ - 1) * v.deltaZ


K.gen = gen
FI = 'fixed_br_ fixed_bp_ fixed_bz_'.split()
K.arrays = {n: (lambda v: (v.nZeta, v.numZ, v.numR)) for n in ('bR', 'bP', 'bZ')}
K.arrays.update({n: (lambda v: (even(v) * v.nZeta,)) for n in ['rL', 'zL'] + FI})
K.arrays.update({n: (lambda v: (npts(v),)) for n in XYZ[:3]})


def fill(r, v, arr):
    for n, lo, hi, d in (('rL', v.minR, v.maxR, v.deltaR), ('zL', v.minZ, v.maxZ, v.deltaZ)):
        a = arr[n][1]
        for i in range(len(a)):   # inside, on grid lines, on and beyond the edges of the table
            a[i] = r.choice([lo + (hi - lo) * r.random()] * 4 + [lo, hi, lo + d, lo - .3, hi + .3, hi - 1e-9])


K.fill = fill
K.args = lambda K, M: ([K.v.ztMin, K.v.ztMax, K.v.nZeta, K.ref('rL'), K.ref('zL')] + [K.ref(n) for n in XYZ[:3]],
                       Obj('mg', 'MGridProvider', fields=dict({n: K.ref(n) for n in ['bR', 'bP', 'bZ'] + FI}, has_mgrid_loaded_=TRUE, has_fixed_field_=K.v.fixed, **{n: getattr(K.v, n) for n in list(K.reals) + ['numR', 'numZ', 'numPhi']})))


def bilinear(E, v, o, b, i):
    l, k = at(E, v, v.ztMin + i)
    clamp = lambda x, lo, hi: (lambda y: E.ite(lo < y, y, lo))(E.ite(hi < x, hi, x))
    r, z = clamp(o('rL', v.ztMin + i), v.minR, v.maxR), clamp(o('zL', v.ztMin + i), v.minZ, v.maxZ)
    fl = (lambda x: math.floor(x)) if E.num else (lambda x: fn('floor', P(x), sort='i'))
    x, y = (r - v.minR) / v.deltaR, (z - v.minZ) / v.deltaZ
    a, c = fl(x), fl(y)
    a1, c1 = E.ite(a + 1 < v.numR, a + 1, v.numR - 1), E.ite(c + 1 < v.numZ, c + 1, v.numZ - 1)
    p, q = x - a, y - c
    return (1 - p) * (1 - q) * o(b, k, c, a) + (1 - p) * q * o(b, k, c1, a) + p * (1 - q) * o(b, k, c, a1) + p * q * o(b, k, c1, a1)


for n, b, f in zip(XYZ[:3], ('bR', 'bP', 'bZ'), FI):
    K.post[n] = lambda E, v, o, i, b=b, f=f: lazy_branch(E, v.fixed, lambda: o(f, v.ztMin + i), lambda: bilinear(E, v, o, b, i))
K.glue = GLUE + 'static vmecpp::MGridProvider m; ' + SET('m', ['bR', 'bP', 'bZ'] + FI) + 'm.has_mgrid_loaded_ = true; m.has_fixed_field_ = C.b("fixed"); ' + ' '.join('m.%s = C.%s("%s");' % (n, 'r' if n in K.reals else 'i', n) for n in list(K.reals) + ['numR', 'numZ', 'numPhi']) + \
    'Eigen::VectorXd r = C.e("rL"), z = C.e("zL"), x = C.e("interpBr"), y = C.e("interpBp"), w = C.e("interpBz"); m.interpolate(C.i("ztMin"), C.i("ztMax"), s.nZeta, r, z, x, y, w); C.set("interpBr", x); C.set("interpBp", y); C.set("interpBz", w);'
CONTRACTS.append(K)


# ---- superposition of the coil fields of a response table
def table(name, match):
    K = Contract(name, MG, 'LoadFields', 'MGridProvider')
    K.ints = dict(nfp=(1, 5), numR=(2, 4), numZ=(2, 4), numPhi=(1, 4), ncur=(0, 4), nrow=(0, 4), nprev=(0, 3))
    K.bools = ['norm']
    K.reals = dict(minR=(1, 2), maxR=(3, 4), minZ=(-2, -1), maxZ=(1, 2))
    K.pre = lambda E, v: [v.nfp >= 1, v.numR >= 2, v.numZ >= 2, v.numPhi >= 1, v.ncur >= 0, v.nrow >= 0, v.nprev >= 0, E.eq(v.nrow, v.ncur) if match else E.not_(E.eq(v.nrow, v.ncur))]

    def gen(r, v):
        v.nprev = r.choice([0, v.numPhi * v.numZ * v.numR, 3])
        if match:
            v.nrow = v.ncur
        elif v.nrow == v.ncur:
            v.nrow += 1
    K.gen = gen
    for n in ('b_r', 'b_p', 'b_z'):
        K.arrays[n] = lambda v: (v.nrow, v.numPhi * v.numZ * v.numR)
    K.arrays['cur'] = lambda v: (v.ncur,)
    for n in ('bR', 'bP', 'bZ'):      # whatever an earlier call left there
        K.arrays[n] = lambda v: (v.nprev,)
    K.free = ('bR', 'bP', 'bZ')

    def args(K, M):
        v = K.v
        for n in ('b_r', 'b_p', 'b_z'):
            K.block(n).matrix = True
        par = Obj('par', 'MakegridParameters', fields=dict(normalize_by_currents=v.norm, number_of_field_periods=v.nfp, r_grid_minimum=v.minR, r_grid_maximum=v.maxR, number_of_r_grid_points=v.numR,
                                                           z_grid_minimum=v.minZ, z_grid_maximum=v.maxZ, number_of_z_grid_points=v.numZ, number_of_phi_grid_points=v.numPhi))
        K.me = Obj('mg', 'MGridProvider', fields=dict(mgrid_mode=StrVal('?'), **{n: K.ref(n) for n in ('bR', 'bP', 'bZ')}))
        return [Obj('tab', 'MagneticFieldResponseTable', fields=dict(parameters=par, **{n: K.ref(n) for n in ('b_r', 'b_p', 'b_z')})), K.ref('cur')], K.me
    K.args = args
    K.outs = {'ok': (lambda K, M, st, val: val.ok, lambda E, v, o: match)}
    glue = '''static vmecpp::MGridProvider m; makegrid::MagneticFieldResponseTable t; auto& p = t.parameters; p.normalize_by_currents = C.b("norm"); p.number_of_field_periods = C.i("nfp"); p.r_grid_minimum = C.r("minR"); p.r_grid_maximum = C.r("maxR");
p.number_of_r_grid_points = C.i("numR"); p.z_grid_minimum = C.r("minZ"); p.z_grid_maximum = C.r("maxZ"); p.number_of_z_grid_points = C.i("numZ"); p.number_of_phi_grid_points = C.i("numPhi");
const int N = C.i("numPhi") * C.i("numZ") * C.i("numR"); t.b_r = C.m<decltype(t.b_r)>("b_r", C.i("nrow"), N); t.b_p = C.m<decltype(t.b_p)>("b_p", C.i("nrow"), N); t.b_z = C.m<decltype(t.b_z)>("b_z", C.i("nrow"), N);
m.bR = C.e("bR"); m.bP = C.e("bP"); m.bZ = C.e("bZ"); m.has_fixed_field_ = true; Eigen::VectorXd c = C.e("cur"); auto r = m.LoadFields(t, c); C.out("ok", r.ok());
'''
    if match:
        get = lambda n: lambda K, M, st, val: M.get_field(st, K.me, n)
        for n, w in dict(nfp='nfp', numR='numR', numZ='numZ', numPhi='numPhi', nextcur='ncur', minR='minR', maxR='maxR', minZ='minZ', maxZ='maxZ').items():
            K.outs['o_' + n] = (get(n), lambda E, v, o, w=w: getattr(v, w))
            glue += 'C.out("o_%s", m.%s);' % (n, n)
        K.outs['o_deltaR'] = (get('deltaR'), lambda E, v, o: (v.maxR - v.minR) / (v.numR - 1))
        K.outs['o_deltaZ'] = (get('deltaZ'), lambda E, v, o: (v.maxZ - v.minZ) / (v.numZ - 1))
        K.outs['o_loaded'] = (get('has_mgrid_loaded_'), lambda E, v, o: True)
        K.outs['o_fixed'] = (get('has_fixed_field_'), lambda E, v, o: False)
        glue += 'C.out("o_deltaR", m.deltaR); C.out("o_deltaZ", m.deltaZ); C.out("o_loaded", m.has_mgrid_loaded_); C.out("o_fixed", m.has_fixed_field_);'
        for n, b in (('bR', 'b_r'), ('bP', 'b_p'), ('bZ', 'b_z')):
            K.dyn['o_' + n] = (get(n), lambda E, v: (v.numPhi * v.numZ * v.numR,), lambda E, v, o, i, b=b: E.sum(0, v.ncur, lambda c: o(b, c, i) * o('cur', c)))
            glue += 'C.set("o_%s", m.%s);' % (n, n)
    K.glue = glue
    CONTRACTS.append(K)


table('response_table', True)
table('response_table_mismatch', False)
