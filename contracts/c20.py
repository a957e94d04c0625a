"""Output quantities: fields and currents derived from the converged state"""
from vc.contract import *

SRC = 'vmecpp/vmec/output_quantities/output_quantities.cc'
SOURCES = [SRC]
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <span>
#include <optional>
#include <iostream>
#include <algorithm>
#define private public
#include "vmecpp/vmec/output_quantities/output_quantities.h"
#undef private
template <class T> static T& RawR() { return *(T*)calloc(1, sizeof(T) + 64); }
template <class M> static Eigen::VectorXd Flat(const M& m) { Eigen::VectorXd r(m.size()); std::copy(m.data(), m.data() + m.size(), r.data()); return r; }
'''
CHUNK = 1
CONTRACTS = []

even = lambda v: 2 * v.nThetaReduced - 2
full = lambda v: (v.ns, v.nZeta, v.nth)
half = lambda v: (v.ns - 1, v.nZeta, v.nth)
fullr = lambda v: (v.ns, v.nZeta, v.nThetaReduced)
halfr = lambda v: (v.ns - 1, v.nZeta, v.nThetaReduced)
F1 = lambda v: (v.ns,)
H1 = lambda v: (v.ns - 1,)
FL1 = lambda v: (v.nZeta, v.nth)
SHAPES = {}
for n in 'sqrtSF phipF chipF phiF iotaF spectral_width'.split():
    SHAPES[n] = F1
for n in 'sqrtSH sm sp phipH chipH currH bvcoH dVdsH massH presH iotaH'.split():
    SHAPES[n] = H1
for n in 'r_e r_o z_e z_o ru_e ru_o zu_e zu_o rv_e rv_o zv_e zv_o ruFull zuFull bsubvF'.split():
    SHAPES[n] = full
for n in 'r12 ru12 zu12 rs zs gsqrt guu guv gvv bsupu bsupv bsubu bsubv total_pressure'.split():
    SHAPES[n] = half


def oq(name, func, vir=(), other=None, ret=None, minns=3, params='s v'):
    """free function of (sizes, gathered results, ...): `vir` members of the gathered results used; `other`: {parameter: (class, {member: shape})}; `ret`: {member: (shape, spec)} of the returned struct"""
    K = Contract(name, SRC, func, None, None)
    other = other or {}
    ret = ret or {}
    K.ints = dict(ns=(minns, minns + 3), nZeta=(1, 4), nThetaReduced=(2, 4), nth=(2, 6), sgn=(-1, 1))
    K.bools = ['lasym']
    K.reals = dict(deltaS=(.1, .9))
    K.pre = lambda E, v: [v.ns >= minns, v.nZeta >= 1, v.nThetaReduced >= 2, v.nth >= 1, E.or_(E.eq(v.sgn, 1), E.eq(v.sgn, -1)), v.deltaS > 0]

    def gen(r, v):
        v.sgn = r.choice([-1, 1])
        v.nth = even(v) if v.lasym else v.nThetaReduced
    K.gen = gen
    K.arrays = {n: SHAPES[n] for n in vir}
    for p, (c, ms) in other.items():
        K.arrays.update({n: ms[n] for n in ms if ms[n]})
        K.reals.update({n: (.5, 2) for n in ms if not ms[n]})       # None: a number
    K.arrays['wInt'] = lambda v: (v.nth,)
    K.vir, K.other, K.parts = list(vir), other, params.split()

    def args(K, M):
        v = K.v
        lasym = K.__dict__.get('fixed')
        lasym = v.lasym if lasym is None else TRUE if lasym else FALSE
        if K.__dict__.get('fixed') is not None:
            v.nth = even(v) if K.fixed else v.nThetaReduced
        e = v.nth
        K.s = Obj('s', 'Sizes', fields=dict(lasym=lasym, nZeta=v.nZeta, nThetaReduced=v.nThetaReduced, nThetaEven=even(v), nThetaEff=e, nZnT=v.nZeta * e, wInt=K.ref('wInt'), **K.sizes(v)))
        K.fc = Obj('fc', 'FlowControl', fields=dict(ns=v.ns, deltaS=v.deltaS))
        K.res = Obj('v', 'VmecInternalResults', fields=dict(num_full=v.ns, num_half=v.ns - 1, nZnT_reduced=v.nZeta * v.nThetaReduced, sign_of_jacobian=v.sgn, **{n: K.ref(n) for n in K.vir}))
        d = dict(s=K.s, f=K.fc, v=K.res)
        for p, (c, ms) in other.items():
            d[p] = Obj(p, c, fields={n: K.ref(n) if ms[n] else v[n] if isinstance(v, dict) else getattr(v, n) for n in ms})
        d.update(K.extra_args(v))
        return [d[p] for p in K.parts]
    K.args = args
    K.sizes = lambda v: {}
    K.extra_args = lambda v: {}
    get = lambda n: lambda K, M, st, val: M.get_field(st, val, n)
    for n, (shape, spec) in ret.items():
        K.local_shapes[n] = shape
        K.dyn['o_' + n] = (get(n), (lambda sh: lambda E, v: sh(v))(shape), spec)
    return K


TYPES = dict(s='s', f='fc', v='res')
BASE = '''auto& s = RawR<vmecpp::Sizes>(); s.lasym = C.b("lasym"); s.nZeta = C.i("nZeta"); s.nThetaReduced = C.i("nThetaReduced"); s.nThetaEven = 2 * s.nThetaReduced - 2; s.nThetaEff = s.lasym ? s.nThetaEven : s.nThetaReduced; s.nZnT = s.nZeta * s.nThetaEff;
auto& fc = RawR<vmecpp::FlowControl>(); fc.ns = C.i("ns"); fc.deltaS = C.r("deltaS"); vmecpp::VmecInternalResults res; res.num_full = fc.ns; res.num_half = fc.ns - 1; res.nZnT_reduced = s.nZeta * s.nThetaReduced; res.sign_of_jacobian = C.i("sgn");
new (&s.wInt) decltype(s.wInt)(); s.wInt = C.e("wInt");
'''


def load(obj, n, shape):
    if shape is None:
        return '%s.%s = C.r("%s");' % (obj, n, n)
    if shape in (F1, H1, FL1):
        return '%s.%s = C.e("%s");' % (obj, n, n)
    r = 'fc.ns' if shape in (full, fullr) else 'fc.ns - 1'
    c = 's.nZnT' if shape in (full, half) else 'res.nZnT_reduced'
    return '%s.%s = C.m<decltype(%s.%s)>("%s", %s, %s);' % (obj, n, obj, n, n, r, c)


def done(K, pre='', into=CONTRACTS):
    g = BASE + pre
    names = dict(TYPES)
    for n in K.vir:
        g += load('res', n, SHAPES[n])
    for p, (c, ms) in K.other.items():
        g += 'vmecpp::%s %s;' % (c, p)
        names[p] = p
        for n in ms:
            g += load(p, n, ms[n])
    call = 'vmecpp::%s(%s)' % (K.func, ', '.join(names.get(p, p) for p in K.parts))
    rets = [n for n in K.dyn]
    g += ('auto ret = ' if rets or K.__dict__.get('returns') else '') + call + ';'
    for n in rets:
        g += 'C.set("%s", Flat(ret.%s));' % (n, n[2:])
    for n in K.vir:
        g += 'C.set("%s", Flat(res.%s));' % (n, n)
    for p, (c, ms) in K.other.items():
        for n in ms:
            if ms[n]:
                g += 'C.set("%s", Flat(%s.%s));' % (n, p, n)
    K.glue = g
    into.append(K)
    return K


def fix(K, lasym):
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym if lasym else E.not_(v.lasym), E.eq(v.nth, even(v) if lasym else v.nThetaReduced)])(K.pre)

    def gen(r, v, g=K.gen):
        v.lasym = lasym
        g(r, v)
    K.gen = gen
    K.fixed = lasym


# ---- deviation of the poloidal current from the enclosed one, and its removal
K = oq('poloidal_current', 'ComputePoloidalCurrentToFixBSubV', 'bsubv bvcoH'.split(),
       ret=dict(poloidal_current_deviation=(H1, lambda E, v, o, j: E.sum(0, v.nZeta, lambda k: E.sum(0, v.nth, lambda l: o('bsubv', j, k, l) * o('wInt', l))) - o('bvcoH', j))))
done(K)
K = oq('current_fixup', 'FixupPoloidalCurrent', ['bsubv'], dict(p=('PoloidalCurrentToFixBSubV', dict(poloidal_current_deviation=H1))), params='s p v')
K.post['bsubv'] = lambda E, v, o, j, k, l: o('bsubv', j, k, l) - o('poloidal_current_deviation', j)
done(K)

# ---- metric, cylindrical and radial covariant components on the half grid
def mean(E, o, n, *i):
    return (o(n, *i) + o(n, i[0] + 1, *i[1:])) * E.frac(1, 2)
xv12 = lambda E, o, x, *i: mean(E, o, x + 'v_e', *i) + o('sqrtSH', i[0]) * mean(E, o, x + 'v_o', *i)
xs12 = lambda E, o, x, *i: o(x + 's', *i) + mean(E, o, x + '_o', *i) / (2 * o('sqrtSH', i[0]))
pad = lambda f: lambda E, v, o, j, k, l: lazy_branch(E, j < v.ns - 1, lambda: f(E, v, o, j, k, l), lambda: E.const(0) if hasattr(E, 'const') else 0)
K = oq('remaining_metric', 'ComputeRemainingMetric', 'sqrtSH rv_e rv_o zv_e zv_o r_o z_o rs zs ru12 zu12'.split(), ret=dict(
    rv12=(half, lambda E, v, o, *i: xv12(E, o, 'r', *i)), zv12=(full, pad(lambda E, v, o, *i: xv12(E, o, 'z', *i))),
    rs12=(half, lambda E, v, o, *i: xs12(E, o, 'r', *i)), zs12=(full, pad(lambda E, v, o, *i: xs12(E, o, 'z', *i))),
    gsu=(half, lambda E, v, o, *i: xs12(E, o, 'r', *i) * o('ru12', *i) + xs12(E, o, 'z', *i) * o('zu12', *i)),
    gsv=(full, pad(lambda E, v, o, *i: xs12(E, o, 'r', *i) * xv12(E, o, 'r', *i) + xs12(E, o, 'z', *i) * xv12(E, o, 'z', *i)))))
done(K)
RM = dict(rv12=half, zv12=full, gsu=half, gsv=full)
K = oq('cylindrical_field', 'BCylindricalComponents', 'bsupu bsupv ru12 zu12 r12'.split(), dict(rm=('RemainingMetric', {n: RM[n] for n in ('rv12', 'zv12')})), params='s v rm', ret=dict(
    b_r=(half, lambda E, v, o, *i: o('bsupu', *i) * o('ru12', *i) + o('bsupv', *i) * o('rv12', *i)),
    b_phi=(half, lambda E, v, o, *i: o('bsupv', *i) * o('r12', *i)),
    b_z=(half, lambda E, v, o, *i: o('bsupu', *i) * o('zu12', *i) + o('bsupv', *i) * o('zv12', *i))))
done(K)
K = oq('bsubs_half', 'ComputeBSubSOnHalfGrid', 'bsupu bsupv'.split(), dict(rm=('RemainingMetric', {n: RM[n] for n in ('gsu', 'gsv')})), params='s v rm', ret=dict(
    bsubs_half=(half, lambda E, v, o, *i: o('bsupu', *i) * o('gsu', *i) + o('bsupv', *i) * o('gsv', *i))))
done(K)

K = oq('bsubs_full', 'PutBSubSOnFullGrid', [], dict(b=('BSubSHalf', dict(bsubs_half=half))), params='s v b', ret=dict(
    bsubs_full=(full, lambda E, v, o, j, k, l: lazy_branch(E, E.and_(j > 0, j < v.ns - 1), lambda: (o('bsubs_half', j, k, l) + o('bsubs_half', j - 1, k, l)) * E.frac(1, 2), lambda: 0))))
done(K)
K = oq('bsubs_extrapolation', 'ExtrapolateBSubS', [], dict(b=('BSubSFull', dict(bsubs_full=full))), params='s f b', minns=4)
K.post['bsubs_full'] = lambda E, v, o, j, k, l: lazy_branch(E, E.eq(j, 0), lambda: 2 * o('bsubs_full', 1, k, l) - o('bsubs_full', 2, k, l), lambda: lazy_branch(
    E, E.eq(j, v.ns - 1), lambda: 2 * o('bsubs_full', v.ns - 2, k, l) - o('bsubs_full', v.ns - 3, k, l), lambda: o('bsubs_full', j, k, l)))
done(K)

# ---- toroidal flux: integral of its derivative
K = oq('toroidal_flux', 'RecomputeToroidalFlux', 'phiF phipF'.split(), params='f v')
K.rec = dict(T=lambda E, v, o, j, K=K: lazy_branch(E, j <= 0, lambda: 0, lambda: K.R('T', E, v, o, j - 1) + o('phipF', j - 1)))
K.recur = dict(phiF=[lambda E, v, o, j, K=K: K.R('T', E, v, o, j)])
K.post['phiF'] = lambda E, v, o, j, K=K: v.sgn * 2 * E.pi * v.deltaS * K.R('T', E, v, o, j)
done(K)

# ---- B_zeta from the full-grid values, recursively from the edge inwards
K = oq('bsubv_blend', 'MeshBledingBSubZeta', 'bsubv bsubvF'.split(), params='s f v')
K.rec = dict(B=lambda E, v, o, j, k, l, K=K: lazy_branch(E, j >= v.ns - 2, lambda: o('bsubv', j, k, l), lambda: 2 * o('bsubvF', j + 1, k, l) - K.R('B', E, v, o, j + 1, k, l)))
K.recur = dict(bsubv=[lambda E, v, o, j, k, l, K=K: K.R('B', E, v, o, j, k, l)])
K.post['bsubv'] = lambda E, v, o, j, k, l, K=K: K.R('B', E, v, o, j, k, l)
KB = K
done(K)

# ---- symmetric and antisymmetric parts
rev = lambda E, n, i: E.ite(E.eq(i, 0), 0, n - i)
for la in (False, True):
    K = oq('symmetry_split_%s' % ('asymmetric' if la else 'symmetric'), 'DecomposeCovariantBBySymmetry', 'bsubu bsubv'.split(), dict(b=('BSubSFull', dict(bsubs_full=full))), params='s v b')
    fix(K, la)
    K.spec_parts = {}

    def spec(n, part, la=la):
        def f(E, v, o, j, k, l):
            if not la:
                return o(n, j, k, l)
            r = o(n, j, rev(E, v.nZeta, k), rev(E, even(v), l))
            return (o(n, j, k, l) + (r if (part == 's') == (n != 'bsubs_full') else -r)) * E.frac(1, 2)
        return f
    get = lambda n: lambda K, M, st, val: M.get_field(st, val, n)
    for n, src in (('bsubs', 'bsubs_full'), ('bsubu', 'bsubu'), ('bsubv', 'bsubv')):
        for part in ('sa' if la else 's'):
            sh = fullr if n == 'bsubs' else halfr
            K.local_shapes[n + '_' + part] = sh
            K.dyn['o_%s_%s' % (n, part)] = (get(n + '_' + part), lambda E, v, sh=sh: sh(v), spec(src, part))
    done(K)

# ---- low-pass filter: projection onto the retained modes, and derivatives of the result
BAS_L = 'cosmu sinmu cosmum sinmum cosmui sinmui'.split()
BAS_N = 'cosnv sinnv cosnvn sinnvn'.split()


def lowpass(la):
    dec = dict(bsubs_s=fullr, bsubu_s=halfr, bsubv_s=halfr)
    if la:
        dec.update(bsubs_a=fullr, bsubu_a=halfr, bsubv_a=halfr)
    K = oq('low_pass_%s' % ('asymmetric' if la else 'symmetric'), 'LowPassFilterCovariantB', 'bsubu bsubv'.split(), dict(d=('SymmetryDecomposedCovariantB', dec)), params='s t d v')
    fix(K, la)
    K.ints.update(mpol=(1, 3), ntor=(0, 2), mb=(1, 4), nb=(0, 3), mnyq=(1, 4), nnyq=(0, 3))
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.mpol >= 1, v.ntor >= 0, v.mb >= v.mpol, v.nb >= v.ntor])(K.pre)

    def gen(r, v, g=K.gen):
        g(r, v)
        v.mb = v.mpol + r.randint(0, 1)
        v.nb = v.ntor + r.randint(0, 1)
        v.mnyq = v.mb - 1
        v.nnyq = v.nb
    K.gen = gen
    K.basis = BAS_L + BAS_N
    for n in BAS_L:
        K.arrays[n] = lambda v: (v.mb, v.nThetaReduced)
    for n in BAS_N:
        K.arrays[n] = lambda v: (v.nZeta, v.nb + 1)
    K.sizes = lambda v: dict(mpol=v.mpol, ntor=v.ntor, nnyq2=v.nb, mnyq=v.mnyq, nnyq=v.nnyq, lthreed=TRUE)
    K.extra_args = lambda v, K=K: dict(t=Obj('t', 'FourierBasisFastPoloidal', fields={n: K.ref(n) for n in K.basis}))

    def coef(E, v, o, n, u, w, j, m, nn):
        dn = E.ite(E.eq(m, v.mnyq), E.frac(1, 2), 1) * E.ite(E.and_(E.eq(nn, v.nnyq), E.not_(E.eq(nn, 0))), E.frac(1, 2), 1)
        return dn * E.sum(0, v.nZeta, lambda k: E.sum(0, v.nThetaReduced, lambda l: o(u + 'mui', m, l) * o(w + 'nv', k, nn) * o(n, j, k, l)))

    def series(E, v, o, n, sin, tu, tv, j, k, l):
        """filtered series of the array n (sin: sin-cos/cos-sin products, else cos-cos/sin-sin) evaluated with the tables tu (0 value, 1 derivative in u), tv"""
        (u1, w1), (u2, w2) = ((('sin', 'cos'), ('cos', 'sin')) if sin else (('cos', 'cos'), ('sin', 'sin')))
        fl = dict(sin='cos', cos='sin')
        U = lambda u: (fl[u] + 'mum') if tu else u + 'mu'
        W = lambda w: (fl[w] + 'nvn') if tv else w + 'nv'
        return E.sum(0, v.mpol, lambda m: E.sum(0, v.ntor + 1, lambda nn: o(U(u1), m, l) * o(W(w1), k, nn) * coef(E, v, o, n, u1, w1, j, m, nn) + o(U(u2), m, l) * o(W(w2), k, nn) * coef(E, v, o, n, u2, w2, j, m, nn)))

    def total(n, tu, tv):
        sin = n == 'bsubs'
        # parity of the symmetric part under reflection
        odd = sin != (tu + tv == 1)

        def f(E, v, o, j, k, l):
            if not la:
                return series(E, v, o, n + '_s', sin, tu, tv, j, k, l)
            def at(k, l, sg):
                a, b = series(E, v, o, n + '_s', sin, tu, tv, j, k, l), series(E, v, o, n + '_a', not sin, tu, tv, j, k, l)
                return a + b if sg > 0 else (b - a if odd else a - b)
            return lazy_branch(E, l < v.nThetaReduced, lambda: at(k, l, 1), lambda: at(rev(E, v.nZeta, k), even(v) - l, -1))
        return f
    for n in 'sa':
        K.local_shapes.update({'bsubsu_' + n: fullr, 'bsubsv_' + n: fullr, 'bsubu_filtered_' + n: halfr, 'bsubv_filtered_' + n: halfr, 'bsubuv_' + n: halfr, 'bsubvu_' + n: halfr})
    K.post['bsubu'], K.post['bsubv'] = total('bsubu', 0, 0), total('bsubv', 0, 0)
    get = lambda n: lambda K, M, st, val: M.get_field(st, val, n)
    for n, (sh, f) in dict(bsubsu=(full, total('bsubs', 1, 0)), bsubsv=(full, total('bsubs', 0, 1)), bsubuv=(half, total('bsubu', 0, 1)), bsubvu=(half, total('bsubv', 1, 0))).items():
        K.local_shapes[n] = sh
        K.dyn['o_' + n] = (get(n), lambda E, v, sh=sh: sh(v), f)
    done(K, 's.mpol = C.i("mpol"); s.ntor = C.i("ntor"); s.nnyq2 = C.i("nb"); s.mnyq = C.i("mnyq"); s.nnyq = C.i("nnyq"); s.lthreed = true; auto& t = RawR<vmecpp::FourierBasisFastPoloidal>();' + ' '.join('new (&t.%s) decltype(t.%s)(); t.%s = C.e("%s");' % (n, n, n, n) for n in K.basis))
    return K


for la in (False, True):
    lowpass(la)


# ---- current density, force balance and surface averages
def S2(E, v, f):
    if not E.num and P(v.nZeta) == P(1):
        return E.sum(0, v.nth, lambda l: f(0, l))
    return E.sum(0, v.nZeta, lambda k: E.sum(0, v.nth, lambda l: f(k, l)))


class JxB:
    """definitions on the full-grid surface j (0 < j < ns - 1), between the half-grid surfaces j - 1 and j"""

    def __init__(s, E, v, o, j):
        s.E, s.v, s.o, s.j = E, v, o, j
        s.pi2 = 4 * E.pi * E.pi
        s.mu = 4.0e-7 * E.pi
        s.ovp = 2 / (o('dVdsH', j) + o('dVdsH', j - 1)) / s.pi2
        s.pp = (o('presH', j) - o('presH', j - 1)) / v.deltaS / s.mu

    def two(s, n, k, l):
        return s.o(n, s.j, k, l), s.o(n, s.j - 1, k, l)

    def mean(s, n, k, l):
        a, b = s.two(n, k, l)
        return (a + b) / 2

    def bsq2(s, k, l):
        """|B|^2 sqrt(g) (sum of both half-grid neighbours of sqrt(g) |B|^2 / 2)"""
        g, t = s.two('gsqrt', k, l), s.two('total_pressure', k, l)
        return g[0] * (t[0] - s.o('presH', s.j)) + g[1] * (t[1] - s.o('presH', s.j - 1))

    def itheta(s, k, l):
        a, b = s.two('bsubv', k, l)
        return (s.o('bsubsv', s.j, k, l) - (a - b) / s.v.deltaS) / s.mu

    def izeta(s, k, l):
        a, b = s.two('bsubu', k, l)
        return ((a - b) / s.v.deltaS - s.o('bsubsu', s.j, k, l)) / s.mu

    def bsup(s, n, k, l):
        g, b = s.two('gsqrt', k, l), s.two(n, k, l)
        return (b[0] * g[0] + b[1] * g[1]) / (g[0] + g[1])

    def bdotk(s, k, l):
        return s.itheta(k, l) * s.mean('bsubu', k, l) + s.izeta(k, l) * s.mean('bsubv', k, l)

    def jxb(s, k, l):
        return s.ovp * (s.itheta(k, l) * s.bsup('bsupv', k, l) - s.izeta(k, l) * s.bsup('bsupu', k, l))

    def kp2(s, k, l):
        ku, kv = s.mean('bsubv', k, l) * s.pp / s.bsq2(k, l), s.mean('bsubu', k, l) * s.pp / s.bsq2(k, l)
        return ku * ku * s.mean('guu', k, l) + 2 * ku * kv * s.mean('guv', k, l) + kv * kv * s.mean('gvv', k, l)

    def avg(s, f):
        return S2(s.E, s.v, lambda k, l: f(k, l) * s.o('wInt', l))

    @property
    def norm(s):
        return s.pi2 * s.ovp * s.v.sgn


def inner(f, extrapolate=False, edge=None):
    """value f(JxB, digits) on interior surfaces; linear extrapolation (or the given value) at axis and edge"""
    def spec(E, v, o, j, *d):
        at = lambda q: f(JxB(E, v, o, q), *d)
        def end(a, b):
            return 2 * at(a) - at(b) if extrapolate else 0
        return lazy_branch(E, E.eq(j, 0), lambda: end(1, 2), lambda: lazy_branch(E, E.eq(j, v.ns - 1), lambda: edge if edge is not None else end(v.ns - 2, v.ns - 3), lambda: at(j)))
    return spec


done_ = lambda E, v: E.or_(E.eq(v.status, 11), v.always)
conv = lambda f: lambda E, v, o, j, *d: lazy_branch(E, done_(E, v), lambda: f(E, v, o, j, *d), lambda: 0)


def jxb(name, ret):
    K = oq(name, 'ComputeJxBOutputFileContents', 'dVdsH presH phipH phiF gsqrt total_pressure bsubu bsubv bsupu bsupv guu guv gvv'.split(),
           dict(bs=('BSubSFull', dict(bsubs_full=full)), d=('CovariantBDerivatives', dict(bsubsu=full, bsubsv=full, bsubuv=half, bsubvu=half))), params='s f v bs d always status', minns=4, ret=ret)
    K.opaque_scans = True      # the extremes of the force residual are left open
    K.ints['status'] = (0, 11)
    K.bools = K.bools + ['always']

    def gen(r, v, g=K.gen):
        g(r, v)
        v.status = r.choice([0, 11, 11])
    K.gen = gen
    K.rng.update(dVdsH=(.5, 2), gsqrt=(.5, 2), total_pressure=(2, 3))
    K.extra_args = lambda v: dict(always=v.always, status=v.status)
    for n in 'itheta izeta bdotk jsupu3 jsupv3 bsupu3 bsupv3 jcrossb jxb_gradp jdotb_sqrtg sqrtg3 bsubs3'.split():
        K.local_shapes[n] = full
    for n in 'jsups3 bsubu3 bsubv3'.split():
        K.local_shapes[n] = half
    for n in 'sqgb2 kperpu kperpv kp2 sqrtg bsupu1 bsupv1 bsubu1 bsubv1 jxb'.split():
        K.local_shapes[n] = lambda v: (v.nZeta, v.nth)
    done(K, 'const bool always = C.b("always"); const auto status = static_cast<vmecpp::VmecStatus>(C.i("status"));')
    return K


below = lambda f: lambda E, v, o, j, k, l: lazy_branch(E, E.and_(done_(E, v), j < v.ns - 2), lambda: f(E, v, o, j, k, l), lambda: 0)
jxb('current_density', dict(
    itheta=(full, inner(lambda x, k, l: x.itheta(k, l))), izeta=(full, inner(lambda x, k, l: x.izeta(k, l), True)), bdotk=(full, inner(lambda x, k, l: x.bdotk(k, l))),
    jsupu3=(full, conv(inner(lambda x, k, l: x.ovp * x.itheta(k, l)))), jsupv3=(full, conv(inner(lambda x, k, l: x.ovp * x.izeta(k, l)))),
    bsupu3=(full, conv(inner(lambda x, k, l: x.bsup('bsupu', k, l)))), bsupv3=(full, conv(inner(lambda x, k, l: x.bsup('bsupv', k, l)))),
    jcrossb=(full, conv(inner(lambda x, k, l: x.jxb(k, l)))), jxb_gradp=(full, conv(inner(lambda x, k, l: x.jxb(k, l) - x.pp * x.ovp))),
    jdotb_sqrtg=(full, conv(inner(lambda x, k, l: x.ovp * x.bdotk(k, l)))), sqrtg3=(full, conv(inner(lambda x, k, l: x.ovp * x.mean('gsqrt', k, l)))),
    bsubs3=(full, conv(inner(lambda x, k, l: x.o('bsubs_full', x.j, k, l)))),
    jsups3=(half, below(lambda E, v, o, j, k, l: (o('bsubuv', j, k, l) - o('bsubvu', j, k, l)) / (o('dVdsH', j) * 4 * E.pi * E.pi * (4.0e-7 * E.pi)))),
    bsubu3=(half, below(lambda E, v, o, *i: o('bsubu', *i))), bsubv3=(half, below(lambda E, v, o, *i: o('bsubv', *i)))))
jxb('surface_averages', dict(
    avforce=(F1, inner(lambda x: x.avg(lambda k, l: x.jxb(k, l) - x.pp * x.ovp))), pprim=(F1, inner(lambda x: x.avg(lambda k, l: x.pp * x.ovp), True)),
    jdotb=(F1, inner(lambda x: x.norm * x.avg(x.bdotk), True)), bdotb=(F1, inner(lambda x: x.norm * x.avg(x.bsq2), True)),
    bdotgradv=(F1, inner(lambda x: x.norm * (x.o('phipH', x.j) + x.o('phipH', x.j - 1)) / 2, True)),
    jpar2=(F1, inner(lambda x: x.norm * x.avg(lambda k, l: x.bdotk(k, l) * x.bdotk(k, l) / x.bsq2(k, l)))),
    jperp2=(F1, inner(lambda x: x.norm * x.avg(lambda k, l: x.kp2(k, l) * x.mean('gsqrt', k, l)))),
    phin=(F1, lambda E, v, o, j: lazy_branch(E, E.eq(j, v.ns - 1), lambda: 1, lambda: lazy_branch(E, E.and_(done_(E, v), j > 0), lambda: o('phiF', j) / o('phiF', v.ns - 1), lambda: 0)))))
