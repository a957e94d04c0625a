"""radial input profiles: every parameterization, its dispatch, and the profiles on the radial grids"""
from vc.contract import *
from vc.heap import powi

SRC = 'vmecpp/vmec/radial_profiles/radial_profiles.cc'
SOURCES = [SRC, 'vmecpp/vmec/vmec_constants/vmec_constants.cc', 'vmecpp/vmec/radial_partitioning/radial_partitioning.cc', 'vmecpp/vmec/handover_storage/handover_storage.cc', 'vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc']
CONTRACTS = []
ASSUME = ['std::upper_bound / lower_bound by their standard contract on the sorted knots',
          'exp, atan, tanh and pow with a non-integer exponent are uninterpreted: the code must apply them to the same arguments']
CXXFLAGS = []
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <mutex>
#include <thread>
#include <array>
#include <cstdio>
#include <iostream>
#include <map>
#include <span>
#define private public
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"
#undef private
template <class T> static T* Raw() { return (T*)calloc(1, sizeof(T) + 64); }
static vmecpp::RadialProfiles& Prof() { return *Raw<vmecpp::RadialProfiles>(); }
'''


def add(K):
    K.load = lambda: cfront.with_anonymous(SRC)
    CONTRACTS.append(K)
    return K


def coef(E, v, o, i):
    return lazy_branch(E, v.n > i, lambda: o('c', i), lambda: 0)


def fun(name, func, ret, flag=None, n=(0, 8), nmin=0, more=(), x=(0, 1), crange=None, call=None):
    """a profile function of coefficients c, position x and (optionally) the integration flag"""
    K = Contract(name, SRC, func, 'RadialProfiles')
    K.ints = dict(n=n)
    K.reals = dict(x=x)
    if flag is not None:
        K.bools = []
    K.arrays['c'] = lambda v: (v.n,)
    if crange:
        K.rng['c'] = crange
    K.pre = lambda E, v: [v.n >= nmin, v.x >= x[0], v.x <= x[1]] + [f(E, v) for f in more]
    K.ret = ret
    K.args = lambda K, M: ([K.ref('c'), K.v.x] + ([] if flag is None else [TRUE if flag else FALSE]), Obj('this', 'RadialProfiles', fields={}))
    K.glue = 'auto& p = Prof(); C.out("ret", p.%s(C.e("c"), C.r("x")%s));' % (func, '' if flag is None else (', true' if flag else ', false'))
    return add(K)


def poly(E, v, o, lo, hi, f, x):
    return E.sum(lo, hi, lambda i: f(i) * ipow(E, x, i - lo))


def ipow(E, x, n):
    return x ** n if E.num else powi(P(x), P(n), None)


X = lambda v: v.x
fun('power_series', 'evalPowerSeries', lambda E, v, o: E.sum(0, v.n, lambda i: o('c', i) * ipow(E, v.x, i)), False)
fun('power_series_integrated', 'evalPowerSeries', lambda E, v, o: E.sum(0, v.n, lambda i: o('c', i) * ipow(E, v.x, i + 1) / (i + 1)), True)
fun('power_series_i', 'evalPowerSeriesI', lambda E, v, o: E.sum(0, v.n, lambda i: o('c', i) * ipow(E, v.x, i + 1)))


# ---- analytic parameterizations
def gl_nodes():
    """Gauss-Legendre rule with ten points on [0, 1], as decimal literals (the digits of the reference implementation)"""
    x = [0.01304673574141414, 0.06746831665550774, 0.1602952158504878, 0.2833023029353764, 0.4255628305091844]
    w = [0.03333567215434407, 0.0747256745752903, 0.1095431812579910, 0.1346333596549982, 0.1477621123573764]
    y = [0.5744371694908156, 0.7166976970646236, 0.8397047841495122, 0.9325316833444923, 0.9869532642585859]
    return list(zip(x + y, w + w[::-1]))


def quad(E, f, x):
    """integral of f from 0 to x"""
    s = 0
    for t, w in gl_nodes():
        s = s + w * f(x * t) if E.num else s + P(w) * f(x * P(t))
    return s * x


def gauss(E, v, o, x):
    sq = lambda z: z * z
    edge = E.fn('exp', -sq(1 / o('c', 1)))
    return o('c', 0) * (E.fn('exp', -sq(x / o('c', 1))) - edge), edge


fun('gauss_trunc', 'evalGaussTrunc', lambda E, v, o: gauss(E, v, o, v.x)[0] / (1 - gauss(E, v, o, v.x)[1]), False, n=(2, 5), nmin=2)
fun('gauss_trunc_integrated', 'evalGaussTrunc', lambda E, v, o: quad(E, lambda s: gauss(E, v, o, s)[0], v.x), True, n=(2, 5), nmin=2)


def atans(E, v, o):
    r = coef(E, v, o, 0)
    for k in (1, 5, 9, 13, 17):
        full = lambda k=k: lazy_branch(E, v.n > k + 3, lambda: (2 / E.pi if E.num else P(2 / math.pi)) * o('c', k) * E.fn('atan', o('c', k + 1) * E.pow(v.x, o('c', k + 2)) / E.pow(1 - v.x, o('c', k + 3))), lambda: 0)
        r = r + lazy_branch(E, v.x >= 1, lambda k=k: coef(E, v, o, k), full)
    return r


K = fun('sum_atan', 'evalSumAtan', atans, n=(0, 21), more=[lambda E, v: E.or_(*[E.eq(v.n, k) for k in (0, 1, 5, 9, 13, 17, 21)])], crange=(.4, 1.4))


def gen(r, v):
    v.n = r.choice([0, 1, 5, 9, 13, 17, 21])
    v.x = r.choice([0., 1., .25, .5, r.random(), r.random()])


K.gen = gen


def lorentz(E, v, o):
    c = lambda i: o('c', i)

    def one(w, p, q):
        g = lambda s: 1 / E.pow(1 + E.pow(s / (c(w) * c(w)), c(p)), c(q))
        return (g(v.x) - g(1)) / (1 - g(1))
    return c(0) * (c(1) * one(2, 3, 4) + (1 - c(1)) * one(5, 6, 7))


fun('two_lorentz', 'evalTwoLorentz', lorentz, n=(8, 10), nmin=8, crange=(.4, 1.4))
two = lambda E, v, o, s: o('c', 0) * E.pow(1 - E.pow(s, o('c', 1)), o('c', 2))
fun('two_power', 'evalTwoPower', lambda E, v, o: two(E, v, o, v.x), False, n=(3, 6), nmin=3, crange=(.4, 1.4))
fun('two_power_integrated', 'evalTwoPower', lambda E, v, o: quad(E, lambda s: two(E, v, o, s), v.x), True, n=(3, 6), nmin=3, crange=(.4, 1.4))


def peaks(E, v, o, s):
    g = 1
    for k in (3, 6, 9, 12, 15, 18):
        def term(k=k):
            z = (s - coef(E, v, o, k + 1)) / coef(E, v, o, k + 2)
            return o('c', k) * E.fn('exp', -(z * z))
        g = g + lazy_branch(E, v.n > k, lambda: lazy_branch(E, E.ne(o('c', k), 0), term, lambda: 0), lambda: 0)
    return two(E, v, o, s) * g


GS = [lambda E, v: E.or_(*[E.eq(v.n, k) for k in (3, 6, 9, 21)])]
for nm, fl in (('two_power_gs', False), ('two_power_gs_integrated', True)):
    K = fun(nm, 'evalTwoPowerGs', (lambda E, v, o: quad(E, lambda s: peaks(E, v, o, s), v.x)) if fl else (lambda E, v, o: peaks(E, v, o, v.x)), fl, n=(3, 21), nmin=3, more=GS, crange=(.4, 1.4))

    def gen(r, v):
        v.n = r.choice([3, 6, 9, 21])
    K.gen = gen

fun('nice_quadratic', 'evalNiceQuadratic', lambda E, v, o: coef(E, v, o, 0) * (1 - v.x) + coef(E, v, o, 1) * v.x + 4 * coef(E, v, o, 2) * v.x * (1 - v.x), n=(0, 5))


def rational(E, v, o):
    num = 0
    for i in range(10):
        num = num + coef(E, v, o, i) * v.x ** i
    # sum of c_i x^(i-10), highest power first
    den = lazy_branch(E, v.n <= 10, lambda: 0, lambda: E.sum(0, v.n - 10, lambda t: o('c', v.n - 1 - t) * ipow(E, v.x, v.n - 11 - t)))
    return lazy_branch(E, E.ne(den, 0), lambda: num / den, lambda: BIG)


BIG = 1.7976931348623157e308
K = fun('rational', 'evalRational', rational, n=(0, 14), crange=(.4, 1.4))


def ped(E, v, o, cur):
    c = lambda i: coef(E, v, o, i)
    th = lambda z: E.fn('tanh', z)
    s = 0
    if not cur:
        for i in range(16):
            s = s + c(i) * v.x ** i
        w, a, p = 19, 17, 18
        norm = lambda: 1 / (th(2 * c(p) / c(w)) - th(2 * (c(p) - 1) / c(w)))
        return s + lazy_branch(E, c(w) <= 0, lambda: 0, lambda: norm() * c(a) * (th(2 * (c(p) - E.sqrt(v.x)) / c(w)) - th(2 * (c(p) - 1) / c(w))))
    for i in range(8):
        s = s + c(i) * v.x ** (i + 1) / (i + 1 if E.num else P(i + 1))
    w, a, p = 11, 8, 10
    norm = lambda: 1 / (th(2 * c(p) / c(w)) - th(2 * (c(p) - 1) / c(w)))
    s = s + lazy_branch(E, c(w) <= 0, lambda: 0, lambda: norm() * c(a) * (th(2 * c(p) / c(w)) - th(2 * (c(p) - E.sqrt(v.x)) / c(w))))
    for a, b, w in ((13, 15, 16), (17, 19, 20)):
        ww = max(c(w), 0.01) if E.num else E.ite(c(w) < P(0.01), P(0.01), c(w))
        s = s + c(a) * (th((v.x - c(b)) / ww) - th(-c(b) / ww))
    return s


for nm, cur in (('pedestal_pressure', False), ('pedestal_current', True)):
    K = fun(nm, 'evalPedestal', lambda E, v, o, cur=cur: ped(E, v, o, cur), cur, n=(0, 21), crange=(-1.4, 1.4), more=[lambda E, v: E.or_(*[E.eq(v.n, k) for k in (0, 1, 8, 12, 16, 21)])])

    def gen(r, v):
        v.n = r.choice([0, 1, 8, 12, 16, 21, 21, 21])
    K.gen = gen


# ---- tabulated profiles
def knots(name, func, ret, nmin=2, cls='RadialProfiles', x=(-.2, 1.3)):
    """knots xs (strictly increasing), values ys; ghost counts: seg knots are <= x, segl knots are < x"""
    K = Contract(name, SRC, func, cls)
    K.ints = dict(n=(nmin, nmin + 5), seg=(0, 1), segl=(0, 1))
    K.reals = dict(x=x)
    K.arrays = {'xs': lambda v: (v.n,), 'ys': lambda v: (v.n,)}
    K.pre = lambda E, v: [v.n >= nmin, v.segl >= 0, v.segl <= v.seg, v.seg <= v.segl + 1, v.seg <= v.n]

    def facts(E, v, o, i):
        a = o('xs', i)
        return E.implies(E.and_(i >= 0, i < v.n), E.and_(E.implies(i < v.seg, a <= v.x), E.implies(i >= v.seg, a > v.x), E.implies(i < v.segl, a < v.x), E.implies(i >= v.segl, a >= v.x),
                                                         E.implies(i + 1 < v.n, a < o('xs', i + 1)), E.implies(i >= 1, o('xs', i - 1) < a)))
    K.array_facts = {'xs': facts}

    def fill(r, v, arr):
        s, a = arr['xs']
        z = r.choice([0., 0., r.uniform(.05, .2)])
        k = sorted(r.uniform(z, 1) for _ in range(len(a)))
        k[0] = z
        if r.random() < .5:
            k[-1] = 1.
        a[:] = k
        v.x = r.choice([r.uniform(z, a[-1]), r.uniform(z, a[-1]), r.uniform(-.1, 1.2), r.choice(k), k[-1], 1., (k[-2] + k[-1]) / 2])
        v.seg = sum(1 for t in k if t <= v.x)
        v.segl = sum(1 for t in k if t < v.x)
    K.fill = fill
    K.ret = ret
    K.args = lambda K, M: ([K.ref('xs'), K.ref('ys'), K.v.x], Obj('this', 'RadialProfiles', fields={}))

    def bound(which):
        def f(M, st, this, a):
            b, e, x = a
            M.oblige('pre', '%s_bound: whole range of the knots' % which, st, f_and(TRUE if isinstance(b, ArrRef) and isinstance(e, ArrRef) and b.block is K.block('xs') and e.block is b.block else FALSE, eq(b.off, ZERO), eq(e.off, P(K.v.n)), eq(P(x), P(K.v.x))))
            return ArrRef(b.block, b.pre, P(K.v.seg if which == 'upper' else K.v.segl))
        return f
    K.contracts = {'upper_bound': bound('upper'), 'lower_bound': bound('lower')}
    K.glue = 'auto& p = Prof(); C.out("ret", p.%s(C.e("xs"), C.e("ys"), C.r("x")));' % func
    return add(K)


def linear(E, v, o):
    """piecewise linear through the knots, constant outside"""
    k = v.seg if not E.num else sum(1 for i in range(v.n) if o('xs', i) <= v.x)

    def inside():
        x0, x1, y0, y1 = o('xs', k - 1), o('xs', k), o('ys', k - 1), o('ys', k)
        return y0 + (v.x - x0) / (x1 - x0) * (y1 - y0)
    return lazy_branch(E, E.eq(k, 0), lambda: o('ys', 0), lambda: lazy_branch(E, E.eq(k, v.n), lambda: o('ys', v.n - 1), inside))


knots('line_segment', 'evalLineSegment', linear)


def linear_int(E, v, o):
    """integral from 0 to x"""
    y = linear(E, v, o)
    k = v.segl if not E.num else sum(1 for i in range(v.n) if o('xs', i) < v.x)
    trap = lambda i: (o('ys', i) + o('ys', i + 1)) * (o('xs', i + 1) - o('xs', i)) * E.frac(1, 2)
    return lazy_branch(E, k <= 0, lambda: (o('ys', 0) + y) * v.x * E.frac(1, 2), lambda: o('ys', 0) * o('xs', 0) + E.sum(0, k - 1, trap) + (o('ys', k - 1) + y) * (v.x - o('xs', k - 1)) * E.frac(1, 2))


K = knots('line_segment_integrated', 'evalLineSegmentIntegrated', linear_int)
K.exit_witness = lambda v: [v.segl - 1]


# ---- fluxes
POLY = {'aphi': 0, 'am': 0, 'ai': 0, 'ac': 0}


def body_of(E, v, o, n, x):
    """profile n at x: uninterpreted in the proof (its own contract above), the power series in concrete runs"""
    if not E.num:
        return E.fn('profile_' + n, x)
    c = [o(n, i) for i in range(3)]
    if n == 'ac':
        return sum(c[i] * x ** (i + 1) / (i + 1) for i in range(3))
    return sum(c[i] * x ** i for i in range(3))


def tor(E, v, o, x):
    return sum(o('aphi', i) * x ** (i + 1) for i in range(2)) if E.num else E.fn('torflux', x)


def dtor(E, v, o, x):
    return sum(o('aphi', i) * (i + 1) * x ** i for i in range(2)) if E.num else E.fn('torfluxDeriv', x)


def mn(E, a, b):
    return min(a, b) if E.num else E.ite(P(b) < P(a), b, a)


def dpol(E, v, o, x):
    return body_of(E, v, o, 'ai', mn(E, tor(E, v, o, x), 1)) * dtor(E, v, o, x)


ID = 'am am_aux_s am_aux_f ai ai_aux_s ai_aux_f ac ac_aux_s ac_aux_f aphi'.split()
SETUP = '''auto& id = *Raw<vmecpp::VmecINDATA>(); auto& r = *Raw<vmecpp::RadialPartitioning>(); auto& h = *Raw<vmecpp::HandoverStorage>(); auto& fc = *Raw<vmecpp::FlowControl>();
auto& p = *new vmecpp::RadialProfiles(&r, &h, &id, &fc, (int)C.i("sgn"), C.r("pDamp"));
id.aphi = C.e("aphi"); id.am = C.e("am"); id.ai = C.e("ai"); id.ac = C.e("ac"); id.bloat = C.r("bloat"); id.gamma = C.r("gamma"); id.phiedge = C.r("phiedge"); id.curtor = C.r("curtor"); id.spres_ped = C.r("spres_ped"); id.pres_scale = C.r("pres_scale");
p.pmassType = p.piotaType = p.pcurrType = vmecpp::ProfileParameterization::POWER_SERIES; p.pressureScalingFactor = C.r("psf"); p.maxToroidalFlux = C.r("maxT"); p.maxPoloidalFlux = C.r("maxP");
'''
REALS = 'bloat gamma phiedge curtor spres_ped pres_scale psf maxT maxP x pDamp currv Itor'.split()


def prof(name, func, glue, nparams=None):
    K = Contract(name, SRC, func, 'RadialProfiles', nparams)
    K.ints = dict(sgn=(-1, 1), naphi=(2, 2), tm=(0, 22), ti=(0, 22), tc=(0, 22))
    for n in ID:
        if n != 'aphi':
            K.ints['n_' + n] = (3, 3)
    K.reals = {n: (.3, 1.2) for n in REALS}
    K.arrays = {n: (lambda v, n=n: (v['n_' + n] if n != 'aphi' else v.naphi,)) for n in ID}
    K.rng = {n: (.2, 1.5) for n in ID}
    K.pre = lambda E, v: [v.naphi >= 0] + [v['n_' + n] >= 0 for n in ID if n != 'aphi'] + [E.or_(E.eq(v.sgn, 1), E.eq(v.sgn, -1))]

    def gen(r, v):
        v.sgn = r.choice([-1, 1])
        v.x = r.choice([0., 1., r.random(), r.random()])
        v.bloat = r.choice([1., 1.3])
        v.spres_ped = r.choice([1., .45, r.random()])
        v.curtor = r.choice([0., 2.5, -1.])
    K.gen = gen

    def args(K, M):
        v = K.v
        f = {n: K.ref(n) for n in ID}
        f.update({n: getattr(v, n) for n in 'bloat gamma phiedge curtor spres_ped pres_scale'.split()})
        K.idobj = Obj('id', 'VmecINDATA', fields=f)
        t = Obj('this', 'RadialProfiles', fields=dict(id_=K.idobj, signOfJacobian=v.sgn, pDamp=v.pDamp, pmassType=v.tm, piotaType=v.ti, pcurrType=v.tc, pressureScalingFactor=v.psf, maxToroidalFlux=v.maxT, maxPoloidalFlux=v.maxP, currv=v.currv, Itor=v.Itor))
        K.this = t
        return [v.x] if func in ('torflux', 'torfluxDeriv', 'polfluxDeriv', 'polflux', 'evalMassProfile', 'evalIotaProfile', 'evalCurrProfile') else [], t
    K.args = args

    def pf(M, st, this, a):
        """evalProfileFunction: must be asked for one of the three input profiles, with all its own data"""
        which = [n for n in ('am', 'ai', 'ac') if isinstance(a[1], ArrRef) and a[1].block is K.block(n)]
        ok = len(which) == 1
        if ok:
            n = which[0]
            ok = all(isinstance(q, ArrRef) and q.block is K.block(n + e) for q, e in ((a[2], '_aux_s'), (a[3], '_aux_f')))
            M.oblige('pre', 'profile %s: its own parameterization' % n, st, eq(P(M.load(st, a[0].loc) if isinstance(a[0], RefVal) else a[0]), P(K.v[dict(am='tm', ai='ti', ac='tc')[n]])))
            flag = a[4] if isinstance(a[4], tuple) else ne(P(a[4]), ZERO)
            M.oblige('pre', 'only the current profile is integrated', st, flag if n == 'ac' else fnot(flag))
        M.oblige('pre', 'profile evaluated from its own data', st, TRUE if ok else FALSE)
        return fn('profile_' + (which[0] if which else 'none'), P(a[5]))
    K.contracts = {'evalProfileFunction': pf, 'torflux': lambda M, st, this, a: fn('torflux', P(a[0])), 'torfluxDeriv': lambda M, st, this, a: fn('torfluxDeriv', P(a[0]))}
    K.glue = SETUP + glue
    return add(K)


K = prof('torflux', 'torflux', 'C.out("ret", p.torflux(C.r("x")));')
del K.contracts['torflux']
K.ints['naphi'] = (0, 6)
K.ret = lambda E, v, o: E.sum(0, v.naphi, lambda i: o('aphi', i) * ipow(E, v.x, i + 1))
K = prof('torflux_deriv', 'torfluxDeriv', 'C.out("ret", p.torfluxDeriv(C.r("x")));')
del K.contracts['torfluxDeriv']
K.ints['naphi'] = (0, 6)
K.ret = lambda E, v, o: E.sum(0, v.naphi, lambda i: (i + 1) * o('aphi', i) * ipow(E, v.x, i))
K = prof('polflux_deriv', 'polfluxDeriv', 'C.out("ret", p.polfluxDeriv(C.r("x")));')
K.ret = lambda E, v, o: dpol(E, v, o, v.x)
K = prof('polflux', 'polflux', 'C.out("ret", p.polflux(C.r("x")));')
K.ret = lambda E, v, o: (E.sum(0, 101, lambda i: dpol(E, v, o, i * v.x * E.frac(1, 100))) - (dpol(E, v, o, 0 * v.x) + dpol(E, v, o, v.x)) * E.frac(1, 2)) * v.x * E.frac(1, 100)
mass = lambda E, v, o, x: v.psf * body_of(E, v, o, 'am', mn(E, E.abs(x * v.bloat), 1))
curr = lambda E, v, o, x: body_of(E, v, o, 'ac', mn(E, E.abs(x * v.bloat), 1))
for nm, fc, sp in (('mass_profile', 'evalMassProfile', mass), ('iota_profile', 'evalIotaProfile', lambda E, v, o, x: body_of(E, v, o, 'ai', x)), ('current_profile', 'evalCurrProfile', curr)):
    K = prof(nm, fc, 'C.out("ret", p.%s(C.r("x")));' % fc)
    K.ret = lambda E, v, o, sp=sp: sp(E, v, o, v.x)

K = prof('magnetic_fluxes', 'computeMagneticFluxes', 'p.computeMagneticFluxes(); C.out("maxT", p.maxToroidalFlux); C.out("maxP", p.maxPoloidalFlux);')
K.contracts['polflux'] = lambda M, st, this, a: fn('polflux', P(a[0]))


def polq(E, v, o, x):
    return sum((.5 if i in (0, 100) else 1) * dpol(E, v, o, i * x / 100) for i in range(101)) * x / 100 if E.num else E.fn('polflux', x)


def maxt(E, v, o):
    m, e = v.sgn * v.phiedge / (2 * E.pi), tor(E, v, o, 1)
    return lazy_branch(E, E.ne(e, 0), lambda: m / e, lambda: m)


def maxp(E, v, o):
    m, e = maxt(E, v, o), polq(E, v, o, 1)
    return lazy_branch(E, E.ne(e, 0), lambda: m / e, lambda: m)


K.outs = {'maxT': (lambda K, M, st, val: M.get_field(st, K.this, 'maxToroidalFlux'), maxt), 'maxP': (lambda K, M, st, val: M.get_field(st, K.this, 'maxPoloidalFlux'), maxp)}

# ---- profiles on the radial grids of a partition
HALF = 'phipH chipH iotaH currH massH sqrtSH sm sp'.split()
FULL = 'phipF chipF iotaF sqrtSF radialBlending'.split()
K = prof('radial_grids', 'evalRadialProfiles', '''
r.nsMinF1 = C.i("nsMinF1"); r.nsMinH = C.i("nsMinF1"); r.nsMaxH = C.i("nsMaxH"); r.nsMaxF1 = C.i("nsMaxF1"); fc.ns = C.i("ns"); id.ntor = C.i("ntor"); id.rbc = C.m<decltype(id.rbc)>("rbc", C.i("mpol"), 2 * C.i("ntor") + 1);
''' + ' '.join('p.%s = C.e("%s");' % (n, n) for n in HALF + FULL + ['scalxc']) + ' vmecpp::VmecConstants vc; vc.rmsPhiP = C.r("rms"); p.evalRadialProfiles(C.b("flip"), vc); C.out("rms", vc.rmsPhiP); C.out("Itor", p.Itor); C.out("currv", p.currv);' + ' '.join('C.set("%s", p.%s);' % (n, n) for n in HALF + FULL + ['scalxc']))
K.ints.update(ns=(3, 8), nsMinF1=(0, 4), nsMaxF1=(1, 8), nsMaxH=(0, 7), ntor=(0, 2), mpol=(1, 2))
K.bools = ['flip']
K.reals['rms'] = (.1, 2)
for n in HALF:
    K.arrays[n] = lambda v: (v.nsMaxH - v.nsMinF1,)
for n in FULL:
    K.arrays[n] = lambda v: (v.nsMaxF1 - v.nsMinF1,)
K.arrays['scalxc'] = lambda v: (v.nsMaxF1 - v.nsMinF1, 2)
K.arrays['rbc'] = lambda v: (v.mpol, 2 * v.ntor + 1)
K.rng['rbc'] = (1, 4)
K.pre = (lambda q: lambda E, v: q(E, v) + [v.ns >= 3, v.nsMinF1 >= 0, v.nsMaxF1 <= v.ns, v.nsMinF1 + 2 <= v.nsMaxF1, E.eq(v.nsMaxH, v.nsMaxF1 - 1), v.ntor >= 0, v.mpol >= 1])(K.pre)


def gen(r, v, g=K.gen):
    g(r, v)
    v.ns = r.randint(3, 8)
    v.nsMinF1 = r.choice([0, r.randint(0, v.ns - 2)])
    v.nsMaxF1 = r.choice([v.ns, r.randint(v.nsMinF1 + 2, v.ns)])
    v.nsMaxH = v.nsMaxF1 - 1
    if r.random() < .4:   # either orientation of the toroidal flux
        v.maxT = -v.maxT


K.gen = gen


def args(K, M, a=K.args):
    _, t = a(K, M)
    v = K.v
    t.fields.update({n: K.ref(n) for n in HALF + FULL + ['scalxc']})
    K.block('rbc').matrix = True
    K.idobj.fields.update(ntor=v.ntor, rbc=K.ref('rbc'))
    t.fields['r_'] = Obj('r', 'RadialPartitioning', fields=dict(nsMinF1=v.nsMinF1, nsMinH=v.nsMinF1, nsMaxH=v.nsMaxH, nsMaxF1=v.nsMaxF1))
    t.fields['fc_'] = Obj('fc', 'FlowControl', fields=dict(ns=v.ns))
    K.vc = Obj('vc', 'VmecConstants', fields=dict(rmsPhiP=v.rms))
    return [K.v.flip, K.vc], t


K.args = args
hs = lambda E, v, h: (v.nsMinF1 + h + E.frac(1, 2)) / (v.ns - 1)
fs = lambda E, v, j: (v.nsMinF1 + j) / (v.ns - 1) if E.num else P(v.nsMinF1 + j) / P(v.ns - 1)
# sqrt of the full-grid position; exactly 1 at the edge
rs = lambda E, v, j: lazy_branch(E, E.eq(v.nsMinF1 + j, v.ns - 1), lambda: 1, lambda: E.sqrt(fs(E, v, j)))
mu = lambda E: 4e-7 * math.pi if E.num else P(4e-7) * P(math.pi)
sg = lambda E, v: E.ite(v.flip, -1, 1)
tf = lambda E, v, o, s: mn(E, tor(E, v, o, s), 1)
EPS = 2.220446049250313e-16


def itor(E, v, o):
    e = curr(E, v, o, 1)
    return lazy_branch(E, E.abs(e) > E.abs((EPS if E.num else P(EPS)) * v.curtor), lambda: v.sgn * mu(E) * v.curtor / (2 * E.pi * e), lambda: 0)


K.outs = {'Itor': (lambda K, M, st, val: M.get_field(st, K.this, 'Itor'), itor), 'currv': (lambda K, M, st, val: M.get_field(st, K.this, 'currv'), lambda E, v, o: v.curtor * mu(E)),
          'rms': (lambda K, M, st, val: M.get_field(st, K.vc, 'rmsPhiP'), lambda E, v, o: v.rms + E.sum(0, E.ite(E.eq(v.nsMaxF1, v.ns), v.ns - 1, v.nsMaxH - 1) - v.nsMinF1, lambda h: (v.maxT * dtor(E, v, o, hs(E, v, h))) * (v.maxT * dtor(E, v, o, hs(E, v, h)))))}
K.post = dict(
    sqrtSH=lambda E, v, o, h: E.sqrt(hs(E, v, h)),
    phipH=lambda E, v, o, h: v.maxT * dtor(E, v, o, hs(E, v, h)),
    chipH=lambda E, v, o, h: sg(E, v) * v.maxT * dpol(E, v, o, hs(E, v, h)),
    iotaH=lambda E, v, o, h: sg(E, v) * body_of(E, v, o, 'ai', tf(E, v, o, hs(E, v, h))),
    currH=lambda E, v, o, h: itor(E, v, o) * curr(E, v, o, tf(E, v, o, hs(E, v, h))),
    massH=lambda E, v, o, h: mass(E, v, o, tf(E, v, o, mn(E, hs(E, v, h), v.spres_ped))) * E.pow(E.abs(v.maxT * dtor(E, v, o, hs(E, v, h))) * o('rbc', 0, v.ntor), v.gamma),
    sqrtSF=lambda E, v, o, j: rs(E, v, j),
    phipF=lambda E, v, o, j: v.maxT * dtor(E, v, o, fs(E, v, j)),
    chipF=lambda E, v, o, j: v.maxT * dpol(E, v, o, fs(E, v, j)),
    iotaF=lambda E, v, o, j: body_of(E, v, o, 'ai', tf(E, v, o, fs(E, v, j))),
    radialBlending=lambda E, v, o, j: 2 * v.pDamp * (1 - fs(E, v, j)),
    scalxc=lambda E, v, o, j, q: lazy_branch(E, E.eq(q, 0), lambda: 1, lambda: 1 / mx(E, E.sqrt(fs(E, v, j)), E.sqrt(E.frac(1, 1) / (v.ns - 1) if E.num else P(1) / P(v.ns - 1)))),
    sm=lambda E, v, o, h: E.sqrt(hs(E, v, h)) / rs(E, v, h + 1),
    sp=lambda E, v, o, h: lazy_branch(E, E.eq(v.nsMinF1 + h, 0), lambda: E.sqrt(hs(E, v, h)) / rs(E, v, h + 1), lambda: E.sqrt(hs(E, v, h)) / rs(E, v, h)))
mx = lambda E, a, b: max(a, b) if E.num else E.ite(P(a) < P(b), b, a)

# ---- each parameterization is evaluated by its own function
CALLS = {1: ('evalPowerSeries', 'cf'), 2: ('evalPowerSeriesI', 'c'), 3: ('evalGaussTrunc', 'cf'), 4: ('evalSumAtan', 'c'), 5: ('evalTwoLorentz', 'c'), 6: ('evalTwoPower', 'cf'), 7: ('evalTwoPowerGs', 'cf'), 8: ('evalAkima', 's'),
         9: ('evalAkima', 's'), 10: ('evalAkimaIntegrated', 's'), 11: ('evalCubic', 's'), 12: ('evalCubic', 's'), 13: ('evalCubicIntegrated', 's'), 14: ('evalPedestal', 'cf'), 15: ('evalRational', 'c'), 16: ('evalLineSegment', 's'),
         17: ('evalLineSegment', 's'), 18: ('evalLineSegmentIntegrated', 's'), 19: ('evalNiceQuadratic', 'c')}
K = Contract('dispatch', SRC, 'evalProfileFunction', 'RadialProfiles')
K.ints = dict(n=(21, 21), k=(5, 7), param=(0, 22))
K.bools = ['integrate']
K.reals = dict(x=(0, 1))
K.arrays = {'c': lambda v: (v.n,), 'xs': lambda v: (v.k,), 'ys': lambda v: (v.k,)}
K.rng['c'] = (.4, 1.4)
K.pre = lambda E, v: [v.n >= 0, v.k >= 0, v.param >= 0, v.param <= 22]


def fill(r, v, arr):
    s, a = arr['xs']
    a[:] = sorted(r.random() for _ in a)
    a[0], a[-1] = 0., 1.


K.fill = fill


K.cases = 90
K.args = lambda K, M: ([K.v.param, K.ref('c'), K.ref('xs'), K.ref('ys'), K.v.integrate, K.v.x], Obj('this', 'RadialProfiles', fields={}))


def call(nm, kind):
    def f(M, st, this, a):
        K = M.K
        want = [K.block('c')] if kind[0] == 'c' else [K.block('xs'), K.block('ys')]
        M.oblige('pre', '%s: own data' % nm, st, TRUE if all(isinstance(q, ArrRef) and q.block is w for q, w in zip(a, want)) else FALSE)
        M.oblige('pre', '%s: position' % nm, st, eq(P(a[len(want)]), P(K.v.x)))
        if 'f' in kind:
            M.oblige('pre', '%s: integration flag' % nm, st, iff(a[2] if isinstance(a[2], tuple) else ne(P(a[2]), ZERO), K.v.integrate))
        return fn(nm, ONE)
    return f


K.contracts = {nm: call(nm, kd) for nm, kd in CALLS.values()}


def disp(K, M, st, val):
    want = ZERO
    for c, (nm, kd) in CALLS.items():
        want = ite(eq(P(K.v.param), P(c)), fn(nm, ONE), want)
    return ite(eq(P(val) - want, ZERO), ONE, ZERO)


K.outs = {'same': (disp, lambda E, v, o: 1)}
K.glue = 'auto& p = Prof(); for (int i = 0; i < 30; ++i) p.ALL_PARAMS.emplace_back("n", false, false, false, false); auto c = C.e("c"); auto xs = C.e("xs"); auto ys = C.e("ys"); double x = C.r("x"), w = 0.0; bool f = C.b("integrate"); switch (C.i("param")) {' + ''.join(
    'case %d: w = p.%s(%s); break;' % (c, nm, {'c': 'c, x', 'cf': 'c, x, f', 's': 'xs, ys, x'}[kd]) for c, (nm, kd) in CALLS.items()) + '} C.out("same", p.evalProfileFunction((vmecpp::ProfileParameterization)C.i("param"), c, xs, ys, f, x) == w ? 1.0 : 0.0);'
add(K)

# ---- names and applicability: the whole table, exhaustively
NAMES = '---invalid---:- power_series:pci power_series_i:c gauss_trunc:pc sum_atan:ci two_lorentz:p two_power:pc two_power_gs:pc akima_spline:pi akima_spline_i:c akima_spline_ip:c cubic_spline:pi cubic_spline_i:c cubic_spline_ip:c pedestal:pc rational:pci line_segment:pi line_segment_i:c line_segment_ip:c nice_quadratic:i sum_cossq_s:c sum_cossq_sqrts:c sum_cossq_s_free:c'.split()
K = Contract('names', SRC, 'findParameterization', 'RadialProfiles')
K.bounded = 'string comparison against the table of names: all 23 names and an unknown one, for all three profiles, are run instead (exhaustive over the table)'
K.ints = dict(one=(1, 1))
K.outs = {}
K.args = lambda K, M: ([], None)
K.glue = 'auto& p = Prof(); p.setupProfileParameterizations(); using vmecpp::ProfileType; C.out("unknown", (double)(int)p.findParameterization("power_serie", ProfileType::PRESSURE));'
for _i, _s in enumerate(NAMES):
    _n, _a = _s.split(':')
    for _t, _e in (('p', 'PRESSURE'), ('c', 'CURRENT'), ('i', 'IOTA')):
        K.outs['%s_%s' % (_n, _t)] = (lambda K, M, st, val: ZERO, lambda E, v, o, w=(_i if _t in _a else 0): w)
        K.glue += 'C.out("%s_%s", (double)(int)p.findParameterization("%s", ProfileType::%s));' % (_n, _t, _n, _e)
K.outs['unknown'] = (lambda K, M, st, val: ZERO, lambda E, v, o: 0)
add(K)

# ---- volume-averaged spectral width
K = Contract('spectral_width_average', SRC, 'AccumulateVolumeAveragedSpectralWidth', 'RadialProfiles')
K.ints.update(ns=(3, 8), nsMinF1=(0, 4), nsMaxF1=(1, 8), nsMaxH=(0, 7))
K.reals = dict(num=(.1, 2), den=(.1, 2))
K.arrays = {'spectral_width': lambda v: (v.nsMaxF1 - v.nsMinF1,), 'dVdsH': lambda v: (v.nsMaxH - v.nsMinF1,)}
K.pre = lambda E, v: [v.ns >= 3, v.nsMinF1 >= 0, v.nsMaxF1 <= v.ns, v.nsMinF1 + 2 <= v.nsMaxF1, E.eq(v.nsMaxH, v.nsMaxF1 - 1)]


def gen(r, v):
    v.ns = r.randint(3, 8)
    v.nsMinF1 = r.choice([0, r.randint(0, v.ns - 2)])
    v.nsMaxF1 = r.choice([v.ns, r.randint(v.nsMinF1 + 2, v.ns)])
    v.nsMaxH = v.nsMaxF1 - 1


K.gen = gen


def args(K, M):
    v = K.v
    K.h = Obj('h', 'HandoverStorage', fields=dict(spectral_width_numerator_=v.num, spectral_width_denominator_=v.den))
    return [], Obj('this', 'RadialProfiles', fields=dict(m_h_=K.h, r_=Obj('r', 'RadialPartitioning', fields=dict(nsMinF1=v.nsMinF1, nsMinH=v.nsMinF1, nsMaxH=v.nsMaxH, nsMaxF1=v.nsMaxF1)), fc_=Obj('fc', 'FlowControl', fields=dict(ns=v.ns)),
                                                         spectral_width=K.ref('spectral_width'), dVdsH=K.ref('dVdsH')))


K.args = args
own = lambda E, v: E.ite(E.eq(v.nsMaxF1, v.ns), v.ns - 1, v.nsMaxH - 1) - v.nsMinF1


def reg(M, st, this, a):
    K = M.K
    c = a[0]
    g = lambda n: M.get_field(st, c, n)
    M.set_field(st, K.h, 'spectral_width_numerator_', P(M.get_field(st, K.h, 'spectral_width_numerator_')) + P(g('numerator')))
    M.set_field(st, K.h, 'spectral_width_denominator_', P(M.get_field(st, K.h, 'spectral_width_denominator_')) + P(g('denominator')))


K.contracts = {'RegisterSpectralWidthContribution': reg}
K.outs = {'num': (lambda K, M, st, val: M.get_field(st, K.h, 'spectral_width_numerator_'), lambda E, v, o: v.num + E.sum(0, own(E, v), lambda h: (o('spectral_width', h) + o('spectral_width', h + 1)) * E.frac(1, 2) * o('dVdsH', h))),
          'den': (lambda K, M, st, val: M.get_field(st, K.h, 'spectral_width_denominator_'), lambda E, v, o: v.den + E.sum(0, own(E, v), lambda h: o('dVdsH', h)))}
K.glue = '''auto& id = *Raw<vmecpp::VmecINDATA>(); auto& r = *Raw<vmecpp::RadialPartitioning>(); auto& h = *Raw<vmecpp::HandoverStorage>(); auto& fc = *Raw<vmecpp::FlowControl>();
auto& p = *new vmecpp::RadialProfiles(&r, &h, &id, &fc, 1, .1);
r.nsMinF1 = r.nsMinH = C.i("nsMinF1"); r.nsMaxH = C.i("nsMaxH"); r.nsMaxF1 = C.i("nsMaxF1"); fc.ns = C.i("ns"); h.spectral_width_numerator_ = C.r("num"); h.spectral_width_denominator_ = C.r("den");
p.spectral_width = C.e("spectral_width"); p.dVdsH = C.e("dVdsH"); p.AccumulateVolumeAveragedSpectralWidth(); C.out("num", h.spectral_width_numerator_); C.out("den", h.spectral_width_denominator_);'''
add(K)


# ---- splines
def ext(E, v, o):
    """the knots and values continued by two points on either side: positions reflected, values on the parabola through the three nearest knots"""
    n = v.n
    x = lambda i: o('xs', i)
    y = lambda i: o('ys', i)
    m = lambda i: (y(i + 1) - y(i)) / (x(i + 1) - x(i))
    c0 = lambda: (m(1) - m(0)) / (x(2) - x(0))
    c1 = lambda: (m(n - 2) - m(n - 3)) / (x(n - 1) - x(n - 3))
    lo = lambda t: y(0) + (m(0) - c0() * (x(1) - x(0))) * (t - x(0)) + c0() * (t - x(0)) * (t - x(0))
    hi = lambda t: y(n - 1) + (m(n - 2) - c1() * (x(n - 2) - x(n - 1))) * (t - x(n - 1)) + c1() * (t - x(n - 1)) * (t - x(n - 1))

    def sel(i, a, b, mid, c, d):
        return lazy_branch(E, E.eq(i, -2), a, lambda: lazy_branch(E, E.eq(i, -1), b, lambda: lazy_branch(E, E.eq(i, n), c, lambda: lazy_branch(E, E.eq(i, n + 1), d, lambda: mid(i)))))
    X = lambda i: sel(i, lambda: 2 * x(0) - x(2), lambda: x(0) + x(1) - x(2), x, lambda: x(n - 1) + x(n - 2) - x(n - 3), lambda: 2 * x(n - 1) - x(n - 3))
    Y = lambda i: sel(i, lambda: lo(X(-2)), lambda: lo(X(-1)), y, lambda: hi(X(n)), lambda: hi(X(n + 1)))
    return X, Y, lambda i: (Y(i + 1) - Y(i)) / (X(i + 1) - X(i))


def akima_slope(E, v, o, i):
    """Akima's slope at knot i: the two neighbouring slopes weighted with the changes of slope on the other side"""
    X, Y, m = ext(E, v, o)
    w1, w2 = E.abs(m(i + 1) - m(i)), E.abs(m(i - 1) - m(i - 2))
    return lazy_branch(E, E.ne(w1 + w2, 0), lambda: (w1 * m(i - 1) + w2 * m(i)) / (w1 + w2), lambda: (m(i - 1) + m(i)) * E.frac(1, 2))


def akima_coeffs(E, v, o, i):
    h = o('xs', i + 1) - o('xs', i)
    m = (o('ys', i + 1) - o('ys', i)) / h
    t0, t1 = akima_slope(E, v, o, i), akima_slope(E, v, o, i + 1)
    return o('ys', i), t0, (3 * m - t1 - 2 * t0) / h, (t1 + t0 - 2 * m) / (h * h)


BUILT = 'the coefficients of the spline (BuildAkimaCoeffs / BuildCubicSecondDerivatives) enter this proof as given arrays; that they are the right ones is checked by concrete runs only (bounded: 4 to 9 knots) against an independent construction in the contract'


def spline(name, func, ret, cubic):
    """ghosts: xl = the knots (Akima: shifted by the two continuation points), A..D / y2 the coefficient arrays, seg the number of knots <= x"""
    K = Contract(name, SRC, func, 'RadialProfiles')
    sh = 0 if cubic else 2
    K.ints = dict(n=(4, 9), seg=(0, 1))
    K.reals = dict(x=(-.2, 1.3))
    K.arrays = {'xs': lambda v: (v.n,), 'ys': lambda v: (v.n,)}
    ghosts = ['y2'] if cubic else ['xl', 'A', 'B', 'C', 'D']
    for g in ghosts:
        K.arrays[g] = lambda v: (v.n + 2 * sh,)
    K.pre = lambda E, v: [v.n >= 4, v.seg >= 0, v.seg <= v.n]

    def facts(E, v, o, i):
        nm = 'xs' if cubic else 'xl'
        a, q = o(nm, i), i - sh
        return E.implies(E.and_(q >= 0, q < v.n), E.and_(E.implies(q < v.seg, a <= v.x), E.implies(q >= v.seg, a > v.x), E.implies(q + 1 < v.n, a < o(nm, i + 1)), E.implies(q >= 1, o(nm, i - 1) < a)))
    K.array_facts = {'xs' if cubic else 'xl': facts}

    def fill(r, v, arr):
        s, a = arr['xs']
        k = sorted(r.random() for _ in range(len(a)))
        k[0] = r.choice([0., 0., k[0]])
        if r.random() < .5:
            k[-1] = 1.
        for q in range(1, len(k)):
            k[q] = max(k[q], k[q - 1] + .02)
        a[:] = k
        if r.random() < .3:
            # locally linear data: the weights vanish
            b = arr['ys'][1]
            for q in range(len(b)):
                b[q] = .5 + 2 * k[q] if q < 4 else b[q]
        v.x = r.choice([r.uniform(k[0], k[-1]), r.uniform(k[0], k[-1]), r.uniform(-.1, 1.2), r.choice(k), k[-1], (k[-2] + k[-1]) / 2])
        v.seg = sum(1 for t in k if t <= v.x)
    K.fill = fill
    K.ret = ret
    K.args = lambda K, M: ([K.ref('xs'), K.ref('ys'), K.v.x], Obj('this', 'RadialProfiles', fields={}))

    def same(M, st, a, nm):
        K = M.K
        M.oblige('pre', '%s: the knots and the values' % nm, st, TRUE if all(isinstance(q, ArrRef) and q.block is K.block(w) for q, w in zip(a, ('xs', 'ys'))) else FALSE)

    def build(M, st, this, a):
        same(M, st, a, 'BuildAkimaCoeffs')
        K = M.K
        return Obj('coeffs', 'AkimaCoeffs', fields=dict(iv=P(K.v.n), xloc=K.ref('xl'), a=K.ref('A'), b=K.ref('B'), c=K.ref('C'), d=K.ref('D')))

    def second(M, st, this, a):
        same(M, st, a, 'BuildCubicSecondDerivatives')
        return M.K.ref('y2')

    def lower(M, st, this, a):
        K = M.K
        M.oblige('pre', 'CubicLowerIndex: the knots and x', st, f_and(TRUE if isinstance(a[0], ArrRef) and a[0].block is K.block('xs') else FALSE, eq(P(a[1]), P(K.v.x))))
        return low(SymE(), K.v)
    K.contracts = {'BuildAkimaCoeffs': build, 'BuildCubicSecondDerivatives': second, 'CubicLowerIndex': lower}
    K.exit_witness = lambda v: [v.seg]
    K.glue = 'auto& p = Prof(); C.out("ret", p.%s(C.e("xs"), C.e("ys"), C.r("x")));' % func
    K.notes = [BUILT]
    K.rtol = 1e-8
    K.cases = 24
    return add(K)


def low(E, v):
    """knot below x: the largest index < n - 1 whose knot is <= x"""
    if E.num:
        return min(max(v.seg - 1, 0), v.n - 2)
    return E.ite(v.seg <= 0, 0, E.ite(v.seg >= v.n, v.n - 2, v.seg - 1))


def ak(E, v, o):
    """X, and the coefficients of the segment that starts at knot i (0-based)"""
    if E.num:
        return lambda i: o('xs', i), lambda i: akima_coeffs(E, v, o, i)
    return lambda i: o('xl', i + 2), lambda i: [o(n, i + 2) for n in 'ABCD']


def akima(E, v, o):
    X, cf = ak(E, v, o)

    def inside():
        i = v.seg - 1
        a, b, c, d = cf(i)
        t = v.x - X(i)
        return a + b * t + c * t * t + d * t * t * t
    return lazy_branch(E, E.or_(v.x < X(0), v.x > X(v.n - 1)), lambda: 0, lambda: lazy_branch(E, E.eq(v.x, X(v.n - 1)), lambda: o('ys', v.n - 1), inside))


def akima_int(E, v, o):
    X, cf = ak(E, v, o)

    def piece(i, t):
        a, b, c, d = cf(i)
        third = E.frac(1, 3)
        return a * t + b * t * t * E.frac(1, 2) + c * t * t * t * third + d * t * t * t * t * E.frac(1, 4)
    whole = lambda k: E.sum(0, k, lambda i: piece(i, X(i + 1) - X(i)))
    return lazy_branch(E, v.x <= X(0), lambda: 0, lambda: lazy_branch(E, v.x >= X(v.n - 1), lambda: whole(v.n - 1), lambda: whole(v.seg - 1) + piece(v.seg - 1, v.x - X(v.seg - 1))))


spline('akima', 'evalAkima', akima, False)
spline('akima_integrated', 'evalAkimaIntegrated', akima_int, False)


def second_derivatives(v, o):
    """concrete oracle: Gaussian elimination on the defining equations of the cubic spline (continuous first derivative; end slopes of the parabola through three points)"""
    n = v.n
    x = [o('xs', i) for i in range(n)]
    y = [o('ys', i) for i in range(n)]

    def slope(i, j, k):
        # derivative at x_i of the parabola through knots i, j, k
        d = lambda p, q: (y[p] - y[q]) / (x[p] - x[q])
        c = (d(k, i) - d(j, i)) / (x[k] - x[j])
        return d(j, i) - c * (x[j] - x[i])
    A = [[0.] * (n + 1) for _ in range(n)]
    for i in range(1, n - 1):
        h0, h1 = x[i] - x[i - 1], x[i + 1] - x[i]
        A[i][i - 1], A[i][i], A[i][i + 1] = h0 / 6, (h0 + h1) / 3, h1 / 6
        A[i][n] = (y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0
    h = x[1] - x[0]
    A[0][0], A[0][1], A[0][n] = h / 3, h / 6, (y[1] - y[0]) / h - slope(0, 1, 2)
    h = x[-1] - x[-2]
    A[n - 1][n - 1], A[n - 1][n - 2], A[n - 1][n] = h / 3, h / 6, slope(n - 1, n - 2, n - 3) - (y[-1] - y[-2]) / h
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c] / A[c][c]
                A[r] = [a - f * b for a, b in zip(A[r], A[c])]
    return [A[i][n] / A[i][i] for i in range(n)]


def y2_of(E, v, o):
    if E.num:
        z = second_derivatives(v, o)
        return lambda i: z[i]
    return lambda i: o('y2', i)


def cubic(E, v, o):
    X, Y, Z = (lambda i: o('xs', i)), (lambda i: o('ys', i)), y2_of(E, v, o)

    def inside():
        k = low(E, v)
        h = X(k + 1) - X(k)
        a, b = (X(k + 1) - v.x) / h, (v.x - X(k)) / h
        return a * Y(k) + b * Y(k + 1) + ((a * a * a - a) * Z(k) + (b * b * b - b) * Z(k + 1)) * h * h * E.frac(1, 6)
    return lazy_branch(E, E.or_(v.x < X(0), v.x > X(v.n - 1)), lambda: 0, inside)


def cubic_int(E, v, o):
    X, Y, Z = (lambda i: o('xs', i)), (lambda i: o('ys', i)), y2_of(E, v, o)

    def whole(i):
        h = X(i + 1) - X(i)
        return h * (Y(i) + Y(i + 1)) * E.frac(1, 2) - h * h * h * (Z(i) + Z(i + 1)) * E.frac(1, 24)

    def inside():
        # antiderivative of the segment's cubic, between the knot and x
        k = low(E, v)
        h, t = X(k + 1) - X(k), v.x - X(k)
        b = t / h
        part = h * (Y(k) * (b - b * b * E.frac(1, 2)) + Y(k + 1) * b * b * E.frac(1, 2)
                    + h * h * E.frac(1, 6) * (Z(k) * (b * b * b - b * b * b * b * E.frac(1, 4) - b * b) + Z(k + 1) * (b * b * b * b * E.frac(1, 4) - b * b * E.frac(1, 2))))
        return E.sum(0, k, whole) + part
    return lazy_branch(E, E.or_(v.x < X(0), v.x > X(v.n - 1)), lambda: 0, inside)


spline('cubic', 'evalCubic', cubic, True)
spline('cubic_integrated', 'evalCubicIntegrated', cubic_int, True)

# ---- the interval search
K = Contract('cubic_lower_index', SRC, 'CubicLowerIndex', None, filt='vmecpp_local')
K.ints = dict(n=(4, 9), seg=(0, 1))
K.reals = dict(x=(0, 1))
K.arrays = {'xs': lambda v: (v.n,)}
K.pre = lambda E, v: [v.n >= 2, v.seg >= 0, v.seg <= v.n]
K.array_facts = {'xs': lambda E, v, o, i: E.implies(E.and_(i >= 0, i < v.n), E.and_(E.implies(i < v.seg, o('xs', i) <= v.x), E.implies(i >= v.seg, o('xs', i) > v.x)))}
K.args = lambda K, M: [K.ref('xs'), K.v.x]
K.ret = lambda E, v, o: low(E, v)
add(K)


def lower_inv(M, st, st0):
    """the two ends of the search interval, told apart by their start values 0 and n - 1"""
    v = M.K.v
    g = lambda w: [st.env[k] for k, x in st0.env.items() if isinstance(x, Poly) and x == w and isinstance(st.env.get(k), Poly)]
    lo, hi = g(ZERO), g(P(v.n) - 1)
    if len(lo) != 1 or len(hi) != 1:
        return []
    lo, hi = lo[0], hi[0]
    return [le(ZERO, lo), lt(lo, hi), le(hi, P(v.n) - 1), f_or(eq(lo, ZERO), lt(lo, P(v.seg))), f_or(eq(hi, P(v.n) - 1), le(P(v.seg), hi))]


K.loop_inv = lower_inv
