"""surface and volume integrals of the model, flux-surface profiles, force norms"""
from vc.contract import *
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, GEO2, GEO3, BLOCKS

SOURCES, LINKFLAGS, PREAMBLE = mc.SOURCES, mc.LINKFLAGS, mc.PREAMBLE
CHUNK = 1
CONTRACTS = []
half = lambda E: E.frac(1, 2)
c15 = lambda E: E.frac(3, 2)


def ang(E, v, f):
    """sum over the angular grid"""
    return E.sum(0, v.nZeta, lambda k: E.sum(0, v.nThetaEff, lambda l: f(k, l)))


def own_half(E, v):
    """half-grid points counted by this partition: up to, not including, the first one of the next partition"""
    return E.ite(E.eq(v.nsMaxF1, v.ns), v.ns - 1, v.nsMaxH - 1)


def radial_sum(E, v, f):
    return E.sum(0, own_half(E, v) - v.nsMinF1, f)


def hout(K, **specs):
    """scalar results in the handover storage"""
    for n, s in specs.items():
        K.outs[n] = ((lambda n: lambda K, M, st, val: M.get_field(st, K.o.h, n))(n), s)
    return ' '.join('C.out("%s", h.%s);' % (n, n) for n in specs)


def add(K, note=None):
    if note:
        K.notes = [note]
    CONTRACTS.append(K)
    return K


# ---- differential volume
K = mhd('differential_volume', 'updateDifferentialVolume', own=['gsqrt'], prof=['dVdsH'], wint=True)
K.post['dVdsH'] = lambda E, v, o, h: v.sgn * ang(E, v, lambda k, l: o('gsqrt', h, k, l) * o('wInt', l))
add(K)

# ---- volumes: every half-grid point counted once over all partitions
K = mhd('initial_volume', 'computeInitialVolume', prof=['dVdsH'], hs=['voli'])
K.outs = {}
vol = lambda E, v, o: radial_sum(E, v, lambda h: o('dVdsH', h)) * v.deltaS
K.reglue('m.computeInitialVolume();' + hout(K, voli=lambda E, v, o: vol(E, v, o) * (2 * E.pi) * (2 * E.pi)))


def lemmas(K):
    """over C01: with consecutive partitions the counted half-grid ranges are adjacent"""
    E, v = SymE(), K.v
    nx = {n: fresh(n) for n in ('minF', 'minF1')}
    base = list(K.pre(E, v)) + [E.eq(nx['minF'], v.nsMaxF), E.eq(nx['minF1'], nx['minF'] - 1), v.nsMaxF1 < v.ns, v.nsMaxF >= 1]
    yield prove_lemma('the next partition starts counting where this one stops', base, eq(own_half(E, v), nx['minF1']))
    yield prove_lemma('the partition with the edge counts up to the last half-grid point', list(K.pre(E, v)) + [E.eq(v.nsMaxF1, v.ns)], eq(own_half(E, v), v.ns - 1))


K.lemmas = lemmas
add(K)
K = mhd('plasma_volume', 'updateVolume', prof=['dVdsH'], hs=['plasmaVolume'])
K.outs = {}
K.reglue('m.updateVolume();' + hout(K, plasmaVolume=vol))
add(K)

# ---- pressure and energies
PE = ['gsqrt', 'bsupu', 'bsupv', 'bsubu', 'bsubv', 'totalPressure']
K = mhd('pressure_and_energies', 'pressureAndEnergies', own=PE, prof=['massH', 'dVdsH', 'presH'], wint=True, hs=['thermalEnergy', 'magneticEnergy', 'mhdEnergy'], reals=['adiabaticIndex'])
K.outs = {}
K.rng.update(dVdsH=(.2, 2)) if isinstance(K.rng, dict) else None
pm = lambda E, o, h, k, l: half(E) * (o('bsupu', h, k, l) * o('bsubu', h, k, l) + o('bsupv', h, k, l) * o('bsubv', h, k, l))
pres = lambda E, v, o, h: o('massH', h) / E.pow(o('dVdsH', h), v.adiabaticIndex)
K.post['presH'] = pres
K.post['totalPressure'] = lambda E, v, o, h, k, l: pm(E, o, h, k, l) + pres(E, v, o, h)
eth = lambda E, v, o: radial_sum(E, v, lambda h: pres(E, v, o, h) * o('dVdsH', h)) * v.deltaS
emag = lambda E, v, o: E.abs(radial_sum(E, v, lambda h: ang(E, v, lambda k, l: o('gsqrt', h, k, l) * pm(E, o, h, k, l) * o('wInt', l)))) * v.deltaS
K.reglue('m.pressureAndEnergies();' + hout(K, thermalEnergy=eth, magneticEnergy=emag, mhdEnergy=lambda E, v, o: emag(E, v, o) + eth(E, v, o) / (v.adiabaticIndex - 1)))
K.pre = (lambda p: lambda E, v: p(E, v) + [E.ne(v.adiabaticIndex, 1)])(K.pre)
add(K)

# ---- radial force balance
K = mhd('radial_force_balance', 'radialForceBalance', own=['bsubu', 'bsubv'], prof='bucoH bvcoH jcurvF jcuruF presgradF presH dVdsH dVdsF equiF chipF phipF'.split(), wint=True)
buco = lambda x: lambda E, v, o, h: ang(E, v, lambda k, l: o(x, h, k, l) * o('wInt', l))
K.post['bucoH'], K.post['bvcoH'] = buco('bsubu'), buco('bsubv')


def dif(E, v, f, j):
    """outer minus inner half-grid value around full-grid point j of the interior range"""
    h = j + v.nsMinFi - v.nsMinF1
    return f(h) - f(h - 1)


jv = lambda E, v, o, j: v.sgn * dif(E, v, lambda h: buco('bsubu')(E, v, o, h), j) / v.deltaS
ju = lambda E, v, o, j: -v.sgn * dif(E, v, lambda h: buco('bsubv')(E, v, o, h), j) / v.deltaS
pg = lambda E, v, o, j: dif(E, v, lambda h: o('presH', h), j) / v.deltaS
dvf = lambda E, v, o, j: half(E) * (o('dVdsH', j + v.nsMinFi - v.nsMinF1) + o('dVdsH', j + v.nsMinFi - v.nsMinF1 - 1))
K.post.update(jcurvF=jv, jcuruF=ju, presgradF=pg, dVdsF=dvf)
K.post['equiF'] = lambda E, v, o, j: (o('chipF', j + v.nsMinFi - v.nsMinF1) * jv(E, v, o, j) - o('phipF', j + v.nsMinFi - v.nsMinF1) * ju(E, v, o, j)) / dvf(E, v, o, j) + pg(E, v, o, j)
add(K)

# ---- force norms
K = mhd('force_norms', 'computeForceNorms', own=['guu', 'r12', 'bsubu', 'bsubv'], wint=True, geom=True, hs='magneticEnergy thermalEnergy plasmaVolume fNormRZ fNormL fNorm1'.split(), reals=['lamscale'])
K.outs = {}


def rznorm(M, st, this, a):
    K = M.K
    M.oblige('pre', 'norm of the state it was given', st, TRUE if this is K.o.x else FALSE)
    return fn('rznorm', ite(a[0], ONE, ZERO) if isinstance(a[0], tuple) else a[0], a[1], a[2])


K.contracts['rzNorm'] = rznorm


def norm1(E, v, o):
    if E.num:
        s = 0
        for b in BLOCKS:
            if b[0] in 'rz' and mc.on(E, v, b):
                for j in range(v.nsMinF, v.nsMaxL):
                    for m in range(v.mpol):
                        for n in range(v.ntor + 1):
                            if b[1:] == 'cc' and m == 0 and n == 0:
                                continue
                            s += o('g_' + b, j - v.nsMinF1, m, n) ** 2
        return s
    return E.fn('rznorm', 0, v.nsMinF, v.nsMaxL)


dens = lambda E, v: E.max(v.h_magneticEnergy, v.h_thermalEnergy) / v.h_plasmaVolume
srz = lambda E, v, o: radial_sum(E, v, lambda h: ang(E, v, lambda k, l: o('guu', h, k, l) * o('r12', h, k, l) * o('r12', h, k, l) * o('wInt', l)))
sl = lambda E, v, o: radial_sum(E, v, lambda h: ang(E, v, lambda k, l: (o('bsubu', h, k, l) * o('bsubu', h, k, l) + o('bsubv', h, k, l) * o('bsubv', h, k, l)) * o('wInt', l)))
K.reglue('m.computeForceNorms(x);' + hout(K, fNormRZ=lambda E, v, o: 1 / (srz(E, v, o) * dens(E, v) * dens(E, v)), fNormL=lambda E, v, o: 1 / (sl(E, v, o) * v.lamscale * v.lamscale),
                                        fNorm1=lambda E, v, o: 1 / norm1(E, v, o)))
add(K, 'rzNorm is taken by its contract (C09)')

# ---- constraint reference extrapolated from the boundary
K = mhd('constraint_reference', 'rzConIntoVolume', own=['rCon', 'zCon', 'rCon0', 'zCon0'], prof=['sqrtSF'], hand=['rCon_LCFS', 'zCon_LCFS'])
for x in 'rz':
    def lc(E, v, o, k, l, x=x):
        return lazy_branch(E, E.eq(v.nsMaxF1, v.ns), lambda: o(x + 'Con', v.ns - 1 - v.nsMinF, k, l), lambda: o(x + 'Con_LCFS', k, l))
    K.post[x + 'Con_LCFS'] = lc

    def c0(E, v, o, j, k, l, x=x, lc=lc):
        s = lambda: o('sqrtSF', j + v.nsMinF - v.nsMinF1)
        return lazy_branch(E, j + v.nsMinF >= 1, lambda: lc(E, v, o, k, l) * s() * s(), lambda: o(x + 'Con0', j, k, l))
    K.post[x + 'Con0'] = c0
add(K, 'the boundary values of the thread owning the boundary are those in the shared array after the barrier')

# ---- contravariant field with prescribed iota or current
K = mhd('contravariant_field_model', 'computeBContra', own=['lu_e', 'lu_o', 'lv_e', 'lv_o', 'gsqrt', 'guu', 'guv', 'bsupu', 'bsupv'], prof='phipF phipH chipH iotaH currH chipF iotaF sqrtSH'.split(), wint=True, reals=['lamscale'], minsurf=2)
K.bools.append('ncurr')
lamn = lambda n: lambda E, v, o, j, k, l: E.ite(v.lthreed, o(n, j, k, l) * v.lamscale, o(n, j, k, l)) if n[1] == 'v' else o(n, j, k, l) * v.lamscale + (o('phipF', j) if n == 'lu_e' else 0)
for n in ('lu_e', 'lu_o', 'lv_e', 'lv_o'):
    K.post[n] = lamn(n)


def bsup(x):
    def f(E, v, o, h, k, l):
        e, q = lamn('l%s_e' % x), lamn('l%s_o' % x)
        return half(E) * (e(E, v, o, h, k, l) + e(E, v, o, h + 1, k, l) + o('sqrtSH', h) * (q(E, v, o, h, k, l) + q(E, v, o, h + 1, k, l))) / o('gsqrt', h, k, l)
    return f


bv = bsup('u')
bu0 = lambda E, v, o, h, k, l: E.ite(v.lthreed, bsup('v')(E, v, o, h, k, l), 0)
jvp = lambda E, v, o, h: ang(E, v, lambda k, l: (o('guu', h, k, l) * bu0(E, v, o, h, k, l) + E.ite(v.lthreed, o('guv', h, k, l) * bv(E, v, o, h, k, l), 0)) * o('wInt', l))
avg = lambda E, v, o, h: ang(E, v, lambda k, l: o('guu', h, k, l) / o('gsqrt', h, k, l) * o('wInt', l))


def chip(E, v, o, h):
    a = avg(E, v, o, h)
    return E.ite(v.ncurr, lazy_branch(E, E.ne(a, 0), lambda: (o('currH', h) - jvp(E, v, o, h)) / a, lambda: o('chipH', h)), o('iotaH', h) * o('phipH', h))


def iota(E, v, o, h):
    return lazy_branch(E, E.and_(v.ncurr, E.ne(o('phipH', h), 0)), lambda: chip(E, v, o, h) / o('phipH', h), lambda: o('iotaH', h))


K.post['chipH'], K.post['iotaH'], K.post['bsupv'] = chip, iota, bv
K.post['bsupu'] = lambda E, v, o, h, k, l: bu0(E, v, o, h, k, l) + chip(E, v, o, h) / o('gsqrt', h, k, l)


def fullgrid(name, f, w, axis):
    def g(E, v, o, j):
        J = j + v.nsMinF1
        last = v.nsMaxH - 1 - v.nsMinF1
        mid = lambda: half(E) * (f(E, v, o, j) + f(E, v, o, j - 1))
        edge = lambda: w[0](E) * f(E, v, o, last) - w[1](E) * f(E, v, o, last - 1)
        ax = lambda: (c15(E) * f(E, v, o, 0 * j) - half(E) * f(E, v, o, 0 * j + 1)) if axis else o(name, j)
        keep = lambda: o(name, j)
        return lazy_branch(E, E.eq(J, v.ns - 1), edge, lambda: lazy_branch(E, E.eq(J, 0), ax, lambda: lazy_branch(E, E.and_(J >= v.nsMinF, J < v.nsMaxF), mid, keep)))
    return g


two = lambda E: 2
one = lambda E: 1
K.post['chipF'] = fullgrid('chipF', chip, (two, one), False)
K.post['iotaF'] = fullgrid('iotaF', iota, (c15, half), True)
_a = K.args


def args(K, M):
    r = _a(K, M)
    K.o.m.fields['ncurr'] = ite(K.v.ncurr, ONE, ZERO)
    return r


K.args = args
K.reglue('m.ncurr = C.b("ncurr") ? 1 : 0; m.computeBContra();')
add(K)

# ---- residuals from the summed squared forces
for nm, fn_, outs in (('invariant_residuals', 'evalFResInvar', [('fsqr', 'fNormRZ', .25), ('fsqz', 'fNormRZ', .25), ('fsql', 'fNormL', 1)]),
                      ('preconditioned_residuals', 'evalFResPrecd', [('fsqr1', 'fNorm1', 1), ('fsqz1', 'fNorm1', 1), ('fsql1', None, 1)])):
    K = mhd(nm, fn_, hs=['fNormRZ', 'fNormL', 'fNorm1'])
    K.arrays.update(loc=lambda v: (3,), acc=lambda v: (3,))
    K.outs = {}
    K.post['acc'] = lambda E, v, o, i: o('loc', i)
    fld = 'fResInvar' if 'Invar' in fn_ else 'fResPrecd'

    def args(K, M, a=K.args, fld=fld, outs=outs):
        r = a(K, M)
        K.o.fc.fields[fld] = K.ref('acc')
        for q, _, _ in outs:
            K.o.fc.fields[q] = K.v[q]
        return [K.ref('loc')], r[1]
    K.args = args
    call = 'auto& fc = *R.fc; for (int i = 0; i < 3; ++i) fc.%s[i] = C.v("acc")[i]; Eigen::Vector3d L(C.v("loc")[0], C.v("loc")[1], C.v("loc")[2]); m.%s(L);' % (fld, fn_)
    for i, (q, nrm, c) in enumerate(outs):
        K.reals[q] = (.1, 1)
        K.outs[q] = ((lambda q: lambda K, M, st, val: M.get_field(st, K.o.fc, q))(q), lambda E, v, o, i=i, nrm=nrm, c=c: o('loc', i) * (v['h_' + nrm] if nrm else v.deltaS) * (E.frac(1, 4) if c == .25 else 1))
        call += 'C.out("%s", fc.%s);' % (q, q)
    K.reglue(call + ' { std::vector<double> A(3); for (int i = 0; i < 3; ++i) A[i] = fc.%s[i]; C.set("acc", A); }' % fld)
    add(K)

# ---- average pressure mismatch at the boundary
K = mhd('boundary_pressure_mismatch', 'get_delbsq', own=['delBSq', 'insideTotalPressure'], wint=True)
avgb = lambda E, v, o, n: ang(E, v, lambda k, l: o(n, k, l) * o('wInt', l))
K.ret = lambda E, v, o: lazy_branch(E, E.and_(v.lfreeb, v.vacuum, v.active), lambda: avgb(E, v, o, 'delBSq') / avgb(E, v, o, 'insideTotalPressure'), lambda: 0)
K.reglue('C.out("ret", m.get_delbsq());')
add(K)
