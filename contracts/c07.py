"""MHD force density, hybrid lambda force, constraint forces"""
from contracts.kernels_common import *

CONTRACTS = []
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, forward, asym, BAS_L, BAS_N
SOURCES, LINKFLAGS = mc.SOURCES, mc.LINKFLAGS
PREAMBLE = mc.PREAMBLE + hdr('mhdforce_kernel.h') + hdr('lambda_force_kernel.h') + hdr('constraint_force_kernel.h')
ASSUME = ['radial partition indices are related as RadialPartitioning establishes them (property C01): nsMinH = max(nsMinF-1, 0)']


def part(K):
    K.ints.update(nZnT=(1, 5), nsMinF=(0, 4), nsMinF1=(0, 4), nsMaxF=(1, 7), nsMinH=(0, 4), nsMaxH=(1, 8), nsMaxF1=(1, 9))

    def gen(rng, v):
        v.nsMinF = rng.choice([0, 0, 1, 2, 3])
        v.nsMinF1 = max(0, v.nsMinF - 1)
        v.nsMinH = max(0, v.nsMinF - 1)
        v.nsMaxF = v.nsMinF + rng.randint(1, 4)
        v.nsMaxH = v.nsMaxF - rng.choice([0, 1])
        if v.nsMaxH <= v.nsMinH:
            v.nsMaxH = v.nsMinH + 1
        v.nsMaxF1 = max(v.nsMaxF, v.nsMaxH) + 1
        if 'jMax' in vars(v):
            v.jMax = v.nsMaxF - rng.choice([0, 1])
    K.gen = gen
    K.pre = lambda E, v: [v.nZnT > 0, v.nsMinF >= 0, E.eq(v.nsMinF1, E.ite(v.nsMinF > 0, v.nsMinF - 1, 0)),
                          E.eq(v.nsMinH, E.ite(v.nsMinF > 0, v.nsMinF - 1, 0)), v.nsMinH < v.nsMaxH, v.nsMinF < v.nsMaxF,
                          v.nsMaxF <= v.nsMaxF1, v.nsMaxH < v.nsMaxF1]
    return K


FORCE = lambda v: (v.nsMaxF - v.nsMinF, v.nZnT)


def half(E, v, jH, f, dflt=0):
    """value f(h) on half-grid point jH if it exists in this partition, else dflt"""
    ok = E.and_(jH >= v.nsMinH, jH < v.nsMaxH)
    return lazy_branch(E, ok, lambda: f(jH - v.nsMinH), lambda: dflt)


K = part(Contract('mhd_force_density', '#include "%smhdforce_kernel.h"' % D, 'ComputeMHDForceDensity', is_text=True, srcname='mhdforce_kernel.h'))
K.ints['jMax'] = (0, 7)
_pre = K.pre
K.pre = lambda E, v: _pre(E, v) + [v.jMax <= v.nsMaxF, v.jMax >= 0]
GEO = 'r1_e r1_o ru_e ru_o zu_e zu_o z1_o rv_e rv_o zv_e zv_o'.split()
HLF = 'r12 ru12 zu12 rs zs tau totalPressure gsqrt bsupu bsupv'.split()
SCR = ['%s_%s' % (a, s) for s in 'io' for a in 'P rup zup rsp zsp taup gbubu gbubv gbvbv'.split()]
AVG = 'P_avg P_wavg gbubu_avg gbubu_wavg gbvbv_avg gbvbv_wavg gbubv_avg gbubv_wavg'.split()
OUT = [c + x + 'mn_' + p for c in 'abc' for x in 'rz' for p in 'eo']
for n in GEO:
    K.arrays[n] = FULL
for n in HLF:
    K.arrays[n] = HALF
K.arrays['sqrtSF'] = FULL1
K.arrays['sqrtSH'] = HALF1
for n in SCR + AVG:
    K.arrays[n] = lambda v: (v.nZnT,)
for n in OUT:
    K.arrays[n] = FORCE
K.free = tuple(SCR + AVG)
K.reals = {'deltaS': (0.05, 0.5)}
K.bools = ['lthreed']
K.sig = GEO + HLF + ['sqrtSF', 'sqrtSH'] + SCR + AVG + 'deltaS nZnT nsMinF nsMinF1 nsMinH nsMaxH jMax lthreed'.split() + OUT


class F:
    """MHD force density on full-grid surface jF from its two half-grid
    neighbours; a quantity beyond the plasma boundary or inside the axis is 0"""

    def __init__(s, E, v, old, f, k):
        s.E, s.v, s.old, s.k = E, v, old, k
        s.jF = f + v.nsMinF
        s.sF = old('sqrtSF', s.jF - v.nsMinF1) * old('sqrtSF', s.jF - v.nsMinF1)

    def H(s, j, fs, w=0):
        """product of half-grid arrays fs times sqrt(s)^w at half point j"""
        def val(h):
            r = 1
            for x in fs:
                r = r * s.old(x, h, s.k)
            for _ in range(abs(w)):
                r = r * s.old('sqrtSH', h) if w > 0 else r / s.old('sqrtSH', h)
            return r
        return half(s.E, s.v, j, val)

    def mean(s, fs, w=0):
        return s.E.frac(1, 2) * (s.H(s.jF, fs, w) + s.H(s.jF - 1, fs, w))

    def ddS(s, fs, w=0):
        return (s.H(s.jF, fs, w) - s.H(s.jF - 1, fs, w)) / s.v.deltaS

    def g(s, n):
        return s.old(n, s.jF - s.v.nsMinF1, s.k)


RP = ['r12', 'totalPressure']
UU, UV, VV = ['gsqrt', 'bsupu', 'bsupu'], ['gsqrt', 'bsupu', 'bsupv'], ['gsqrt', 'bsupv', 'bsupv']


def even(s, t, x):
    return s.mean(t) * s.g(x + '_e') + s.mean(t, 1) * s.g(x + '_o')


def odd(s, t, x):
    return s.mean(t, 1) * s.g(x + '_e') + s.mean(t) * s.g(x + '_o') * s.sF


def forces(s, n):
    h = s.E.frac(1, 2)
    td = s.v.lthreed
    if n == 'armn_e':
        return s.ddS(['zu12'] + RP) + s.mean(['tau', 'totalPressure']) - even(s, VV, 'r1')
    if n == 'armn_o':
        return s.ddS(['zu12'] + RP, 1) - h * s.mean(RP, -1) * s.g('zu_e') - h * s.mean(RP) * s.g('zu_o') + s.mean(['tau', 'totalPressure'], 1) - odd(s, VV, 'r1')
    if n == 'azmn_e':
        return -s.ddS(['ru12'] + RP)
    if n == 'azmn_o':
        return -s.ddS(['ru12'] + RP, 1) + h * s.mean(RP, -1) * s.g('ru_e') + h * s.mean(RP) * s.g('ru_o')
    if n == 'brmn_e':
        return s.mean(['zs'] + RP) + h * s.mean(RP, -1) * s.g('z1_o') - even(s, UU, 'ru') - s.E.ite(td, even(s, UV, 'rv'), 0)
    if n == 'brmn_o':
        return s.mean(['zs'] + RP, 1) + h * s.mean(RP) * s.g('z1_o') - odd(s, UU, 'ru') - s.E.ite(td, odd(s, UV, 'rv'), 0)
    if n == 'bzmn_e':
        return -s.mean(['rs'] + RP) - h * s.mean(RP, -1) * s.g('r1_o') - even(s, UU, 'zu') - s.E.ite(td, even(s, UV, 'zv'), 0)
    if n == 'bzmn_o':
        return -s.mean(['rs'] + RP, 1) - h * s.mean(RP) * s.g('r1_o') - odd(s, UU, 'zu') - s.E.ite(td, odd(s, UV, 'zv'), 0)
    x = n[1]
    p = even if n.endswith('e') else odd
    return p(s, UV, x + 'u') + p(s, VV, x + 'v')


def mk(n):
    def f(E, v, old, j, k):
        inside = j + v.nsMinF < v.jMax
        if n[0] == 'c':
            inside = E.and_(inside, v.lthreed)
        return lazy_branch(E, inside, lambda: forces(F(E, v, old, j, k), n), lambda: old(n, j, k))
    return f


for n in OUT:
    K.post[n] = mk(n)
CONTRACTS.append(flatsig(K))

# ---------------------------------------------------------------- lambda force
K = part(Contract('hybrid_lambda_force', '#include "%slambda_force_kernel.h"' % D, 'ComputeHybridLambdaForce', is_text=True, srcname='lambda_force_kernel.h'))
for n in 'bsubu bsubv gvv gsqrt guv bsupu'.split():
    K.arrays[n] = HALF
for n in 'lu_e lu_o'.split():
    K.arrays[n] = FULL
K.arrays['sqrtSH'] = HALF1
K.arrays['sqrtSF'] = FULL1
K.arrays['radialBlending'] = FULL1
LS = 'bsubu_i bsubv_i gvv_gsqrt_i guv_bsupu_i'.split()
for n in LS:
    K.arrays[n] = lambda v: (v.nZnT,)
LO = 'blmn_e blmn_o clmn_e clmn_o'.split()
for n in LO:
    K.arrays[n] = FORCE
K.free = tuple(LS)
K.reals = {'lamscale': (0.5, 2.0)}
K.bools = ['lthreed']
K.sig = 'bsubu bsubv gvv gsqrt guv bsupu lu_e lu_o sqrtSH sqrtSF radialBlending lamscale lthreed nZnT nsMinF nsMinF1 nsMinH nsMaxH nsMaxF'.split() + LS + LO


def lam(n):
    def f(E, v, old, j, k):
        jF = j + v.nsMinF
        full = jF - v.nsMinF1
        h2 = E.frac(1, 2)

        def mean(g):
            return h2 * (half(E, v, jF, g) + half(E, v, jF - 1, g))
        gg = lambda h: old('gvv', h, k) / old('gsqrt', h, k)
        if n[0] == 'b':
            a = mean(lambda h: old('bsubv', h, k))
            alt = mean(gg) * old('lu_e', full, k) + mean(lambda h: gg(h) * old('sqrtSH', h)) * old('lu_o', full, k) \
                + E.ite(v.lthreed, mean(lambda h: old('guv', h, k) * old('bsupu', h, k)), 0)
            w = old('radialBlending', full)
            r = a * (1 - w) + alt * w
        else:
            r = mean(lambda h: old('bsubu', h, k))
        r = r * E.ite(jF > 0, -v.lamscale, 1)
        if n.endswith('o'):
            r = r * old('sqrtSF', full)
        if n[0] == 'c':
            return E.ite(v.lthreed, r, old(n, j, k))
        return r
    return f


for n in LO:
    K.post[n] = lam(n)
CONTRACTS.append(flatsig(K))

# ---------------------------------------------------------------- constraint
K = Contract('effective_constraint_force', '#include "%sconstraint_force_kernel.h"' % D, 'ComputeEffectiveConstraintForce', is_text=True, srcname='constraint_force_kernel.h')
K.ints = dict(nZnT=(1, 5), nsMinF=(0, 4), nsMaxF=(0, 7))
K.pre = lambda E, v: [v.nZnT > 0, v.nsMinF >= 0, v.nsMinF <= v.nsMaxF]
for n in 'rCon rCon0 zCon zCon0 ruFull zuFull gConEff'.split():
    K.arrays[n] = FORCE
K.sig = 'rCon rCon0 zCon zCon0 ruFull zuFull nZnT nsMinF nsMaxF gConEff'.split()
K.post['gConEff'] = lambda E, v, o, j, k: E.ite(j + v.nsMinF > 0, (o('rCon', j, k) - o('rCon0', j, k)) * o('ruFull', j, k) + (o('zCon', j, k) - o('zCon0', j, k)) * o('zuFull', j, k), o('gConEff', j, k))
CONTRACTS.append(flatsig(K))

K = Contract('add_constraint_forces', '#include "%sconstraint_force_kernel.h"' % D, 'AddConstraintForces', is_text=True, srcname='constraint_force_kernel.h')
K.ints = dict(nZnT=(1, 5), nsMinF=(0, 4), nsMinF1=(0, 4), nsMaxF=(0, 7), nsMaxF1=(0, 8))
K.pre = lambda E, v: [v.nZnT > 0, v.nsMinF1 >= 0, v.nsMinF1 <= v.nsMinF, v.nsMinF <= v.nsMaxF, v.nsMaxF <= v.nsMaxF1]
for n in 'rCon rCon0 zCon zCon0 ruFull zuFull gCon brmn_e brmn_o bzmn_e bzmn_o frcon_e frcon_o fzcon_e fzcon_o'.split():
    K.arrays[n] = FORCE
K.arrays['sqrtSF'] = FULL1
K.sig = 'rCon rCon0 zCon zCon0 ruFull zuFull gCon sqrtSF nZnT nsMinF nsMinF1 nsMaxF brmn_e brmn_o bzmn_e bzmn_o frcon_e frcon_o fzcon_e fzcon_o'.split()


def con(x, p, kind):
    def f(E, v, o, j, k):
        s = o('sqrtSF', j + v.nsMinF - v.nsMinF1) if p == 'o' else 1
        if kind == 'b':
            return o('b%smn_%s' % (x, p), j, k) + (o(x + 'Con', j, k) - o(x + 'Con0', j, k)) * o('gCon', j, k) * s
        return o(x + 'uFull', j, k) * o('gCon', j, k) * s
    return f


for x in 'rz':
    for p in 'eo':
        K.post['b%smn_%s' % (x, p)] = con(x, p, 'b')
        K.post['f%scon_%s' % (x, p)] = con(x, p, 'f')
CONTRACTS.append(flatsig(K))

CHUNK = 1
KF, KL, KE, KA = CONTRACTS
# ---- model methods
K = mhd('model_mhd_forces', 'computeMHDForces', own=GEO + HLF + OUT, prof=['sqrtSF', 'sqrtSH'], ls=SCR + AVG)
forward(K, KF, tweak=lambda E, w: setattr(w, 'jMax', E.min(w.nsMaxF, E.ite(w.lfreeb, w.ns, w.ns - 1))))
CONTRACTS.append(K)
K = mhd('model_lambda_force', 'hybridLambdaForce', own='bsubu bsubv gvv gsqrt guv bsupu lu_e lu_o'.split() + LO, prof='sqrtSH sqrtSF radialBlending'.split(), ls=LS, reals=['lamscale'])
forward(K, KL)
CONTRACTS.append(K)
K = mhd('model_constraint_force', 'effectiveConstraintForce', own='rCon rCon0 zCon zCon0 ruFull zuFull gConEff'.split())
forward(K, KE)
CONTRACTS.append(K)
# total force: vacuum pressure on the boundary surface, then the constraint force
K = mhd('model_total_forces', 'assembleTotalForces', own='rCon rCon0 zCon zCon0 ruFull zuFull gCon rBSq'.split() + [c + x + 'mn_' + p for c in 'ab' for x in 'rz' for p in 'eo'] + ['f%scon_%s' % (x, p) for x in 'rz' for p in 'eo'], prof=['sqrtSF'], edge=True)
forward(K, KA)
for x, other, sg in (('r', 'zuFull', 1), ('z', 'ruFull', -1)):
    for p in 'eo':
        def f(E, v, o, j, k, l, n='a%smn_%s' % (x, p), other=other, sg=sg):
            return o(n, j, k, l) + lazy_branch(E, E.and_(v.lfreeb, v.vacuum, E.eq(v.nsMaxF1, v.ns), E.eq(j + v.nsMinF, v.nsMaxF - 1)), lambda: sg * o(other, j, k, l) * o('rBSq', k, l), lambda: 0)
        K.post['a%smn_%s' % (x, p)] = f
for n in list(K.post):
    if n[0] in 'bf':
        # the constraint force touches [nsMinF, nsMaxF) only
        K.post[n] = (lambda g: lambda E, v, o, j, k, l: g(E, v, o, j, k, l))(K.post[n])
CONTRACTS.append(K)
