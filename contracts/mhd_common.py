"""symbolic and concrete IdealMhdModel objects for the contracts on its methods"""
from vc.contract import *

D = 'vmecpp/vmec/ideal_mhd_model/'
V = 'vmecpp/vmec/'
SRC = D + 'ideal_mhd_model.cc'
SOURCES = [SRC, D + 'dft_toroidal.cc', V + 'fourier_coefficients/fourier_coefficients.cc', V + 'fourier_forces/fourier_forces.cc', V + 'fourier_geometry/fourier_geometry.cc', 'vmecpp/common/util/util.cc',
           V + 'handover_storage/handover_storage.cc', V + 'radial_partitioning/radial_partitioning.cc']
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
BAS_L = 'cosmu sinmu cosmum sinmum cosmui sinmui cosmumi sinmumi'.split()
BAS_N = 'cosnv sinnv cosnvn sinnvn'.split()
GEO2 = [a + '_' + p for a in 'r1 ru z1 zu lu'.split() for p in 'eo']
GEO3 = [a + '_' + p for a in 'rv zv lv'.split() for p in 'eo']
FRZ2 = [a + '_' + p for a in 'armn brmn azmn bzmn frcon fzcon'.split() for p in 'eo']
FRZ3 = [a + '_' + p for a in 'crmn czmn'.split() for p in 'eo']
FL2 = ['blmn_e', 'blmn_o']
FL3 = ['clmn_e', 'clmn_o']


def asym(n):
    return n.replace('_', '_asym_') if '_' in n else n + '_asym'


grid3 = lambda lo, hi: lambda v: (v[hi] - v[lo], v.nZeta, v.nThetaEff)
F1, L, F, H = grid3('nsMinF1', 'nsMaxF1'), grid3('nsMinF', 'nsMaxL'), grid3('nsMinF', 'nsMaxF'), grid3('nsMinF1', 'nsMaxH')
line = lambda lo, hi, k=0: lambda v: (v[hi] - v[lo] + k,)
SURF = lambda v: (v.nZeta, v.nThetaEff)
MN = lambda hi: lambda v: (v[hi] - v.nsMinF, v.mpol, v.ntor + 1)
OWN = {}
for _n in GEO2 + GEO3:
    OWN[_n] = F1
    OWN[asym(_n)] = F1
for _n in FRZ2 + FRZ3:
    OWN[_n] = F
    OWN[asym(_n)] = F
for _n in FL2 + FL3 + ['rCon', 'zCon']:
    OWN[_n] = L
    OWN[asym(_n)] = L
for _n in 'rCon0 zCon0 ruFull zuFull gConEff gCon'.split():
    OWN[_n] = L
for _n in 'r12 ru12 zu12 rs zs tau gsqrt guu guv gvv bsupu bsupv bsubu bsubv totalPressure'.split():
    OWN[_n] = H
for _n in 'rBSq insideTotalPressure delBSq'.split():
    OWN[_n] = SURF
for _n in ('xmpq', 'faccon'):
    OWN[_n] = lambda v: (v.mpol,)
for _n in ('bLambda', 'dLambda', 'cLambda'):
    OWN[_n] = line('nsMinF1', 'nsMaxF1', 1)
OWN['lambdaPreconditioner'] = MN('nsMaxL')
for _n in 'ar az dr dz br bz'.split():
    OWN[_n] = MN('nsMaxF')
for _n in 'arm azm brm bzm'.split():
    OWN[_n] = lambda v: (v.nsMaxH - v.nsMinF1, 2)
for _n in 'ard azd brd bzd'.split():
    OWN[_n] = lambda v: (v.nsMaxF - v.nsMinF, 2)
OWN['cxd'] = line('nsMinF', 'nsMaxF')
OWN['ax'] = lambda v: (v.nsMaxH - v.nsMinF1, 4)
OWN['bx'] = lambda v: (v.nsMaxH - v.nsMinF1, 3)
OWN['cx'] = line('nsMinF1', 'nsMaxH')
OWN['tcon'] = line('nsMinF', 'nsMaxL')
OWN['gsc'] = OWN['gcs'] = lambda v: (v.ntor + 1,)
OWN['jMin'] = lambda v: (v.mpol, v.ntor + 1)
MNS = 'lambdaPreconditioner ar az dr dz br bz'.split()
PROF = {n: line('nsMinF1', 'nsMaxH') for n in 'phipH chipH iotaH currH massH sqrtSH sm sp presH dVdsH bucoH bvcoH'.split()}
PROF.update({n: line('nsMinF1', 'nsMaxF1') for n in 'phipF chipF iotaF sqrtSF radialBlending'.split()})
PROF.update({n: line('nsMinFi', 'nsMaxFi') for n in 'jcurvF jcuruF presgradF dVdsF equiF'.split()})
HAND = {'rCon_LCFS': SURF, 'zCon_LCFS': SURF, 'rAxis': lambda v: (v.nZeta,), 'zAxis': lambda v: (v.nZeta,)}
HSCAL = 'thermalEnergy magneticEnergy mhdEnergy plasmaVolume voli fNormRZ fNormL fNorm1 rBtor0 rBtor cTor bSubUVac bSubVVac'.split()
SIZES = {'wInt': lambda v: (v.nThetaEff,)}
BLOCKS = 'rcc rss rsc rcs zsc zcs zcc zss lsc lcs lcc lss'.split()


def on(E, v, b):
    """is coefficient block b in use"""
    a3 = b[1:] in {'r': ('ss', 'cs'), 'z': ('cs', 'ss'), 'l': ('cs', 'ss')}[b[0]]
    as_ = b[1:] in {'r': ('sc', 'cs'), 'z': ('cc', 'ss'), 'l': ('cc', 'ss')}[b[0]]
    return E.and_(v.lthreed if a3 else True, v.lasym if as_ else True)


def mhd(name, func, own=(), prof=(), hand=(), geom=None, force=None, basis=(), wint=False, three=None, free=True, nparams=None, hs=(), bools=(), cls='IdealMhdModel', filt='vmecpp', reals=(), minsurf=0, edge=False, ls=()):
    """contract on a method of IdealMhdModel.  geom / force: coefficient object (a parameter) whose blocks are arrays g_rcc.. / f_rcc..; three: fixed value of lthreed; reals: extra scalars"""
    K = Contract(name, SRC, func, cls, nparams, filt=filt)
    K.ints.update(ns=(3, 8), nsMinF=(0, 3), nsMinF1=(0, 3), nsMaxF=(1, 8), nsMaxF1=(1, 8), nsMaxL=(1, 8), nsMaxH=(1, 8), nsMinFi=(1, 3), nsMaxFi=(1, 8), nZeta=(1, 3), nThetaReduced=(1, 4), nThetaEven=(1, 6), nThetaEff=(1, 6),
                  mpol=(2, 4), ntor=(0, 3), mb=(2, 5), nnyq2=(0, 3), nfp=(1, 4), sgn=(-1, 1))
    K.bools = ['lfreeb', 'vacuum', 'active', 'lthreed', 'lasym']
    K.reals.update(deltaS=(.05, .5))
    for r in reals:
        K.reals[r] = (.3, 2)
    for h in hs:
        K.reals['h_' + h] = (.3, 2)

    def pre(E, v):
        p = [v.ns >= 3, v.nsMinF >= 0, v.nsMinF < v.nsMaxF, E.eq(v.nsMinF1, E.ite(v.nsMinF > 0, v.nsMinF - 1, 0)), E.eq(v.nsMaxF1, E.ite(v.nsMaxF < v.ns, v.nsMaxF + 1, v.ns)),
             v.nsMaxF <= v.ns, E.eq(v.nsMaxL, E.ite(E.eq(v.nsMaxF1, v.ns), v.ns, v.nsMaxF)), E.eq(v.nsMaxH, v.nsMaxF1 - 1),
             E.eq(v.nsMinFi, E.ite(v.nsMinF > 1, v.nsMinF, 1)), E.eq(v.nsMaxFi, E.ite(v.nsMaxF < v.ns - 1, v.nsMaxF, v.ns - 1)),
             E.implies(E.not_(v.lfreeb), v.nsMaxF <= v.ns - 1), E.implies(v.lfreeb, E.or_(E.eq(v.nsMaxF, v.ns), v.nsMaxF <= v.ns - 1)),
             # the last surface of a free-boundary run belongs to the thread that also has its inner neighbour
             v.nZeta >= 1, v.nThetaReduced >= 1, v.mpol >= 2, v.ntor >= 0, v.nnyq2 >= v.ntor, v.mb >= v.mpol, v.nfp >= 1, E.or_(E.eq(v.sgn, 1), E.eq(v.sgn, -1)),
             E.eq(v.nThetaEven, 2 * v.nThetaReduced - 2), v.nThetaReduced >= 2,
             E.eq(v.nThetaEff, E.ite(v.lasym, v.nThetaEven, v.nThetaReduced)), v.deltaS > 0]
        if three is not None:
            p += [v.lthreed if three else E.not_(v.lthreed)]
            if not three:
                p += [E.eq(v.ntor, 0), E.eq(v.nZeta, 1)]
        if edge:
            # C01: with at most ns/2 threads every partition of a free-boundary run has two surfaces
            p += [E.implies(v.lfreeb, E.or_(v.nsMaxF <= v.ns - 2, E.and_(E.eq(v.nsMaxF, v.ns), v.nsMaxF - v.nsMinF >= 2)))]
        if minsurf:
            p += [E.implies(E.eq(v.nsMaxF1, v.ns), v.nsMaxH - v.nsMinF1 >= minsurf), E.implies(E.eq(v.nsMinF1, 0), v.nsMaxH >= minsurf)]
        return p
    K.pre = pre

    def gen(r, v):
        v.ns = r.randint(3, 8)
        lastF = v.ns if v.lfreeb else v.ns - 1
        v.nsMinF = r.choice([0, r.randint(0, lastF - 1)])
        v.nsMaxF = r.choice([lastF, r.randint(v.nsMinF + 1, lastF)])
        if v.lfreeb and v.nsMaxF == v.ns - 1 and r.random() < .8:
            v.nsMaxF = v.ns
        v.nsMinF1 = max(0, v.nsMinF - 1)
        v.nsMaxF1 = min(v.ns, v.nsMaxF + 1)
        v.nsMaxL = v.ns if v.nsMaxF1 == v.ns else v.nsMaxF
        v.nsMaxH = v.nsMaxF1 - 1
        v.nsMinFi = max(1, v.nsMinF)
        v.nsMaxFi = min(v.ns - 1, v.nsMaxF)
        if edge and v.lfreeb:
            v.ns = max(v.ns, 4)
            v.nsMaxF = r.choice([v.ns, v.ns, max(1, v.ns - 2)])
            v.nsMinF = r.choice([0, max(0, v.nsMaxF - 2), max(0, v.nsMaxF - 3)])
            v.nsMinF1 = max(0, v.nsMinF - 1)
            v.nsMaxF1 = min(v.ns, v.nsMaxF + 1)
            v.nsMaxL = v.ns if v.nsMaxF1 == v.ns else v.nsMaxF
            v.nsMaxH = v.nsMaxF1 - 1
            v.nsMinFi = max(1, v.nsMinF)
            v.nsMaxFi = min(v.ns - 1, v.nsMaxF)
        if three is not None:
            v.lthreed = bool(three)
        if not v.lthreed:
            v.ntor = 0
            v.nZeta = 1
        v.mb = v.mpol + r.randint(0, 1)
        v.nnyq2 = v.ntor + r.randint(0, 1)
        v.nThetaReduced = r.randint(2, 4)
        v.nThetaEven = 2 * v.nThetaReduced - 2
        v.nThetaEff = v.nThetaEven if v.lasym else v.nThetaReduced
        v.sgn = r.choice([1, -1])
    K.gen = gen
    flat = three is False

    def shp(f, drop):
        return (lambda v: tuple(x for i, x in enumerate(f(v)) if i != drop)) if flat else f
    for n in own:
        f = OWN[n]
        K.arrays[n] = shp(f, 1 if f in (F1, L, F, H) else 0 if f is SURF else 2 if n in MNS else 1 if n == 'jMin' else -1)
    if 'jMin' in own:
        K.sorts['jMin'] = 'i'
    for n in prof:
        K.arrays[n] = PROF[n]
    for n in hand:
        K.arrays[n] = shp(HAND[n], 0 if HAND[n] is SURF else -1)
    if wint:
        K.arrays['wInt'] = SIZES['wInt']
    for n in ls:
        K.arrays[n] = shp(SURF, 0)
    K.free = tuple(ls)
    for n in basis:
        K.arrays[n] = (lambda v: (v.mb, v.nThetaReduced)) if n in BAS_L else (lambda v: (v.nZeta, v.nnyq2 + 1))
    if geom:
        for b in BLOCKS:
            K.arrays['g_' + b] = shp(lambda v: (v.nsMaxF1 - v.nsMinF1, v.mpol, v.ntor + 1), 2)
    if force:
        for b in BLOCKS:
            K.arrays['f_' + b] = shp(lambda v: (v.nsMaxL - v.nsMinF, v.mpol, v.ntor + 1), 2)

    def objects(K, M):
        v = K.v
        o = NS({})
        lthreed = v.lthreed if three is None else (TRUE if three else FALSE)
        ntor, nZeta = (P(0), P(1)) if flat else (v.ntor, v.nZeta)
        o.s = Obj('s', 'Sizes', fields=dict(mpol=v.mpol, ntor=ntor, nnyq2=v.nnyq2, nZeta=nZeta, nThetaReduced=v.nThetaReduced, nThetaEff=v.nThetaEff, nThetaEven=v.nThetaEven, lthreed=lthreed, lasym=v.lasym,
                                            nZnT=nZeta * v.nThetaEff, mnsize=v.mpol * (ntor + 1), nfp=v.nfp))
        if wint:
            o.s.fields['wInt'] = K.ref('wInt')
        o.r = Obj('r', 'RadialPartitioning', fields=dict(nsMinF1=v.nsMinF1, nsMaxF1=v.nsMaxF1, nsMinF=v.nsMinF, nsMaxF=v.nsMaxF, nsMaxFIncludingLcfs=v.nsMaxL, nsMinH=v.nsMinF1, nsMaxH=v.nsMaxH, nsMinFi=v.nsMinFi, nsMaxFi=v.nsMaxFi, ns_=v.ns))
        o.fc = Obj('fc', 'FlowControl', fields=dict(ns=v.ns, lfreeb=v.lfreeb, deltaS=v.deltaS, kPreconditionerUpdateInterval=P(25)))
        o.p = Obj('p', 'RadialProfiles', fields={n: K.ref(n) for n in prof})
        o.h = Obj('h', 'HandoverStorage', fields={n: K.ref(n) for n in hand})
        for h in hs:
            o.h.fields[h] = v['h_' + h]
        o.fb = Obj('fb', 'FourierBasisFastPoloidal', fields={n: K.ref(n) for n in basis})
        o.c = Obj('c', 'VmecConstants', fields={n: v[n] for n in reals if n in ('lamscale',)})
        o.ls = Obj('ls', 'ThreadLocalStorage', fields={n: K.ref(n) for n in ls})
        o.vac = ite(v.vacuum, ite(v.active, P(2), P(1)), P(0))
        f = {n: K.ref(n) for n in own}
        f.update(m_fc_=o.fc, s_=o.s, t_=o.fb, m_p_=o.p, constants_=o.c, m_ls_=o.ls, m_h_=o.h, r_=o.r, m_vacuum_pressure_state_=o.vac, signOfJacobian=v.sgn)
        for n in reals:
            if n in ('adiabaticIndex', 'tcon0'):
                f[n] = v[n]
        o.m = Obj('this', 'IdealMhdModel', fields=f)
        if geom:
            o.x = Obj('x', 'FourierGeometry', fields={b[0] + 'mn' + b[1:]: K.ref('g_' + b) for b in BLOCKS})
        if force:
            F = {'f' + b: K.ref('f_' + b) for b in BLOCKS}
            F.update({b: K.ref('f_' + b) for b in BLOCKS})
            F.update(s_=o.s, r_=o.r, nsMin_=v.nsMinF, nsMax_=v.nsMaxF, ns=v.ns)
            o.f = Obj('F', 'FourierForces', fields=F)
        K.o = o
        return o
    K.objects = objects

    def args(K, M):
        o = objects(K, M)
        return ([o.x] if geom else []) + ([o.f] if force else []), o.m
    K.args = args
    K.split = (lambda v: [(v.nsMaxH - v.nsMinF1, v.nThetaEff)]) if flat else (lambda v: [(v.nsMaxH - v.nsMinF1, v.nZeta * v.nThetaEff), (v.nZeta, v.nThetaEff)])
    K._mhd = dict(own=own, prof=prof, hand=hand, wint=wint, basis=basis, geom=geom, force=force, hs=hs, reals=reals, ls=ls)
    call = 'm.%s(%s);' % (func, ', '.join((['x'] if geom else []) + (['f'] if force else [])))
    K.glue = glue(K, call)
    K.reglue = lambda call, K=K: setattr(K, 'glue', glue(K, call))
    return K


def glue(K, call):
    q = K._mhd
    g = 'auto R = MakeRig(C); auto& m = *R.m; auto& h = *R.h; auto& p = *R.p; auto& s = *R.s; auto& fb = *R.fb; (void)h; (void)p; (void)s; (void)fb;\n'
    if q['wint']:
        g += 's.wInt = C.e("wInt");'
    for n in q['own']:
        g += 'm.%s = C.%s("%s");' % (n, 'ei' if n == 'jMin' else 'e', n)
    for pre_, names in (('p', q['prof']), ('h', q['hand']), ('fb', q['basis'])):
        for n in names:
            g += '%s.%s = C.e("%s");' % (pre_, n, n)
    for n in q['ls']:
        g += 'R.ls->%s = C.e("%s");' % (n, n)
    for n in q['hs']:
        g += 'h.%s = C.r("h_%s");' % (n, n)
    for n in q['reals']:
        if n in ('adiabaticIndex', 'tcon0'):
            g += 'm.%s = C.r("%s");' % (n, n)
        if n == 'lamscale':
            g += 'R.c->lamscale = C.r("lamscale");'
    if q['geom']:
        g += 'vmecpp::FourierGeometry x(&s, R.r, C.i("ns"));' + blk('x', 'g_', 0)
    if q['force']:
        g += 'vmecpp::FourierForces f(&s, R.r, C.i("ns"));' + blk('f', 'f_', 0)
    g += '\n' + call + '\n'
    for n in q['own']:
        g += 'C.set("%s", m.%s);' % (n, n)
    for pre_, names in (('p', q['prof']), ('h', q['hand'])):
        for n in names:
            g += 'C.set("%s", %s.%s);' % (n, pre_, n)
    if q['force']:
        g += blk('f', 'f_', 1)
    if q['geom']:
        g += blk('x', 'g_', 1)
    return g


def blk(obj, tag, get):
    body = 'C.set(q.first.c_str(), *q.second);' if get else 'auto e = C.e(q.first.c_str()); if (e.size() != q.second->size()) abort(); std::copy(e.data(), e.data() + e.size(), q.second->data());'
    return 'for (auto& q : {' + ','.join('std::make_pair(std::string("%s%s"), &%s.%s)' % (tag, b, obj, b) for b in BLOCKS) + '}) { if (q.second->size()) { ' + body + ' } }\n'


def setzero(K):
    """contract of FourierForces::setZero (see C09)"""
    def f(M, st, this, a):
        v = K.v
        for b in BLOCKS:
            r = K.ref('f_' + b)
            old = M.asvec(r, st)
            c = on(SymE(), v, b)
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, old=old, c=c: ite(c, ZERO, old.f(s, i))))
    return f


PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <mutex>
#include <thread>
#include <array>
#include <cstdio>
#include <iostream>
#include <numbers>
#include <span>
#include <optional>
#include <memory>
#define private public
#define protected public
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
#include "vmecpp/vmec/ideal_mhd_model/dft_toroidal.h"
#include "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.h"
#undef private
#undef protected
template <class T> static T* Raw() { return (T*)calloc(1, sizeof(T) + 64); }
struct MhdRig { vmecpp::Sizes* s; vmecpp::RadialPartitioning* r; vmecpp::FlowControl* fc; vmecpp::RadialProfiles* p; vmecpp::HandoverStorage* h; vmecpp::FourierBasisFastPoloidal* fb; vmecpp::VmecConstants* c; vmecpp::ThreadLocalStorage* ls; vmecpp::VacuumPressureState* vac; vmecpp::IdealMhdModel* m; };
static MhdRig MakeRig(vd::Case& C) {
  MhdRig R;
  R.s = Raw<vmecpp::Sizes>(); auto& s = *R.s;
  s.mpol = C.i("mpol"); s.ntor = C.i("ntor"); s.nnyq2 = C.i("nnyq2"); s.nZeta = C.i("nZeta"); s.nThetaReduced = C.i("nThetaReduced"); s.nThetaEff = C.i("nThetaEff"); s.nThetaEven = C.i("nThetaEven");
  s.nZnT = s.nZeta * s.nThetaEff; s.mnsize = s.mpol * (s.ntor + 1); s.lthreed = C.b("lthreed"); s.lasym = C.b("lasym"); s.nfp = C.i("nfp"); s.num_basis = (s.lthreed ? 2 : 1) * (s.lasym ? 2 : 1);
  R.r = Raw<vmecpp::RadialPartitioning>(); auto& r = *R.r;
  r.nsMinF1 = C.i("nsMinF1"); r.nsMaxF1 = C.i("nsMaxF1"); r.nsMinF = C.i("nsMinF"); r.nsMaxF = C.i("nsMaxF"); r.nsMaxFIncludingLcfs = C.i("nsMaxL"); r.nsMinH = C.i("nsMinF1"); r.nsMaxH = C.i("nsMaxH"); r.nsMinFi = C.i("nsMinFi"); r.nsMaxFi = C.i("nsMaxFi"); r.ns_ = C.i("ns"); r.num_threads_ = 1;
  R.fc = Raw<vmecpp::FlowControl>(); R.fc->ns = C.i("ns"); R.fc->deltaS = C.r("deltaS");
  R.p = Raw<vmecpp::RadialProfiles>(); R.h = Raw<vmecpp::HandoverStorage>(); R.fb = Raw<vmecpp::FourierBasisFastPoloidal>(); R.c = Raw<vmecpp::VmecConstants>(); R.ls = Raw<vmecpp::ThreadLocalStorage>();
  R.vac = Raw<vmecpp::VacuumPressureState>();
  *R.vac = C.b("vacuum") ? (C.b("active") ? vmecpp::VacuumPressureState::kActive : vmecpp::VacuumPressureState::kInitialized) : vmecpp::VacuumPressureState::kOff;
  R.m = new vmecpp::IdealMhdModel(R.fc, R.s, R.fb, R.p, R.c, R.ls, R.h, R.r, nullptr, 1, C.i("sgn"), 1, R.vac);
  *(bool*)&R.fc->lfreeb = C.b("lfreeb");
  return R;
}
'''


def over_model(E, v, o, names=None):
    """view of the model arrays for the specification of a kernel: the flat angular index is a pair (k, l)"""
    w = NS(dict(vars(v)))
    w.nsMinH = v.nsMinF1
    return w, lambda n, *d: o((names or {}).get(n, n), *[y for x in d for y in (x if isinstance(x, tuple) else (x,))])


def forward(K, base, names=None, only=None, tweak=None):
    """the kernel's postcondition (contract `base`) on the arrays of the model"""
    for n, f in base.post.items():
        if only and n not in only:
            continue

        def g(E, v, o, *d, f=f):
            w, q = over_model(E, v, o, names)
            if tweak:
                tweak(E, w)
            return f(E, w, q, d[0], tuple(d[1:]))
        K.post[(names or {}).get(n, n)] = g
    return K
