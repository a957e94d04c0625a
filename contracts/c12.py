"""Fourier synthesis of the geometry and projection of the forces"""
from vc.contract import *

D = 'vmecpp/vmec/ideal_mhd_model/'
SRC = D + 'dft_toroidal.cc'
CONTRACTS = []
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, asym, GEO2, GEO3, FRZ2, FRZ3, FL2, FL3, setzero
V = 'vmecpp/vmec/'
SOURCES, LINKFLAGS = mc.SOURCES, mc.LINKFLAGS
PREAMBLE = mc.PREAMBLE + 'template <class T> static T& RawR() { static char* m = nullptr; if (!m) m = (char*)calloc(1, sizeof(T) + 64); else memset(m, 0, sizeof(T)); return *(T*)m; }\n'
CHUNK = 1
BAS_L = 'cosmu sinmu cosmum sinmum cosmui sinmui cosmumi sinmumi'.split()
BAS_N = 'cosnv sinnv cosnvn sinnvn'.split()
FORCE = [a + 'mn_' + p for a in 'ar az bl br bz cl cr cz'.split() for p in 'eo'] + ['f%scon_%s' % (x, p) for x in 'rz' for p in 'eo']
GEO = [a + '_' + p for a in 'r1 ru rv z1 zu zv lu lv'.split() for p in 'eo']
SYM = 'rcc rss zsc zcs lsc lcs'.split()
ASY = 'rsc rcs zcc zss lcc lss'.split()
# u parity, v parity of each block (cos(mu)cos(nv), ...)


def grid(K, threed=True):
    K.ints.update(nZeta=(1, 3), nThetaReduced=(1, 4), nThetaEff=(1, 6), mpol=(2, 4), mb=(2, 5), ntor=(0, 3), nnyq2=(0, 3),
                  ns=(3, 8), nsMinF=(0, 3), nsMinF1=(0, 3), nsMaxF=(1, 8), nsMaxF1=(1, 8), nsMaxL=(1, 8))
    K.pre = lambda E, v: [v.nZeta >= 1, v.nThetaReduced >= 1, v.nThetaEff >= v.nThetaReduced, v.mpol >= 2, v.mb >= v.mpol, v.ntor >= 0, v.nnyq2 >= v.ntor,
                          v.ns >= 3, v.nsMinF >= 0, v.nsMinF < v.nsMaxF, E.eq(v.nsMinF1, E.ite(v.nsMinF > 0, v.nsMinF - 1, 0)), v.nsMaxF <= v.nsMaxL,
                          v.nsMaxL <= v.nsMaxF1, v.nsMaxF1 <= v.ns, E.implies(E.eq(v.nsMaxF1, v.ns), E.eq(v.nsMaxL, v.ns)), E.implies(v.nsMaxF1 < v.ns, E.eq(v.nsMaxL, v.nsMaxF)),
                          E.implies(v.nsMaxF1 < v.ns, v.nsMaxF < v.ns - 1)]

    def gen(r, v):
        v.ns = r.randint(3, 8)
        v.nsMinF = r.choice([0, 0, r.randint(0, v.ns - 2)])
        v.nsMinF1 = max(0, v.nsMinF - 1)
        v.nsMaxF = r.randint(v.nsMinF + 1, v.ns)
        v.nsMaxF1 = min(v.ns, v.nsMaxF + 1)
        v.nsMaxL = v.ns if v.nsMaxF1 == v.ns else v.nsMaxF
        v.mb = v.mpol + r.randint(0, 1)
        v.nnyq2 = v.ntor + r.randint(0, 1)
        v.nThetaEff = v.nThetaReduced + r.randint(0, 2)
    K.gen = gen
    for n in BAS_L:
        K.arrays[n] = lambda v: (v.mb, v.nThetaReduced)
    for n in BAS_N:
        K.arrays[n] = lambda v: (v.nZeta, v.nnyq2 + 1)
    K.arrays['xmpq'] = lambda v: (v.mpol,)
    return K


def basis(K):
    return Obj('fb', 'FourierBasisFastPoloidal', fields={n: K.ref(n) for n in BAS_L + BAS_N})


def sizes(K):
    v = K.v
    return Obj('s', 'Sizes', fields=dict(mpol=v.mpol, ntor=v.ntor, nnyq2=v.nnyq2, nZeta=v.nZeta, nThetaReduced=v.nThetaReduced, nThetaEff=v.nThetaEff,
                                         lthreed=TRUE, lasym=v.__dict__.get('lasym', FALSE), nZnT=v.nZeta * v.nThetaEff, nThetaEven=v.__dict__.get('nThetaEven', v.nThetaEff)))


def radial(K):
    v = K.v
    return Obj('r', 'RadialPartitioning', fields=dict(nsMinF1=v.nsMinF1, nsMaxF1=v.nsMaxF1, nsMinF=v.nsMinF, nsMaxF=v.nsMaxF, nsMaxFIncludingLcfs=v.nsMaxL))


GLUE = '''auto& s = RawR<vmecpp::Sizes>(); s.mpol = C.i("mpol"); s.ntor = C.i("ntor"); s.nnyq2 = C.i("nnyq2"); s.nZeta = C.i("nZeta"); s.nThetaReduced = C.i("nThetaReduced"); s.nThetaEff = C.i("nThetaEff"); s.nZnT = s.nZeta * s.nThetaEff; s.lthreed = %s; s.nThetaEven = s.nThetaEff;
auto& r = RawR<vmecpp::RadialPartitioning>(); r.nsMinF1 = C.i("nsMinF1"); r.nsMaxF1 = C.i("nsMaxF1"); r.nsMinF = C.i("nsMinF"); r.nsMaxF = C.i("nsMaxF"); r.nsMaxFIncludingLcfs = C.i("nsMaxL");
auto& fb = RawR<vmecpp::FourierBasisFastPoloidal>();
''' + ''.join('fb.%s = C.e("%s");' % (n, n) for n in BAS_L + BAS_N) + '\n'


# ---------------------------------------------------------------- inverse
TERMS = {   # block -> (real-space quantity, theta function, zeta function)
    'cc': ('cos', 'cos'), 'ss': ('sin', 'sin'), 'sc': ('sin', 'cos'), 'cs': ('cos', 'sin')}
# derivative tables carry the sign and factor: sinmum = -m sin, cosmum = m cos
DTH = {'cos': 'sinmum', 'sin': 'cosmum'}
TH = {'cos': 'cosmu', 'sin': 'sinmu'}
DZE = {'cos': 'sinnvn', 'sin': 'cosnvn'}
ZE = {'cos': 'cosnv', 'sin': 'sinnv'}


def synth(E, v, o, blocks, j, m, k, l, dth, dze):
    """sum over n of the given coefficient blocks times their basis functions"""
    tot = 0
    for b in blocks:
        tu, tv = TERMS[b[1:]]
        th = (DTH if dth else TH)[tu]
        ze = (DZE if dze else ZE)[tv]
        tot = tot + E.sum(0, v.ntor + 1, lambda n: o(b, j, m, n) * o(ze, k, n)) * o(th, m, l)
    return tot


def inv(name, blocks):
    x, p = name[:2], name[-1]
    par = 0 if p == 'e' else 1
    bl = [b for b in blocks if b[0] == x[0]]
    sgn = -1 if x == 'lv' else 1

    def f(E, v, o, j, k, l):
        def val():
            return sgn * E.sum(0, v.mpol, lambda m: synth(E, v, o, bl, j, m, k, l, x[1] == 'u', x[1] == 'v'),
                               guard=lambda m: E.and_(E.eq(E.imod(m, 2), par), E.or_(m <= 1, j + v.nsMinF1 >= 1)))
        return lazy_branch(E, l < v.nThetaReduced, val, lambda: 0)
    return f


def con(name, blocks):
    bl = [b for b in blocks if b[0] == name[0]]

    def f(E, v, o, j, k, l):
        jF = j + v.nsMinF
        j1 = jF - v.nsMinF1

        def val():
            return E.sum(0, v.mpol, lambda m: synth(E, v, o, bl, j1, m, k, l, False, False) * o('xmpq', m) * E.ite(E.eq(E.imod(m, 2), 0), 1, o('sqrtSF', j1)),
                         guard=lambda m: E.or_(m <= 1, jF >= 1))
        return lazy_branch(E, l < v.nThetaReduced, val, lambda: 0)
    return f


def inverse(nm, func, blocks):
    K = grid(Contract(nm, SRC, func))
    for b in blocks:
        K.arrays[b] = lambda v: (v.nsMaxF1 - v.nsMinF1, v.mpol, v.ntor + 1)
    K.arrays['sqrtSF'] = lambda v: (v.nsMaxF1 - v.nsMinF1,)
    for n in GEO:
        K.arrays[n] = lambda v: (v.nsMaxF1 - v.nsMinF1, v.nZeta, v.nThetaEff)
        K.post[n] = inv(n, blocks)
    for n in ('rCon', 'zCon'):
        K.arrays[n] = lambda v: (v.nsMaxL - v.nsMinF, v.nZeta, v.nThetaEff)
        K.post[n] = con(n, blocks)

    def args(K, M):
        x = Obj('x', 'FourierGeometry', fields={b[0] + 'mn' + b[1:]: K.ref(b) for b in blocks})
        rp = Obj('rp', 'RadialProfiles', fields=dict(sqrtSF=K.ref('sqrtSF')))
        g = Obj('g', 'RealSpaceGeometry', fields={n: K.ref(n) for n in GEO + ['rCon', 'zCon']})
        return [x, K.ref('xmpq'), radial(K), sizes(K), rp, basis(K), g]
    K.args = args
    K.glue = GLUE % 'true' + 'auto& x = RawR<vmecpp::FourierGeometry>(); auto& rp = RawR<vmecpp::RadialProfiles>(); rp.sqrtSF = C.e("sqrtSF");\n' + \
        ''.join('x.%smn%s = C.v("%s");' % (b[0], b[1:], b) for b in blocks) + 'vmecpp::RealSpaceGeometry g;' + \
        ''.join('g.%s = C.v("%s");' % (n, n) for n in GEO + ['rCon', 'zCon']) + '\nvmecpp::%s(x, C.e("xmpq"), r, s, rp, fb, g);' % func
    K.split = lambda v: [(v.nZeta, v.nThetaEff)]
    BASE[nm] = K
    CONTRACTS.extend(facets(K, [(x, [n for n in K.post if n[0] == x]) for x in 'rzl']))
    return K


BASE = {}
inverse('inverse_symmetric', 'FourierToReal3DSymmFastPoloidal', SYM)
inverse('inverse_asymmetric', 'FourierToReal3DAsymFastPoloidal', ASY)

# ---------------------------------------------------------------- forward
ITH = {'cos': 'cosmui', 'sin': 'sinmui'}          # integration-weighted
IDT = {'cos': 'sinmumi', 'sin': 'cosmumi'}


def fwd(block, asym):
    x = block[0]
    tu, tv = TERMS[block[1:]]

    def f(E, v, o, j, m, n):
        jF = j + v.nsMinF
        par = lambda a, *d: lazy_branch(E, E.eq(E.imod(m, 2), 0), lambda: o(a + '_e', *d), lambda: o(a + '_o', *d))

        def at(k):
            def a_term(l):
                t = par('b%smn' % x, j, k, l) * o(IDT[tu], m, l)
                if x != 'l':
                    t = t + (par('a%smn' % x, j, k, l) + o('xmpq', m) * par('f%scon' % x, j, k, l)) * o(ITH[tu], m, l)
                return t
            return E.sum(0, v.nThetaReduced, a_term) * o(ZE[tv], k, n) - E.sum(0, v.nThetaReduced, lambda l: par('c%smn' % x, j, k, l) * o(ITH[tu], m, l)) * o(DZE[tv], k, n)
        free = E.and_(v.lfreeb, v.vacuum)
        jMaxRZ = E.ite(free, E.min(v.nsMaxF, v.ns), E.min(v.nsMaxF, v.ns - 1))
        if x == 'l':
            on = jF >= 1
        else:
            on = E.and_(jF < jMaxRZ, E.or_(jF > 0, E.eq(m, 0)))
        prior = o('f' + block, j, m, n) if asym else 0
        return lazy_branch(E, on, lambda: prior + E.sum(0, v.nZeta, at), lambda: prior)
    return f


def forward(nm, func, blocks, asym):
    K = grid(Contract(nm, SRC, func))
    K.bools = ['lfreeb', 'vacuum', 'active', 'lasym']
    if not asym:
        others = ASY
    for n in FORCE:
        K.arrays[n] = lambda v: (v.nsMaxL - v.nsMinF, v.nZeta, v.nThetaEff)
    for b in SYM + ASY:
        K.arrays['f' + b] = lambda v: (v.nsMaxL - v.nsMinF, v.mpol, v.ntor + 1)
    for b in blocks:
        K.post['f' + b] = fwd(b, asym)
    if not asym:
        for b in ASY:
            K.post['f' + b] = lambda E, v, o, j, m, n, b=b: E.ite(v.lasym, 0, o('f' + b, j, m, n))

    def args(K, M):
        v = K.v
        F = {'f%s' % b: K.ref('f' + b) for b in SYM + ASY}
        F.update({b: K.ref('f' + b) for b in SYM + ASY})
        F.update(s_=sizes(K), r_=radial(K), nsMin_=v.nsMinF, nsMax_=v.nsMaxF, ns=v.ns)
        x = Obj('F', 'FourierForces', fields=F)
        d = Obj('d', 'RealSpaceForces', fields={n: K.ref(n) for n in FORCE})
        fc = Obj('fc', 'FlowControl', fields=dict(ns=v.ns, lfreeb=v.lfreeb))
        vac = ite(v.vacuum, ite(v.active, P(2), P(1)), P(0))
        return [d, K.ref('xmpq'), radial(K), fc, sizes(K), basis(K), vac, x]
    K.args = args

    def setzero(M, st, this, a):
        for b in SYM + ASY:
            r = K.ref('f' + b)
            old = M.asvec(r, st)
            on = TRUE if b in SYM else K.v.lasym
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, old=old, on=on: ite(on, ZERO, old.f(s, i))))
    K.contracts['setZero'] = setzero
    K.glue = GLUE % 'true' + 's.lasym = C.b("lasym"); vmecpp::FourierForces x(&s, &r, C.i("ns"));\n' + \
        'for (auto& q : {' + ','.join('std::make_pair(std::string("f%s"), &x.%s)' % (b, b) for b in SYM + ASY) + '}) { if (q.second->size()) { auto e = C.e(q.first.c_str()); if (e.size() != q.second->size()) abort(); std::copy(e.data(), e.data() + e.size(), q.second->data()); } }' + \
        'auto& fc = RawR<vmecpp::FlowControl>(); fc.ns = C.i("ns"); *(bool*)&fc.lfreeb = C.b("lfreeb"); vmecpp::RealSpaceForces d;' + ''.join('d.%s = C.v("%s");' % (n, n) for n in FORCE) + \
        '\nauto vac = C.b("vacuum") ? (C.b("active") ? vmecpp::VacuumPressureState::kActive : vmecpp::VacuumPressureState::kInitialized) : vmecpp::VacuumPressureState::kOff;' + \
        '\nvmecpp::%s(d, C.e("xmpq"), r, fc, s, fb, vac, x);\n' % func + \
        'for (auto& q : {' + ','.join('std::make_pair(std::string("f%s"), &x.%s)' % (b, b) for b in SYM + ASY) + '}) { if (q.second->size()) C.set(q.first.c_str(), *q.second); }'
    K.split = lambda v: [(v.nZeta, v.nThetaEff)]
    BASE[nm] = K
    CONTRACTS.append(K)
    return K


forward('forward_symmetric', 'ForcesToFourier3DSymmFastPoloidal', SYM, False)
forward('forward_asymmetric', 'ForcesToFourier3DAsymFastPoloidal', ASY, True)
CONTRACTS[-1].pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(CONTRACTS[-1].pre)


# ---------------------------------------------------------------- axisymmetric transforms
S2, A2 = ['rcc', 'zsc', 'lsc'], ['rsc', 'zcc', 'lcc']


def inverse2(nm, func, blocks, tgt):
    con_ = [tgt('rCon'), tgt('zCon')]
    K = mhd(nm, func, own=[tgt(n) for n in GEO2] + con_ + ['xmpq'], prof=['sqrtSF'], geom=True, basis=['cosmu', 'sinmu', 'cosmum', 'sinmum'], three=False)
    for n in GEO2:
        b = [b for b in blocks if b[0] == n[0]][0]
        tu = TERMS[b[1:]][0]
        th = (DTH if n[1] == 'u' else TH)[tu]
        par = 0 if n[-1] == 'e' else 1

        def f(E, v, o, j, l, b=b, th=th, par=par):
            return lazy_branch(E, l < v.nThetaReduced,
                               lambda: E.sum(0, v.mpol, lambda m: o('g_' + b, j, m) * o(th, m, l), guard=lambda m: E.and_(E.eq(E.imod(m, 2), par), E.or_(m <= 1, j + v.nsMinF1 >= 1))),
                               lambda: 0)
        K.post[tgt(n)] = f
    for n in ('rCon', 'zCon'):
        b = [b for b in blocks if b[0] == n[0]][0]
        th = TH[TERMS[b[1:]][0]]

        def f(E, v, o, j, l, b=b, th=th):
            jF = j + v.nsMinF
            j1 = jF - v.nsMinF1
            return lazy_branch(E, l < v.nThetaReduced,
                               lambda: E.sum(0, v.mpol, lambda m: o('g_' + b, j1, m) * o(th, m, l) * o('xmpq', m) * E.ite(E.eq(E.imod(m, 2), 0), 1, o('sqrtSF', j1)), guard=lambda m: E.or_(m <= 1, jF >= 1)),
                               lambda: 0)
        K.post[tgt(n)] = f
    CONTRACTS.append(K)
    return K


inverse2('inverse_2d_symmetric', 'dft_FourierToReal_2d_symm', S2, lambda n: n)
K = inverse2('inverse_2d_asymmetric', 'dft_FourierToReal_2d_asymm', A2, asym)
K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)


def forward2(nm, func, blocks, tgt, asy):
    src = [tgt(n) for n in FRZ2 + FL2]
    K = mhd(nm, func, own=src + ['xmpq'], force=True, basis=['cosmui', 'sinmui', 'cosmumi', 'sinmumi'], three=False)
    for b in mc.BLOCKS:
        if b not in blocks:
            if not asy:
                K.post['f_' + b] = lambda E, v, o, j, m, b=b: E.ite(mc.on(E, v, b), 0, o('f_' + b, j, m))
            continue
        tu = TERMS[b[1:]][0]
        x = b[0]

        def f(E, v, o, j, m, b=b, tu=tu, x=x):
            jF = j + v.nsMinF
            par = lambda a, *d: lazy_branch(E, E.eq(E.imod(m, 2), 0), lambda: o(tgt(a + '_e'), *d), lambda: o(tgt(a + '_o'), *d))

            def term(l):
                t = par('b%smn' % x, j, l) * o(IDT[tu], m, l)
                if x != 'l':
                    t = t + (par('a%smn' % x, j, l) + o('xmpq', m) * par('f%scon' % x, j, l)) * o(ITH[tu], m, l)
                return t
            free = E.and_(v.lfreeb, v.vacuum)
            jMaxRZ = E.ite(free, E.min(v.nsMaxF, v.ns), E.min(v.nsMaxF, v.ns - 1))
            on_ = jF >= 1 if x == 'l' else E.and_(jF < jMaxRZ, E.or_(jF > 0, E.eq(m, 0)))
            prior = o('f_' + b, j, m) if asy else 0
            return lazy_branch(E, on_, lambda: prior + E.sum(0, v.nThetaReduced, term), lambda: prior)
        K.post['f_' + b] = f
    K.contracts['setZero'] = setzero(K)
    CONTRACTS.append(K)
    return K


forward2('forward_2d_symmetric', 'dft_ForcesToFourier_2d_symm', S2, lambda n: n, False)
K = forward2('forward_2d_asymmetric', 'dft_ForcesToFourier_2d_asymm', A2, asym, True)
K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)

# ---------------------------------------------------------------- extension to the full poloidal range
EVEN = 'r1 zu lu zv lv rCon'.split()
K = mhd('symrzl', 'symrzl', own=GEO2 + GEO3 + ['rCon', 'zCon'] + [asym(n) for n in GEO2 + GEO3 + ['rCon', 'zCon']])
K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)
for n in GEO2 + GEO3 + ['rCon', 'zCon']:
    sg = 1 if n.split('_')[0] in EVEN else -1

    def f(E, v, o, j, k, l, n=n, sg=sg):
        kr = E.ite(E.eq(k, 0), 0, v.nZeta - k)
        val = lambda: lazy_branch(E, l < v.nThetaReduced, lambda: o(n, j, k, l) + o(asym(n), j, k, l),
                                  lambda: sg * (o(n, j, kr, v.nThetaEven - l) - o(asym(n), j, kr, v.nThetaEven - l)))
        return lazy_branch(E, v.lthreed, val, lambda: o(n, j, k, l)) if n in GEO3 else val()
    K.post[n] = f
CONTRACTS.append(K)

STD = 'armn bzmn blmn frcon czmn clmn'.split()
FALL = FRZ2 + FRZ3 + FL2 + FL3
K = mhd('symforce', 'symforce', own=FALL + [asym(n) for n in FALL])
K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)
for n in FALL:
    sg = 1 if n.split('_')[0] in STD else -1
    for half in (1, -1):        # 1: the standard-parity half stays in place, -1: the other half
        def f(E, v, o, j, k, l, n=n, sg=sg, half=half):
            kr = E.ite(E.eq(k, 0), 0, v.nZeta - k)
            lr = E.ite(E.eq(l, 0), 0, v.nThetaEven - l)
            keep = lambda: o(n if half == 1 else asym(n), j, k, l)
            val = lambda: lazy_branch(E, l < v.nThetaReduced, lambda: E.frac(1, 2) * (o(n, j, k, l) + half * sg * o(n, j, kr, lr)), keep)
            return lazy_branch(E, v.lthreed, val, keep) if n in FRZ3 + FL3 else val()
        K.post[n if half == 1 else asym(n)] = f
CONTRACTS.append(K)

# ---------------------------------------------------------------- the model's own entry points, against the contracts above
from vc.terms import fn as _fn
ALLG = GEO + ['rCon', 'zCon']
bmap = lambda o: lambda n, *d: o(('g_' + n) if n in SYM + ASY else n, *d)
flat3 = lambda v, j, k, l: (j * v.nZeta + k) * v.nThetaEff + l
numspec = {False: {n: (con if n[1:] == 'Con' else inv)(n, SYM) for n in ALLG}, True: {n: (con if n[1:] == 'Con' else inv)(n, ASY) for n in ALLG}}


def same(M, st, what, ok):
    if not M.dry:
        M.oblige('pre', what, st, TRUE if ok else FALSE)


def callee_inv(tag):
    def f(M, st, this, a):
        K = M.K
        o = K.o
        same(M, st, 'transform gets the coefficients, weights, partition, sizes, profiles and basis of the model', a[0] is o.x and getattr(a[1], 'block', None) is K.block('xmpq') and a[2] is o.r and a[3] is o.s and a[4] is o.p and a[5] is o.fb)
        for n in ALLG:
            r = M.get_field(st, a[-1], n)
            M.assign_array(st, r, VecExpr(M.length(st, r), lambda s, i, n=n: _fn('syn%s_%s' % (tag, n), i)))
    return f


def callee_inv2(tag, tgt):
    def f(M, st, this, a):
        K = M.K
        same(M, st, 'transform gets the coefficients of the model', a[0] is K.o.x)
        for n in GEO2 + ['rCon', 'zCon']:
            r = K.ref(tgt(n))
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, n=n: _fn('syn%s_%s' % (tag, n), i)))
    return f


def wrap_inv(nm, func, callee, asy):
    tgt = asym if asy else (lambda n: n)
    K = mhd(nm, func, own=[tgt(n) for n in ALLG] + ['xmpq'], prof=['sqrtSF'], geom=True, basis=BAS_L[:4] + BAS_N, three=True)
    if asy:
        K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)
    for n in ALLG:
        K.post[tgt(n)] = lambda E, v, o, j, k, l, n=n: numspec[asy][n](E, v, bmap(o), j, k, l) if E.num else E.fn('syn%s_%s' % ('A' if asy else '', n), flat3(v, j, k, l))
    K.contracts[callee] = callee_inv('A' if asy else '')
    K.notes = ['the transform itself is taken by its contract (inverse_%s)' % ('asymmetric' if asy else 'symmetric')]
    CONTRACTS.append(K)
    return K


wrap_inv('model_inverse_symmetric', 'dft_FourierToReal_3d_symm', 'FourierToReal3DSymmFastPoloidal', False)
wrap_inv('model_inverse_asymmetric', 'dft_FourierToReal_3d_asymm', 'FourierToReal3DAsymFastPoloidal', True)


fmap = lambda o, tgt: lambda n, *d: o(('f_' + n[1:]) if n[1:] in SYM + ASY and n[0] == 'f' else tgt(n) if n in FORCE else n, *d)
flatmn = lambda v, j, m, n: (j * v.mpol + m) * (v.ntor + 1) + n


def callee_fwd(blocks, tag, tgt, prior):
    def f(M, st, this, a):
        K = M.K
        o = K.o
        d = a[0]
        same(M, st, 'transform gets the weights, partition, run state, sizes, basis and vacuum state of the model', getattr(a[1], 'block', None) is K.block('xmpq') and a[2] is o.r and a[3] is o.fc and a[4] is o.s and a[5] is o.fb and a[6] == o.vac and a[7] is o.f)
        src = [M.get_field(st, d, n) for n in FORCE]
        same(M, st, 'transform gets the force arrays of the model, each in its place', all(getattr(r, 'block', None) is K.block(tgt(n)) and r.off.is_zero() for n, r in zip(FORCE, src)))
        for b in blocks:
            r = K.ref('f_' + b)
            old = M.asvec(r, st)
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, b=b, old=old: _fn('proj_' + b, i) + (old.f(s, i) if prior else 0)))
        if not prior:
            for b in ASY:
                r = K.ref('f_' + b)
                old = M.asvec(r, st)
                M.assign_array(st, r, VecExpr(r.len, lambda s, i, old=old: ite(K.v.lasym, ZERO, old.f(s, i))))
    return f


def wrap_fwd(nm, func, callee, asy):
    tgt = asym if asy else (lambda n: n)
    blocks = ASY if asy else SYM
    K = mhd(nm, func, own=[tgt(n) for n in FORCE] + ['xmpq'], force=True, basis=BAS_L[4:] + BAS_N, three=True)
    if asy:
        K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym])(K.pre)
    for b in blocks:
        K.post['f_' + b] = lambda E, v, o, j, m, n, b=b: fwd(b, asy)(E, v, fmap(o, tgt), j, m, n) if E.num else E.fn('proj_' + b, flatmn(v, j, m, n)) + (o('f_' + b, j, m, n) if asy else 0)
    if not asy:
        for b in ASY:
            K.post['f_' + b] = lambda E, v, o, j, m, n, b=b: E.ite(v.lasym, 0, o('f_' + b, j, m, n))
    K.contracts[callee] = callee_fwd(blocks, '', tgt, asy)
    K.notes = ['the transform itself is taken by its contract (forward_%s)' % ('asymmetric' if asy else 'symmetric')]
    CONTRACTS.append(K)
    return K


wrap_fwd('model_forward_symmetric', 'dft_ForcesToFourier_3d_symm', 'ForcesToFourier3DSymmFastPoloidal', False)
wrap_fwd('model_forward_asymmetric', 'dft_ForcesToFourier_3d_asymm', 'ForcesToFourier3DAsymFastPoloidal', True)

# ---- geometryFromFourier: which transforms run, in which order, and the combination afterwards
ALL0 = GEO2 + GEO3 + ['rCon', 'zCon']
K = mhd('geometry_from_fourier', 'geometryFromFourier', own=ALL0 + [asym(n) for n in ALL0] + ['ruFull', 'zuFull', 'xmpq'], prof=['sqrtSF'], geom=True, basis=BAS_L[:4] + BAS_N)
K.free = tuple(asym(n) for n in ALL0)
K.pre = (lambda p: lambda E, v: p(E, v) + [E.implies(E.not_(v.lthreed), E.and_(E.eq(v.ntor, 0), E.eq(v.nZeta, 1)))])(K.pre)


def callee3(tag, tgt, three):
    def f(M, st, this, a):
        K = M.K
        same(M, st, 'transform gets the coefficients of the model', a[0] is K.o.x)
        for n in ALL0 if three else GEO2 + ['rCon', 'zCon']:
            r = K.ref(tgt(n))
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, n=n: _fn('syn%s_%s' % (tag, n), i)))
    return f


def callee_symrzl(M, st, this, a):
    K = M.K
    cur = {n: M.asvec(K.ref(n), st) for n in ALL0 + [asym(n) for n in ALL0]}
    for n in ALL0:
        r = K.ref(n)
        c = cur[n], cur[asym(n)]
        val = lambda s, i, n=n, c=c: _fn('ext_' + n, i, c[0].f(s, i), c[1].f(s, i))
        if n in GEO3:
            M.assign_array(st, r, VecExpr(r.len, lambda s, i, val=val, c=c: ite(K.v.lthreed, val(s, i), c[0].f(s, i))))
        else:
            M.assign_array(st, r, VecExpr(r.len, val))


K.contracts.update({'dft_FourierToReal_3d_symm': callee3('', lambda n: n, True), 'dft_FourierToReal_2d_symm': callee3('', lambda n: n, False),
                    'dft_FourierToReal_3d_asymm': callee3('A', asym, True), 'dft_FourierToReal_2d_asymm': callee3('A', asym, False), 'symrzl': callee_symrzl})
for _c in list(K.contracts.values()):
    _c.raw = False
K.override = tuple(K.contracts)


def full(E, v, o, n, j, k, l):
    """value of n after the transforms"""
    if E.num:
        if not v.lthreed and n in GEO3:
            return o(n, j, k, l)
        if not v.lthreed:
            # no toroidal variation: only the n = 0, zeta = 0 terms exist
            o0 = o
            o = lambda nm, *d: {'cosnv': 1.0}.get(nm, 0.0) if nm in BAS_N else o0(nm, *d)
        sy = lambda j, k, l: numspec[False][n](E, v, bmap(o), j, k, l)
        an = lambda j, k, l: numspec[True][n](E, v, bmap(o), j, k, l)
        if not v.lasym:
            return sy(j, k, l)
        sg = 1 if n.split('_')[0] in EVEN else -1
        if l < v.nThetaReduced:
            return sy(j, k, l) + an(j, k, l)
        kr, lr = (v.nZeta - k) % v.nZeta, v.nThetaEven - l
        return sg * (sy(j, kr, lr) - an(j, kr, lr))
    i = flat3(v, j, k, l)
    if n in GEO3:
        return E.ite(v.lthreed, E.ite(v.lasym, E.fn('ext_' + n, i, E.fn('syn_' + n, i), E.fn('synA_' + n, i)), E.fn('syn_' + n, i)), o(n, j, k, l))
    return E.ite(v.lasym, E.fn('ext_' + n, i, E.fn('syn_' + n, i), E.fn('synA_' + n, i)), E.fn('syn_' + n, i))


for n in ALL0:
    K.post[n] = lambda E, v, o, j, k, l, n=n: full(E, v, o, n, j, k, l)
for n in ('ru', 'zu'):
    def f(E, v, o, j, k, l, n=n):
        j1 = j + v.nsMinF - v.nsMinF1
        return full(E, v, o, n + '_e', j1, k, l) + o('sqrtSF', j1) * full(E, v, o, n + '_o', j1, k, l)
    K.post[n + 'Full'] = f
K.reals.update(ext0=(.1, 1), ext1=(1, 2), off0=(.1, 1), off1=(1, 2))


def setter(names, fields):
    def f(M, st, this, a):
        for nm, fld in zip(names, fields):
            M.set_field(st, M.K.o.h, nm, M.get_field(st, a[0], fld))
    return f


K.contracts['SetRadialExtent'] = setter(('ext0', 'ext1'), ('r_outer', 'r_inner'))
K.contracts['SetGeometricOffset'] = setter(('off0', 'off1'), ('r_00', 'z_00'))
_a0 = K.args


def _args(K, M):
    a = _a0(K, M)
    K.o.h.fields.update({n: K.v[n] for n in ('ext0', 'ext1', 'off0', 'off1')})
    return a


K.args = _args
hget = lambda f: lambda K, M, st, val: M.get_field(st, K.o.h, f)
lcfs = lambda E, v, o, l: full(E, v, o, 'r1_e', v.ns - 1 - v.nsMinF1, 0, l) + full(E, v, o, 'r1_o', v.ns - 1 - v.nsMinF1, 0, l)
K.outs = {'ext0': (hget('ext0'), lambda E, v, o: lazy_branch(E, E.eq(v.nsMaxF1, v.ns), lambda: lcfs(E, v, o, 0), lambda: v.ext0)),
          'ext1': (hget('ext1'), lambda E, v, o: lazy_branch(E, E.eq(v.nsMaxF1, v.ns), lambda: lcfs(E, v, o, v.nThetaReduced - 1), lambda: v.ext1)),
          'off0': (hget('off0'), lambda E, v, o: lazy_branch(E, E.eq(v.nsMinF1, 0), lambda: full(E, v, o, 'r1_e', 0, 0, 0), lambda: v.off0)),
          'off1': (hget('off1'), lambda E, v, o: lazy_branch(E, E.eq(v.nsMinF1, 0), lambda: full(E, v, o, 'z1_e', 0, 0, 0), lambda: v.off1))}
K.reglue('h.radial_extent_ = {C.r("ext0"), C.r("ext1")}; h.geometric_offset_ = {C.r("off0"), C.r("off1")};\nm.geometryFromFourier(x);\nC.out("ext0", h.radial_extent_.r_outer); C.out("ext1", h.radial_extent_.r_inner); C.out("off0", h.geometric_offset_.r_00); C.out("off1", h.geometric_offset_.z_00);')
K.notes = ['transforms and symrzl are taken by their own contracts']
CONTRACTS.append(K)

# ---- forcesToFourier: split into parities first, then project; both halves
K = mhd('forces_to_fourier', 'forcesToFourier', own=FALL + [asym(n) for n in FALL] + ['xmpq'], force=True, basis=BAS_L[4:] + BAS_N)
K.pre = (lambda p: lambda E, v: p(E, v) + [E.implies(E.not_(v.lthreed), E.and_(E.eq(v.ntor, 0), E.eq(v.nZeta, 1)))])(K.pre)
K.free = tuple(FALL) + tuple(asym(n) for n in FALL)
_split = {n: i for i, n in enumerate(FALL)}


def callee_symforce(M, st, this, a):
    M.set_field(st, M.K.o.h, 'split', M.get_field(st, M.K.o.h, 'split') + 1)


def callee_proj(blocks, three, prior):
    def f(M, st, this, a):
        K = M.K
        same(M, st, 'projection writes the force object it was given', a[0] is K.o.f)
        sp = M.get_field(st, K.o.h, 'split')
        for b in BLOCKS if not prior else blocks:
            r = K.ref('f_' + b)
            old = M.asvec(r, st)
            c = mc.on(SymE(), K.v, b)
            if b in blocks and (three or b[1:] not in ('ss', 'cs') if b[0] != 'x' else True):
                M.assign_array(st, r, VecExpr(r.len, lambda s, i, b=b, old=old: _fn('proj%d_%s' % (three, b), i, sp) + (old.f(s, i) if prior else 0)))
            elif not prior:
                M.assign_array(st, r, VecExpr(r.len, lambda s, i, old=old, c=c: ite(c, ZERO, old.f(s, i))))
    return f


BLOCKS = mc.BLOCKS
K.contracts.update({'symforce': callee_symforce, 'dft_ForcesToFourier_3d_symm': callee_proj(SYM, 1, False), 'dft_ForcesToFourier_2d_symm': callee_proj(S2, 0, False),
                    'dft_ForcesToFourier_3d_asymm': callee_proj(ASY, 1, True), 'dft_ForcesToFourier_2d_asymm': callee_proj(A2, 0, True)})
_a1 = K.args


def _args1(K, M):
    a = _a1(K, M)
    K.o.h.fields['split'] = ZERO
    return a


K.args = _args1


def split_of(E, v, o, tgt):
    """the parity halves as read by the projections"""
    def g(n, *d):
        if n in FORCE and v.lasym:
            j, k, l = d
            sg = 1 if n.split('_')[0] in STD else -1
            half = -1 if tgt else 1
            kr, lr = (v.nZeta - k) % v.nZeta, (v.nThetaEven - l) % v.nThetaEven
            return .5 * (o(n, j, k, l) + half * sg * o(n, j, kr, lr))
        return o(n, *d)
    return g


for b in BLOCKS:
    def f(E, v, o, j, m, n, b=b):
        asy = b in ASY
        if E.num:
            if asy and not v.lasym or (b[1:] in ('ss', 'cs') if b[0] == 'r' and not asy else False) and not v.lthreed:
                return o('f_' + b, j, m, n)
            if not mc.on(E, v, b):
                return o('f_' + b, j, m, n)
            g = fwd(b, False)
            vv = NS(dict(vars(v)))
            oo = split_of(E, v, o, asy)
            if not v.lthreed:
                # no toroidal variation: only the n = 0, zeta = 0 terms exist
                oz = lambda nm, *d: {'cosnv': 1.0, 'sinnv': 0.0, 'cosnvn': 0.0, 'sinnvn': 0.0}.get(nm, None) if nm in BAS_N else (0.0 if nm[:2] in ('cr', 'cz', 'cl') and nm in FORCE else oo(nm, *d))
                return g(E, v, oz, j, m, n)
            return g(E, v, oo, j, m, n)
        i = flatmn(v, j, m, n)
        sp = E.ite(v.lasym, 1, 0)
        keep = o('f_' + b, j, m, n)
        on_ = mc.on(E, v, b)
        val = E.ite(v.lthreed, E.fn('proj1_' + b, i, sp), E.fn('proj0_' + b, i, sp)) if b in S2 + A2 else E.fn('proj1_' + b, i, sp)
        return E.ite(on_, val, keep)
    K.post['f_' + b] = f
K.notes = ['projections and the parity split are taken by their own contracts; the split happening before both projections is tracked by a ghost counter']
CONTRACTS.append(K)
