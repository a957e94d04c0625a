"""Output quantities: stability criterion and tables"""
from vc.contract import *
from contracts.c20 import oq as oq0, full, half, F1, H1, FL1, S2, BASE, load, SHAPES, LINKFLAGS, PREAMBLE, SRC, CHUNK
import contracts.c20 as c20

SOURCES = [SRC, 'vmecpp/vmec/handover_storage/handover_storage.cc']
CONTRACTS = []


def oq(*a, **k):
    return oq0(*a, **k)


def done(K, pre=''):
    c20.done(K, pre, CONTRACTS)


mu0 = lambda E: 4.0e-7 * E.pi
inside = lambda f: lambda E, v, o, j, *d: lazy_branch(E, E.and_(j > 0, j < v.ns - 1), lambda: f(E, v, o, j, *d), lambda: 0)

# ---- ingredients of the Mercier criterion
phH = lambda E, v, o, j: 2 * E.pi * o('phipH', j) * v.sgn
phF = lambda E, v, o, j: (phH(E, v, o, j) + phH(E, v, o, j - 1)) / 2
vp = lambda E, v, o, j: v.sgn * 4 * E.pi * E.pi * o('dVdsH', j) / phH(E, v, o, j)
tor = lambda E, v, o, j: v.sgn * 2 * E.pi * S2(E, v, lambda k, l: o('bsubu', j, k, l) * o('wInt', l))
slope = lambda f: lambda E, v, o, j: (f(E, v, o, j) - f(E, v, o, j - 1)) / (phF(E, v, o, j) * v.deltaS)
mg = lambda o, j, k, l: (o('gsqrt', j, k, l) + o('gsqrt', j - 1, k, l)) / 2
gf = lambda E, v, o, j, k, l: mg(o, j, k, l) / phF(E, v, o, j)
b2 = lambda E, v, o, j, k, l: 2 * (o('total_pressure', j, k, l) - o('presH', j))
bj = lambda E, v, o, j, k, l: o('bdotk', j, k, l) * mu0(E) / mg(o, j, k, l)


def gpp(E, v, o, j, k, l):
    q = E.sqrt(j * v.deltaS)
    x = lambda n: o(n + '_e', j, k, l) + q * o(n + '_o', j, k, l)
    ru, zu, rv, zv, r = x('ru'), x('zu'), x('rv'), x('zv'), x('r')
    c = ru * zv - rv * zu
    g = gf(E, v, o, j, k, l)
    return g * g / ((ru * ru + zu * zu) * r * r + c * c)


GEO = 'ru_e ru_o zu_e zu_o rv_e rv_o zv_e zv_o r_e r_o'.split()
RNG = dict(dVdsH=(.5, 2), gsqrt=(.5, 2), total_pressure=(2, 3), phipH=(.5, 2), presH=(-1, 1))
mloc = dict(gsqrt_full=full, bdotj=full, gpp=full, b2=half)


def mercier(name, ret, vir):
    K = oq(name, 'ComputeIntermediateMercierQuantities', vir, dict(x=('JxBOutFileContents', dict(bdotk=full))), params='s f v x', ret=ret)
    K.rng.update({n: r for n, r in RNG.items() if n in K.arrays})
    K.local_shapes.update(mloc)
    done(K)
    return K


ALL = GEO + 'phipH dVdsH bsubu iotaH presH gsqrt total_pressure'.split()
mercier('mercier_profiles', dict(
    s=(F1, inside(lambda E, v, o, j: j * v.deltaS)), shear=(F1, inside(slope(lambda E, v, o, j: o('iotaH', j)))), vpp=(F1, inside(slope(vp))), d_pressure_d_s=(F1, inside(slope(lambda E, v, o, j: o('presH', j)))),
    d_toroidal_current_d_s=(F1, inside(slope(tor))), phip_realH=(H1, phH), phip_realF=(F1, inside(phF)), vp_real=(H1, vp), torcur=(H1, tor),
    gsqrt_full=(full, inside(gf)), bdotj=(full, inside(bj)), gpp=(full, inside(gpp)), b2=(half, b2)), ALL)
bi = lambda E, v, o, j, k, l: (b2(E, v, o, j, k, l) + b2(E, v, o, j - 1, k, l)) / 2
surf = lambda f: inside(lambda E, v, o, j: 4 * E.pi * E.pi * S2(E, v, lambda k, l: f(E, v, o, j, k, l) * o('wInt', l)))
for nm, ret in (('mercier_tpp_tbb', dict(tpp=(F1, surf(lambda *a: gf(*a) / bi(*a))), tbb=(F1, surf(lambda *a: bi(*a) * gf(*a) * gpp(*a))))),
                ('mercier_tjb_tjj', dict(tjb=(F1, surf(lambda *a: bj(*a) * gpp(*a) * gf(*a))), tjj=(F1, surf(lambda *a: bj(*a) * gpp(*a) * gf(*a) * bj(*a) / bi(*a)))))):
    mercier(nm, ret, ALL)

# ---- the criterion itself
MI = dict(s=F1, shear=F1, vpp=F1, d_pressure_d_s=F1, d_toroidal_current_d_s=F1, phip_realF=F1, vp_real=H1, torcur=H1, tpp=F1, tbb=F1, tjb=F1, tjj=F1)
REN = {n: n for n in MI}
vf = lambda o, j: (o('vp_real', j) + o('vp_real', j - 1)) / 2
mean1 = lambda n: lambda E, v, o, j: (o(n, j) + o(n, j - 1)) / 2
table = lambda f: inside(lambda E, v, o, j: lazy_branch(E, E.eq(vf(o, j), 0), lambda: 0, lambda: f(E, v, o, j)))
dshear = lambda E, v, o, j: o('shear', j) * o('shear', j) / 4
dcurr = lambda E, v, o, j: -o('shear', j) * (o('tjb', j) - o('d_toroidal_current_d_s', j) * o('tbb', j))
dwell = lambda E, v, o, j: o('d_pressure_d_s', j) * (o('vpp', j) - o('d_pressure_d_s', j) * o('tpp', j)) * o('tbb', j)
dgeod = lambda E, v, o, j: o('tjb', j) * o('tjb', j) - o('tbb', j) * o('tjj', j)
K = oq('mercier_criterion', 'ComputeMercierStability', 'iotaH presH'.split(), dict(mi=('MercierStabilityIntermediateQuantities', MI)), params='f v mi', ret=dict(
    s=(F1, lambda E, v, o, j: lazy_branch(E, E.eq(j, 0), lambda: 0, lambda: lazy_branch(E, E.eq(j, v.ns - 1), lambda: 1, lambda: o('s', j)))),
    toroidal_flux=(F1, table(lambda E, v, o, j: v.deltaS * E.sum(1, j + 1, lambda i: o('phip_realF', i)))), iota=(F1, table(mean1('iotaH'))), shear=(F1, table(lambda E, v, o, j: o('shear', j) / vf(o, j))),
    d_volume_d_s=(F1, table(lambda E, v, o, j: vf(o, j))), well=(F1, table(lambda E, v, o, j: -o('vpp', j) * v.sgn)), toroidal_current=(F1, table(mean1('torcur'))),
    d_toroidal_current_d_s=(F1, table(lambda E, v, o, j: o('d_toroidal_current_d_s', j) / vf(o, j))), pressure=(F1, table(mean1('presH'))), d_pressure_d_s=(F1, table(lambda E, v, o, j: o('d_pressure_d_s', j) / vf(o, j))),
    Dshear=(F1, inside(dshear)), Dcurr=(F1, inside(dcurr)), Dwell=(F1, inside(dwell)), Dgeod=(F1, inside(dgeod)), DMerc=(F1, inside(lambda *a: dshear(*a) + dcurr(*a) + dwell(*a) + dgeod(*a)))))
done(K)

# ---- first table: profiles
tau = lambda E, v, o, j, k, l: v.sgn * o('wInt', l) * o('gsqrt', j, k, l)
s2 = lambda E, v, o, j: S2(E, v, lambda k, l: o('total_pressure', j, k, l) * tau(E, v, o, j, k, l)) / o('dVdsH', j) - o('presH', j)
beta = lambda E, v, o, j: o('presH', j) / s2(E, v, o, j)
overr = lambda E, v, o, j: S2(E, v, lambda k, l: tau(E, v, o, j, k, l) / o('r12', j, k, l)) / o('dVdsH', j)
buco = lambda E, v, o, j: S2(E, v, lambda k, l: o('bsubu', j, k, l) * o('wInt', l))
bvco = lambda E, v, o, j: S2(E, v, lambda k, l: o('bsubv', j, k, l) * o('wInt', l))


def tofull(f, axis=None):
    """half grid to full grid: mean inside, 3/2, -1/2 extrapolation at the ends"""
    e = lambda E, v, o, a, b: E.frac(3, 2) * f(E, v, o, a) - E.frac(1, 2) * f(E, v, o, b)
    return lambda E, v, o, j: lazy_branch(E, E.eq(j, 0), lambda: (e(E, v, o, 0, 1) if axis is None else axis), lambda: lazy_branch(E, E.eq(j, v.ns - 1), lambda: e(E, v, o, v.ns - 2, v.ns - 3), lambda: (f(E, v, o, j) + f(E, v, o, j - 1)) / 2))


def ends(f):
    """interior full-grid values, linear extrapolation to both ends"""
    def spec(E, v, o, j):
        return lazy_branch(E, E.eq(j, 0), lambda: 2 * f(E, v, o, 1) - f(E, v, o, 2), lambda: lazy_branch(E, E.eq(j, v.ns - 1), lambda: 2 * f(E, v, o, v.ns - 2) - f(E, v, o, v.ns - 3), lambda: f(E, v, o, j)))
    return spec


A = lambda n: lambda E, v, o, j: o(n, j)
dds = lambda f, sg: lambda E, v, o, j: (f(E, v, o, j) - f(E, v, o, j - 1)) / v.deltaS * (1 if sg == 0 else sg * v.sgn)
jcurv, jcuru, pgrad = dds(buco, 1), dds(bvco, -1), dds(A('presH'), 0)
vpphi = lambda E, v, o, j: (o('dVdsH', j) + o('dVdsH', j - 1)) / 2
absE = lambda E, x: E.abs(x) if E.num else absr(P(x))


def equif(E, v, o, j):
    a, b, c = o('chipF', j) * jcurv(E, v, o, j), o('phipF', j) * jcuru(E, v, o, j), pgrad(E, v, o, j) * vpphi(E, v, o, j)
    return ((a - b) / vpphi(E, v, o, j) + pgrad(E, v, o, j)) * vpphi(E, v, o, j) / (absE(E, a) + absE(E, b) + absE(E, c))


def table1(name, ret, beta_axis=False):
    K = oq(name, 'ComputeIntermediateThreed1FirstTableQuantities', 'gsqrt total_pressure r12 dVdsH presH phipH iotaH bsubu bsubv chipF phipF'.split(), params='s f v', minns=4, ret=ret)
    K.rng.update(dVdsH=(.5, 2), gsqrt=(.5, 2), total_pressure=(2, 3), r12=(1, 2), presH=(.1, 1))
    K.local_shapes['tau'] = half
    K.rec = dict(phi=lambda E, v, o, j: lazy_branch(E, j <= 0, lambda: 0, lambda: K.R('phi', E, v, o, j - 1) + o('phipH', j - 1) * v.deltaS),
                 chi=lambda E, v, o, j: lazy_branch(E, j <= 0, lambda: 0, lambda: K.R('chi', E, v, o, j - 1) + o('phipH', j - 1) * o('iotaH', j - 1) * v.deltaS))
    K.recur = dict(phi1=[lambda E, v, o, j: K.R('phi', E, v, o, j)], chi1=[lambda E, v, o, j: K.R('chi', E, v, o, j)])
    if beta_axis:
        K.outs['beta_axis'] = (lambda K, M, st, val: M.get_field(st, val, 'beta_axis'), lambda E, v, o: E.frac(3, 2) * beta(E, v, o, 0) - E.frac(1, 2) * beta(E, v, o, 1))
    for n, f in (('phi1', lambda E, v, o, j: K.R('phi', E, v, o, j)), ('chi1', lambda E, v, o, j: K.R('chi', E, v, o, j)), ('chi', lambda E, v, o, j: 2 * E.pi * K.R('chi', E, v, o, j))):
        if beta_axis:
            K.dyn['o_' + n] = ((lambda n: lambda K, M, st, val: M.get_field(st, val, n))(n), lambda E, v: F1(v), f)
    done(K)
    if beta_axis:
        K.glue += 'C.out("beta_axis", ret.beta_axis);'
    return K


table1('flux_surface_table', dict(tau=(half, tau), beta_vol=(H1, beta), overr=(H1, overr), presf=(F1, tofull(A('presH'))), phipf_loc=(F1, tofull(lambda E, v, o, j: 2 * E.pi * v.sgn * o('phipH', j))),
                                  bucoH=(H1, buco), bvcoH=(H1, bvco), bucof=(F1, tofull(buco, 0)), bvcof=(F1, tofull(bvco))), True)
table1('force_balance_table', dict(jcurv=(F1, ends(jcurv)), jcuru=(F1, ends(jcuru)), presgrad=(F1, ends(pgrad)), vpphi=(F1, ends(vpphi)), equif=(F1, ends(equif))))

K = oq('first_table', 'ComputeThreed1FirstTable', 'iotaF spectral_width'.split(),
       dict(x=('JxBOutFileContents', dict(jdotb=F1, bdotb=F1)), t=('Threed1FirstTableIntermediate', {n: F1 for n in 'vpphi phipf_loc equif phi1 jcuru jcurv presgrad presf bucof bvcof'.split()})), params='f v x t', ret=dict(
    s=(F1, lambda E, v, o, j: j * v.deltaS), radial_force=(F1, A('equif')), toroidal_flux=(F1, lambda E, v, o, j: 2 * E.pi * v.sgn * o('phi1', j)), iota=(F1, A('iotaF')),
    avg_jsupu=(F1, lambda E, v, o, j: o('jcuru', j) / o('vpphi', j) / mu0(E)), avg_jsupv=(F1, lambda E, v, o, j: o('jcurv', j) / o('vpphi', j) / mu0(E)),
    d_volume_d_phi=(F1, lambda E, v, o, j: 4 * E.pi * E.pi * v.sgn * o('vpphi', j) / o('phipf_loc', j)), d_pressure_d_phi=(F1, lambda E, v, o, j: o('presgrad', j) / o('phipf_loc', j) / mu0(E)),
    spectral_width=(F1, A('spectral_width')), pressure=(F1, lambda E, v, o, j: o('presf', j) / mu0(E)), buco_full=(F1, A('bucof')), bvco_full=(F1, A('bvcof')), j_dot_b=(F1, A('jdotb')), b_dot_b=(F1, A('bdotb'))))
K.rng.update(vpphi=(.5, 1), phipf_loc=(.5, 1))
done(K)

# ---- geometric and magnetic summary: ingredients

def scalars(K, specs):
    get = lambda n: lambda K, M, st, val: M.get_field(st, val, n)
    for n, f in specs.items():
        K.outs[n] = (get(n), f)
    K.glue += ''.join('C.out("%s", ret.%s);' % (n, n) for n in specs)


def edge(o, v, n, k, l, q=1):
    return o(n + '_e', v.ns - 1, k, l) + o(n + '_o', v.ns - 1, k, l)


SH = lambda E, v, f: E.sum(0, v.ns - 1, lambda j: S2(E, v, lambda k, l: f(j, k, l)))
hand = lambda v, K: Obj('h', 'HandoverStorage', fields=dict(rBtor=v.rBtor, bSubVVac=v.bSubVVac, rBtor0=v.rBtor0, cTor=v.cTor, vacuum_magnetic_pressure=K.ref('vmp')))
HGLUE = 'auto& h = RawR<vmecpp::HandoverStorage>(); h.rBtor = C.r("rBtor"); h.bSubVVac = C.r("bSubVVac"); h.rBtor0 = C.r("rBtor0"); h.cTor = C.r("cTor"); new (&h.vacuum_magnetic_pressure) decltype(h.vacuum_magnetic_pressure)(); h.vacuum_magnetic_pressure = C.e("vmp"); const_cast<bool&>(fc.lfreeb) = C.b("lfreeb"); auto st = static_cast<vmecpp::VacuumPressureState>(C.i("vac"));'


def withhand(K):
    K.reals.update(rBtor=(.5, 2), bSubVVac=(.5, 2), rBtor0=(.5, 2), cTor=(-1, 1))
    K.bools = K.bools + ['lfreeb']
    K.ints['vac'] = (-1, 2)
    K.arrays['vmp'] = lambda v: (v.nth, v.nZeta)
    K.gen = (lambda g: lambda r, v: (g(r, v), setattr(v, 'vac', r.choice([-1, 0, 1, 2, 2]))))(K.gen)
    K.extra_args = lambda v, K=K: dict(h=hand(v, K), st=v.vac)
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.vac >= -1, v.vac <= 2])(K.pre)
    K.args = (lambda a: lambda K, M: fcset(K, a(K, M)))(K.args)


def fcset(K, r):
    K.fc.fields['lfreeb'] = K.v.lfreeb
    return r


btv = lambda v, o, j, k, l: v.rBtor / o('r12', j, k, l)
bt1 = lambda o, j, k, l: o('r12', j, k, l) * o('bsupv', j, k, l)


def phat0(v, o, j, k, l):
    a, b = btv(v, o, j, k, l), bt1(o, j, k, l)
    return (o('total_pressure', j, k, l) - a * a / 2 - (b * b - a * a)) * o('tau', j, k, l)


def phat(E, v, o, k, l):
    def vac():
        b = v.bSubVVac / edge(o, v, 'r', k, l)
        return o('vmp', l, k) - b * b / 2

    def fixed():
        b = v.rBtor / edge(o, v, 'r', k, l)
        return E.frac(3, 2) * o('total_pressure', v.ns - 2, k, l) - E.frac(1, 2) * o('total_pressure', v.ns - 3, k, l) - b * b / 2
    return lazy_branch(E, E.and_(v.lfreeb, E.eq(v.vac, 2)), vac, fixed)


def darea(E, v, o, k, l):
    ru, zu = o('ruFull', v.ns - 1, k, l), o('zuFull', v.ns - 1, k, l)
    r, c = edge(o, v, 'r', k, l), edge(o, v, 'rv', k, l) * zu - edge(o, v, 'zv', k, l) * ru
    return o('wInt', l) * E.sqrt(r * r * (ru * ru + zu * zu) + c * c)


def circ(E, v, o):
    def f(k, l):
        ru, zu = o('ruFull', v.ns - 1, k, l), o('zuFull', v.ns - 1, k, l)
        return E.sqrt(ru * ru + zu * zu) * o('wInt', l)
    return S2(E, v, f)


vnorm = lambda E, v: 4 * E.pi * E.pi * v.deltaS
sump = lambda E, v, o: vnorm(E, v) * E.sum(0, v.ns - 1, lambda j: o('dVdsH', j) * o('presH', j))
sbtor = lambda E, v, o: vnorm(E, v) * SH(E, v, lambda j, k, l: o('tau', j, k, l) * bt1(o, j, k, l) * bt1(o, j, k, l))
sbtot = lambda E, v, o: 2 * (vnorm(E, v) * SH(E, v, lambda j, k, l: o('total_pressure', j, k, l) * o('tau', j, k, l)) - sump(E, v, o))
twov = lambda o, j: o('dVdsH', j) + o('dVdsH', j - 1)
jps = lambda o, j: o('jpar2', j) - o('jdotb', j) * o('jdotb', j) / o('bdotb', j)
SI = lambda E, v, f: E.sum(1, v.ns - 1, f)
K = oq('summary_integrals', 'ComputeIntermediateThreed1GeometricMagneticQuantities', 'ruFull zuFull r_e r_o rv_e rv_o zv_e zv_o dVdsH presH r12 bsupv total_pressure phipH iotaH'.split(),
       dict(x=('JxBOutFileContents', dict(jpar2=F1, jdotb=F1, bdotb=F1, jperp2=F1)), t=('Threed1FirstTableIntermediate', dict(tau=half, bvcoH=H1))), params='s f h v x t st', ret=dict(
    surf_area=(FL1, darea), redge=(FL1, lambda E, v, o, k, l: edge(o, v, 'r', k, l)), phat=(FL1, phat),
    jPS2=(F1, inside(lambda E, v, o, j: jps(o, j))), r3v=(H1, lambda E, v, o, j: 2 * E.pi * v.deltaS * v.sgn * o('phipH', j) * o('iotaH', j))))
withhand(K)
K.rng.update(r_e=(2, 3), r_o=(.1, .5), r12=(1, 2), bdotb=(1, 2), tau=(.5, 1), total_pressure=(4, 6))
K.local_shapes.update(btor_vac=FL1, btor1=FL1, dbtor=FL1)
done(K, HGLUE)
scalars(K, dict(
    anorm=lambda E, v, o: 2 * E.pi * v.deltaS, vnorm=lambda E, v, o: vnorm(E, v), circumference_sum=circ, sump=sump,
    delphid_exact=lambda E, v, o: 2 * E.pi * v.deltaS * SH(E, v, lambda j, k, l: (btv(v, o, j, k, l) / o('r12', j, k, l) - o('bsupv', j, k, l)) * o('tau', j, k, l)),
    musubi=lambda E, v, o: SH(E, v, lambda j, k, l: (btv(v, o, j, k, l) * btv(v, o, j, k, l) - bt1(o, j, k, l) * bt1(o, j, k, l)) * o('tau', j, k, l)),
    rshaf1=lambda E, v, o: SH(E, v, lambda *i: phat0(v, o, *i)), rshaf2=lambda E, v, o: SH(E, v, lambda *i: phat0(v, o, *i) / o('r12', *i)),
    rshaf=lambda E, v, o: SH(E, v, lambda *i: phat0(v, o, *i)) / SH(E, v, lambda *i: phat0(v, o, *i) / o('r12', *i)),
    fpsi0=lambda E, v, o: E.frac(3, 2) * o('bvcoH', 0) - E.frac(1, 2) * o('bvcoH', 1), sumbtot=sbtot, sumbtor=sbtor, sumbpol=lambda *a: sbtot(*a) - sbtor(*a),
    sump20=lambda *a: 2 * sump(*a), sump2=lambda E, v, o: vnorm(E, v) * E.sum(0, v.ns - 1, lambda j: o('presH', j) * o('presH', j) * o('dVdsH', j)),
    jpar_perp_sum=lambda E, v, o: SI(E, v, lambda j: o('jpar2', j) * twov(o, j)), jparPS_perp_sum=lambda E, v, o: SI(E, v, lambda j: jps(o, j) * twov(o, j)),
    s2=lambda E, v, o: SI(E, v, lambda j: o('jperp2', j) * twov(o, j)), fac=lambda E, v, o: 2 * E.pi * v.deltaS * v.sgn))


# ---- volumetric, axis and beta tables, Shafranov integrals
GI = 'Threed1GeometricAndMagneticQuantitiesIntermediate'
GM = 'Threed1GeometricAndMagneticQuantities'
num = lambda names: {n: None for n in names.split()}
K = oq('volumetrics', 'ComputeThreed1Volumetrics', [], dict(i=(GI, num('sump sumbpol sumbtor sumbtot')), g=(GM, num('pavg volume_p'))), params='i g')
K.returns = True
done(K)
half_mu = lambda E: E.frac(1, 2) / mu0(E)
scalars(K, dict([('int_p', lambda E, v, o: v.sump / mu0(E)), ('avg_p', lambda E, v, o: v.pavg / mu0(E)), ('int_ekin', lambda E, v, o: E.frac(3, 2) * v.sump / mu0(E)), ('avg_ekin', lambda E, v, o: E.frac(3, 2) * v.pavg / mu0(E))]
                + [('int_' + a, (lambda b: lambda E, v, o: half_mu(E) * getattr(v, b))(b)) for a, b in (('bpol', 'sumbpol'), ('btor', 'sumbtor'), ('modb', 'sumbtot'))]
                + [('avg_' + a, (lambda b: lambda E, v, o: half_mu(E) * getattr(v, b) / v.volume_p)(b)) for a, b in (('bpol', 'sumbpol'), ('btor', 'sumbtor'), ('modb', 'sumbtot'))]))

K = oq('betas', 'ComputeThreed1Betas', [], dict(t=('Threed1FirstTableIntermediate', num('beta_axis')), i=(GI, num('sump2 sumbtot')), g=(GM, num('betatot betapol betator volume_p'))), params='h t i g')
withhand(K)
K.returns = True
done(K, HGLUE)
scalars(K, dict(betatot=lambda E, v, o: v.betatot, betapol=lambda E, v, o: v.betapol, betator=lambda E, v, o: v.betator, rbtor=lambda E, v, o: v.rBtor, betaxis=lambda E, v, o: v.beta_axis,
                betstr=lambda E, v, o: 2 * E.sqrt(v.sump2 / v.volume_p) * v.volume_p / v.sumbtot))
K.pre = (lambda p: lambda E, v: p(E, v) + [v.sump2 > 0, v.volume_p > 0, v.sumbtot > 0])(K.pre)

SPEC = lambda v: (v.ns, v.ntor + 1, v.mpol)


def axis(lasym, three):
    nm = ['rmncc'] + ['zmncs'] * three + ['zmncc'] * lasym + ['rmncs'] * (lasym and three)
    K = oq('axis_%s%s' % ('asymmetric' if lasym else 'symmetric', '_3d' if three else ''), 'ComputeThreed1AxisGeometry', [], {}, params='s b v')
    c20.fix(K, lasym)
    K.ints.update(mpol=(1, 3), ntor=(0, 3) if three else (0, 0))
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.mpol >= 1, v.ntor >= (1 if three else 0)] + ([] if three else [E.eq(v.ntor, 0)]))(K.pre)
    if three:
        K.gen = (lambda g: lambda r, v: (g(r, v), setattr(v, 'ntor', max(v.ntor, 1))))(K.gen)
    for n in nm:
        K.arrays[n] = SPEC
    K.arrays['mscale'], K.arrays['nscale'] = lambda v: (v.mpol,), lambda v: (v.ntor + 1,)
    K.sizes = lambda v: dict(mpol=v.mpol, ntor=v.ntor, lthreed=TRUE if three else FALSE)
    K.extra_args = lambda v, K=K: dict(b=Obj('b', 'FourierBasisFastPoloidal', fields=dict(mscale=K.ref('mscale'), nscale=K.ref('nscale'))))
    K.args = (lambda a: lambda K, M: (lambda r: (K.res.fields.update({n: K.ref(n) for n in nm}), r)[1])(a(K, M)))(K.args)
    n1 = lambda v: (v.ntor + 1,)
    sc = lambda o, n: o('mscale', 0) * o('nscale', n)
    out = dict(raxis_symm=lambda E, v, o, n: sc(o, n) * o('rmncc', 0, n, 0), zaxis_symm=(lambda E, v, o, n: -sc(o, n) * o('zmncs', 0, n, 0)) if three else lambda E, v, o, n: 0)
    if lasym:
        out.update(zaxis_asym=lambda E, v, o, n: sc(o, n) * o('zmncc', 0, n, 0), raxis_asym=(lambda E, v, o, n: -sc(o, n) * o('rmncs', 0, n, 0)) if three else lambda E, v, o, n: 0)
    get = lambda n: lambda K, M, st, val: M.get_field(st, val, n)
    for n, f in out.items():
        K.local_shapes[n] = n1
        K.dyn['o_' + n] = (get(n), lambda E, v: (v.ntor + 1,), f)
    done(K, 's.mpol = C.i("mpol"); s.ntor = C.i("ntor"); s.lthreed = %s; auto& b = RawR<vmecpp::FourierBasisFastPoloidal>(); new (&b.mscale) decltype(b.mscale)(); b.mscale = C.e("mscale"); new (&b.nscale) decltype(b.nscale)(); b.nscale = C.e("nscale");' % ('true' if three else 'false')
         + ''.join('res.%s = C.m<decltype(res.%s)>("%s", fc.ns, s.mpol * (s.ntor + 1));' % (n, n, n) for n in nm))


for la in (0, 1):
    for th in (0, 1):
        axis(bool(la), bool(th))


def bpol2(E, v, o, k, l):
    def vac():
        return 2 * o('vmp', l, k) - o('vbphi', l, k) * o('vbphi', l, k)

    def fixed():
        x = lambda n: E.frac(3, 2) * o(n, v.ns - 2, k, l) - E.frac(1, 2) * o(n, v.ns - 3, k, l)
        b = x('bsupv') * o('redge', k, l)
        return 2 * x('total_pressure') - b * b
    return lazy_branch(E, E.and_(v.lfreeb, E.eq(v.vac, 2)), vac, fixed)


# current-like norm 1 / (<a> int Bpol^2 dA), without the factor 4 pi^2
fnorm = lambda E, v, o: v.surf_area_p / v.volume_p / S2(E, v, lambda k, l: bpol2(E, v, o, k, l) * o('surf_area', k, l))
fl = lambda E, v, o: fnorm(E, v, o) / (4 * E.pi * E.pi)
w = lambda o, k, l: o('redge', k, l) * o('phat', k, l) * o('wInt', l)
zF = lambda v, o, k, l: o('z_e', v.ns - 1, k, l) + o('z_o', v.ns - 1, k, l)
sr0 = lambda E, v, o: fnorm(E, v, o) * S2(E, v, lambda k, l: w(o, k, l) * o('zuFull', v.ns - 1, k, l))
sr1 = lambda E, v, o: fnorm(E, v, o) * S2(E, v, lambda k, l: w(o, k, l) * o('zuFull', v.ns - 1, k, l) * o('redge', k, l))
sz1 = lambda E, v, o: -fnorm(E, v, o) * S2(E, v, lambda k, l: w(o, k, l) * o('ruFull', v.ns - 1, k, l) * zF(v, o, k, l))
rlao = lambda E, v, o: v.volume_p / (2 * E.pi * v.cross_area_p)
K = oq('shafranov_integrals', 'ComputeThreed1ShafranovIntegrals', 'total_pressure bsupv z_e z_o zuFull ruFull'.split(),
       dict(i=(GI, dict(redge=FL1, surf_area=FL1, phat=FL1, **num('rshaf sumbpol sump vnorm musubi'))), g=(GM, num('volume_p surf_area_p circum_p cross_area_p rcen'))), params='s f h v i g st')
K.reals['currv'] = (-1, 1)
K.local_shapes['bpol2vac'] = FL1
withhand(K)
K.arrays['vbphi'] = lambda v: (v.nth, v.nZeta)
K.extra_args = (lambda x: lambda v, K=K: (lambda d: (d['h'].fields.update(vacuum_b_phi=K.ref('vbphi')), d)[1])(x(v)))(K.extra_args)
K.args = (lambda a: lambda K, M: (lambda r: (K.res.fields.update(currv=K.v.currv), r)[1])(a(K, M)))(K.args)
K.rng.update(total_pressure=(4, 5), bsupv=(.1, .5), redge=(1, 2), surf_area=(.5, 1), vmp=(4, 5), vbphi=(0, 1))
K.pre = (lambda p: lambda E, v: p(E, v) + [x > 0 for x in (v.volume_p, v.surf_area_p, v.circum_p, v.cross_area_p, v.rcen)])(K.pre)
K.returns = True
done(K, HGLUE + 'res.currv = C.r("currv"); new (&h.vacuum_b_phi) decltype(h.vacuum_b_phi)(); h.vacuum_b_phi = C.e("vbphi");')
er = lambda *a: sr1(*a) + sz1(*a)
scalars(K, dict(scaling_ratio=lambda E, v, o: fl(E, v, o) * v.currv / v.circum_p * v.currv / v.circum_p * v.volume_p, r_lao=rlao, f_lao=lambda E, v, o: v.rshaf / rlao(E, v, o), f_geo=lambda E, v, o: v.rshaf / v.rcen,
    smaleli=lambda E, v, o: fl(E, v, o) * v.sumbpol, betai=lambda E, v, o: 2 * fl(E, v, o) * v.sump, musubi=lambda E, v, o: v.vnorm * fl(E, v, o) * v.musubi,
    s11=lambda E, v, o: er(E, v, o) - v.rshaf * sr0(E, v, o), s12=lambda E, v, o: er(E, v, o) - v.rcen * sr0(E, v, o), s13=lambda E, v, o: er(E, v, o) - rlao(E, v, o) * sr0(E, v, o),
    s2=lambda E, v, o: sr0(E, v, o) * v.rshaf, s3=sz1, delta1=lambda E, v, o: 0, delta2=lambda E, v, o: 1 - v.rshaf / v.rcen, delta3=lambda E, v, o: 1 - v.rshaf / rlao(E, v, o)) | {'lambda': lambda E, v, o: fl(E, v, o) * (v.sumbpol / 2 + 2 * v.sump)})


# ---- geometric and magnetic summary
absf = lambda E, x: E.abs(x) if E.num else absr(P(x))
area = lambda E, v, o: 2 * E.pi * absf(E, S2(E, v, lambda k, l: edge(o, v, 'r', k, l) * edge(o, v, 'zu', k, l) * o('wInt', l)))
vol = lambda E, v, o: 2 * E.pi * E.pi * absf(E, S2(E, v, lambda k, l: edge(o, v, 'r', k, l) * edge(o, v, 'r', k, l) * edge(o, v, 'zu', k, l) * o('wInt', l)))
amin = lambda E, v, o: E.sqrt(area(E, v, o) / E.pi)
rmaj = lambda E, v, o: vol(E, v, o) / (2 * E.pi * area(E, v, o))
sarea = lambda E, v, o: 4 * E.pi * E.pi * S2(E, v, lambda k, l: o('surf_area', k, l))


def kappa(E, v, o):
    d = sarea(E, v, o) * amin(E, v, o) / (2 * vol(E, v, o))
    return 1 + E.pi * E.pi / 8 * (d * d + E.sqrt(absf(E, d * d * d * d - 1)) - 1)


over = lambda n: lambda E, v, o: lazy_branch(E, E.eq(v.s2, 0), lambda: getattr(v, n), lambda: getattr(v, n) / v.s2)
vab = lambda E, v, o: E.sqrt(absf(E, v.sumbtot / vol(E, v, o)))
jp = lambda f: lambda E, v, o, j: lazy_branch(E, E.eq(j, 0), lambda: 0, lambda: f(E, v, o, j) / E.ite(E.eq(o('jperp2', j), 0), E.frac(1, 2 ** 52), o('jperp2', j)))
only = lambda f: lambda E, v, o, *d: f(E, v, o, *d) if E.num else None


def xR(o, j, k, l):
    return o('r_e', j, k, l) + o('sqrtSF', j) * o('r_o', j, k, l)


half_k = lambda E, v: v.nZeta // 2 if E.num else idiv(v.nZeta, P(2))


def ygeo(many):
    def f(E, v, o, q, j):
        at = lambda k: (xR(o, j, k, 0) - xR(o, j, k, v.nThetaReduced - 1)) / 2
        return lazy_branch(E, E.eq(j, 0), lambda: 0, lambda: lazy_branch(E, E.eq(q, 0), lambda: at(0), lambda: at(half_k(E, v)) if many else 0))
    return f


def waist(E, v, o, q):
    at = lambda k: edge(o, v, 'r', k, 0) - edge(o, v, 'r', k, v.nThetaReduced - 1)
    return lazy_branch(E, E.eq(q, 0), lambda: at(0), lambda: at(half_k(E, v)))


pts = lambda v: [(k, l) for k in range(v.nZeta) for l in range(v.nth)]
modb = lambda E, v, o, j, l: [E.sqrt(2 * (o('total_pressure', j, k, l) - o('presH', j))) for k in range(v.nZeta)]
EXT = dict(rmax_surf=only(lambda E, v, o: max(edge(o, v, 'r', k, l) for k, l in pts(v))), rmin_surf=only(lambda E, v, o: min(edge(o, v, 'r', k, l) for k, l in pts(v))),
           zmax_surf=only(lambda E, v, o: max([0.] + [edge(o, v, 'z', k, l) for k, l in pts(v)])))
EXTV = dict(bmin=(lambda v: (v.ns - 1, v.nThetaReduced), only(lambda E, v, o, j, l: min(modb(E, v, o, j, l)))), bmax=(lambda v: (v.ns - 1, v.nThetaReduced), only(lambda E, v, o, j, l: max(modb(E, v, o, j, l)))))
height = lambda E, v, o, q: 2 * max([0.] + [edge(o, v, 'z', 0 if q == 0 else half_k(E, v), l) for l in range(v.nth)])


def geomag(name, many, out, ret):
    K = oq(name, 'ComputeThreed1GeometricMagneticQuantities', 'bsupv r_e r_o zu_e zu_o z_e z_o total_pressure presH sqrtSF'.split(),
           dict(x=('JxBOutFileContents', dict(jpar2=F1, jperp2=F1)), t=('Threed1FirstTableIntermediate', dict(tau=half)),
                i=(GI, dict(surf_area=FL1, r3v=H1, jPS2=F1, **num('anorm circumference_sum sump fpsi0 sumbpol sumbtot sumbtor sump20 s2 jpar_perp_sum jparPS_perp_sum')))), params='s f h v x t i', ret=ret)
    K.dyn['o_psi'] = (K.dyn['o_psi'][0], K.dyn['o_psi'][1], lambda E, v, o, j, K=K: K.R('psi', E, v, o, j))
    withhand(K)
    K.ints['ntor'] = (0, 2)
    K.pre = (lambda p: lambda E, v: p(E, v) + [E.implies(v.ntor > 0, v.nZeta > 1), v.ntor >= 0, v.nth >= v.nThetaReduced, (v.nZeta > 1) if many else E.eq(v.nZeta, 1), v.r_00 > 0, v.s2 >= 0, v.sumbpol > 0, v.sumbtot > 0, v.sumbtor > 0])(K.pre)

    def gen(r, v, g=K.gen):
        v.nZeta = r.randint(2, 5) if many else 1
        v.ntor = r.randint(0, 2) if many else 0
        g(r, v)
        v.s2 = r.choice([0., v.s2])
    K.gen = gen
    K.sizes = lambda v: dict(ntor=v.ntor)
    if not many:
        K.args = (lambda a: lambda K, M: (setattr(K.v, 'nZeta', P(1)), a(K, M))[1])(K.args)
    K.reals.update(r_outer=(3, 4), r_inner=(1, 2), r_00=(2, 3))
    K.contracts = dict(GetRadialExtent=lambda M, st, this, args, K=K: Obj('ext', 'RadialExtent', fields=dict(r_outer=K.v.r_outer, r_inner=K.v.r_inner)),
                       GetGeometricOffset=lambda M, st, this, args, K=K: Obj('off', 'GeometricOffset', fields=dict(r_00=K.v.r_00)))
    K.rng.update(total_pressure=(2, 3), presH=(0, 1), r_e=(4, 5), r_o=(.1, .5), tau=(.5, 1), surf_area=(.5, 1))
    K.opaque_scans = True       # extremes of the cross sections and of |B| on a surface: bounded (concrete runs)
    K.open_arrays = ('bmin bmax height yinden yellip ytrian yshift' + ' waist' * many).split()
    n2 = lambda v: (2 if many else 1,)
    K.local_shapes.update(bmin=lambda v: (v.ns - 1, v.nThetaReduced), bmax=lambda v: (v.ns - 1, v.nThetaReduced), waist=n2, height=n2)
    for n in 'ygeo yinden yellip ytrian yshift'.split():
        K.local_shapes[n] = lambda v: (2, v.ns)
    K.notes.append('rmax_surf, rmin_surf, zmax_surf, bmin, bmax, height (and waist with several planes): compared in the concrete runs only (bounded); indentation, ellipticity, triangularity and shift are not specified')
    K.returns = True
    K.rec = dict(psi=lambda E, v, o, j, K=K: lazy_branch(E, j <= 0, lambda: 0, lambda: K.R('psi', E, v, o, j - 1) + o('r3v', j - 1)))
    K.recur = dict(psi=[lambda E, v, o, j, K=K: K.R('psi', E, v, o, j)])
    done(K, HGLUE + 's.ntor = C.i("ntor"); h.SetRadialExtent({C.r("r_outer"), C.r("r_inner")}); h.SetGeometricOffset({C.r("r_00"), 0.0});')
    scalars(K, out)
    return K


SUM1 = dict(toroidal_flux=lambda E, v, o: v.anorm * SH(E, v, lambda *i: o('bsupv', *i) * o('tau', *i)), circum_p=lambda E, v, o: 2 * E.pi * v.circumference_sum, surf_area_p=sarea, cross_area_p=area, volume_p=vol,
            Rmajor_p=rmaj, Aminor_p=amin, aspect=lambda *a: rmaj(*a) / amin(*a), kappa_p=kappa, rcen=lambda E, v, o: (v.r_outer + v.r_inner) / 2, aminr1=lambda E, v, o: E.sqrt(2 * vol(E, v, o) / (4 * E.pi * E.pi * v.r_00)),
            pavg=lambda E, v, o: v.sump / vol(E, v, o), factor=lambda E, v, o: 2 * v.sump / vol(E, v, o), b0=lambda E, v, o: v.fpsi0 / v.r_00,
            betapol=lambda E, v, o: 2 * v.sump / v.sumbpol, betatot=lambda E, v, o: v.sump20 / v.sumbtot, betator=lambda E, v, o: v.sump20 / v.sumbtor, VolAvgB=vab, IonLarmor=lambda E, v, o: 3.2e-3 / vab(E, v, o),
            jpar_perp=over('jpar_perp_sum'), jparPS_perp=over('jparPS_perp_sum'), toroidal_current=lambda E, v, o: v.cTor / mu0(E), rbtor=lambda E, v, o: v.rBtor, rbtor0=lambda E, v, o: v.rBtor0)
for many in (False, True):
    two = (lambda v: (2,)) if many else (lambda v: (1,))
    geomag('summary_%s' % ('planes' if many else 'axisymmetric'), many, dict(SUM1, **EXT), dict(
        psi=(F1, 'psi'), loc_jpar_perp=(F1, jp(lambda E, v, o, j: o('jpar2', j))), loc_jparPS_perp=(F1, jp(lambda E, v, o, j: lazy_branch(E, E.eq(j, v.ns - 1), lambda: 0, lambda: o('jPS2', j)))),
        ygeo=(lambda v: (2, v.ns), ygeo(many)), waist=(two, only(waist) if many else waist), height=(two, only(height)), **EXTV))
