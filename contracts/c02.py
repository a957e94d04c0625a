"""derived resolution"""
from vc.contract import *

SRC = 'vmecpp/common/sizes/sizes.cc'
CONTRACTS = []
SOURCES = [SRC]
PREAMBLE = '#include "vmecpp/common/sizes/sizes.h"\n#include "vmecpp/common/vmec_indata/vmec_indata.h"\n'

K = Contract('sizes', SRC, 'Sizes', 'Sizes', 8)
K.bools = ['lasym']
K.ints = dict(nfp=(1, 5), mpol=(1, 9), ntor=(0, 6), ntheta=(0, 40), nzeta=(-1, 24), mpol_geometry=(-2, 10), ntor_geometry=(-2, 7))
K.pre = lambda E, v: [v.nfp >= 1, v.mpol >= 1, v.ntor >= 0, v.nzeta >= -1000]
K.cases = 200


def args(K, M):
    v = K.v
    K.this_obj = Obj('this', 'Sizes')
    return [v.lasym, v.nfp, v.mpol, v.ntor, v.ntheta, v.nzeta, v.mpol_geometry, v.ntor_geometry], K.this_obj


K.args = args
K.pre = lambda E, v: [v.nfp >= 1, v.mpol >= 1, v.ntor >= 0, E.or_(v.ntor > 0, v.nzeta >= 0, v.nzeta < 0)]


class S:
    def __init__(s, E, v):
        s.nth = E.max(v.ntheta, 2 * v.mpol + 6)
        s.nze = E.ite(v.ntor > 0, E.max(v.nzeta, 2 * v.ntor + 4), E.max(v.nzeta, 1))
        s.even = 2 * E.idiv(s.nth, 2)
        s.red = E.idiv(s.nth, 2) + 1
        s.eff = E.ite(v.lasym, s.even, s.red)
        # Nyquist limits: at least what the grid resolves and what the state holds
        s.mnyq = E.max(E.idiv(s.nth, 2), v.mpol - 1)
        s.nnyq = E.max(E.idiv(s.nze, 2), v.ntor)


SPEC = {
    'nfp': lambda E, v, o: v.nfp, 'mpol': lambda E, v, o: v.mpol, 'ntor': lambda E, v, o: v.ntor,
    'mpolGeometry': lambda E, v, o: E.ite(E.and_(v.mpol_geometry >= 1, v.mpol_geometry <= v.mpol), v.mpol_geometry, v.mpol),
    'ntorGeometry': lambda E, v, o: E.ite(E.and_(v.ntor_geometry >= 0, v.ntor_geometry <= v.ntor), v.ntor_geometry, v.ntor),
    'ntheta': lambda E, v, o: S(E, v).nth, 'nZeta': lambda E, v, o: S(E, v).nze,
    'num_basis': lambda E, v, o: E.ite(v.ntor > 0, 2, 1) * E.ite(v.lasym, 2, 1),
    'nThetaEven': lambda E, v, o: S(E, v).even, 'nThetaReduced': lambda E, v, o: S(E, v).red,
    'nThetaEff': lambda E, v, o: S(E, v).eff, 'nZnT': lambda E, v, o: S(E, v).eff * S(E, v).nze,
    'mnsize': lambda E, v, o: v.mpol * (v.ntor + 1),
    'mnmax': lambda E, v, o: v.ntor + 1 + (v.mpol - 1) * (2 * v.ntor + 1),
    'mnyq': lambda E, v, o: S(E, v).mnyq, 'nnyq': lambda E, v, o: S(E, v).nnyq,
    'mnyq2': lambda E, v, o: 2 * S(E, v).mnyq, 'nnyq2': lambda E, v, o: 2 * S(E, v).nnyq,
    'mnmax_nyq': lambda E, v, o: S(E, v).nnyq + 1 + S(E, v).mnyq * (2 * S(E, v).nnyq + 1),
    'lasym': lambda E, v, o: v.lasym, 'lthreed': lambda E, v, o: v.ntor > 0,
}
K.outs = {n: (field(n), s) for n, s in SPEC.items()}


def wint(E, v, old, l):
    s = S(E, v)
    full = 1 / (s.nze * s.even) if E.num else ONE / (s.nze * s.even)
    half = 1 / (s.nze * E.idiv(s.nth, 2)) if E.num else ONE / (s.nze * E.idiv(s.nth, 2))
    edge = E.or_(E.eq(l, 0), E.eq(l, s.red - 1))
    return E.ite(v.lasym, full, E.ite(edge, E.frac(1, 2), 1) * half)


K.dyn = {'wInt': (field('wInt'), lambda E, v: (S(E, v).eff,), wint)}


def lemmas(K):
    """the quadrature weights integrate constants exactly: nZeta * sum wInt = 1"""
    E, v = SymE(), K.v
    h, z = fresh('h'), fresh('z')      # h = ntheta/2 >= 1 gaps, z = nZeta
    pre = [h >= 1, z >= 1]
    c = Ctx(tuple(pre))
    l = fresh('l')
    w = ite(f_or(eq(l, ZERO), eq(l, h)), P(Fraction(1, 2)), ONE) / (z * h)
    s = mksum([(single_atom(l), ZERO, h + 1)], [], w, c) * z
    yield eq_lemma('symmetric weights sum to one', pre, s, ONE)
    s = mksum([(single_atom(l), ZERO, 2 * h)], [], ONE / (z * 2 * h), c) * z
    yield eq_lemma('asymmetric weights sum to one', pre, s, ONE)
    n, m = v.ntor, v.mpol
    yield eq_lemma('mode count: m=0 keeps n>=0, m>0 keeps -ntor..ntor', [n >= 0, m >= 1],
                   (n + 1) + SymE(Ctx((n >= 0, m >= 1))).sum(1, m, lambda i: 2 * n + 1), n + 1 + (m - 1) * (2 * n + 1))


K.lemmas = lemmas
K.glue = '''vmecpp::Sizes s(C.b("lasym"), C.i("nfp"), C.i("mpol"), C.i("ntor"), C.i("ntheta"), C.i("nzeta"), C.i("mpol_geometry"), C.i("ntor_geometry"));
''' + ''.join('C.out("%s", s.%s);\n' % (n, n) for n in SPEC) + 'C.outv("wInt", s.wInt);'
CONTRACTS.append(K)

K2 = Contract('sizes_from_input', SRC, 'Sizes', 'Sizes', 1)
K2.pred = lambda f: 'VmecINDATA' in f.get('type', {}).get('qualType', '')
K2.bools = K.bools
K2.ints, K2.pre, K2.cases = K.ints, K.pre, 30


def args2(K, M):
    v = K.v
    K.this_obj = Obj('this', 'Sizes')
    K.id = Obj('id', 'VmecINDATA', fields={n: v[n] for n in list(K.ints) + ['lasym']})
    return [K.id], K.this_obj


K2.args = args2
K2.outs, K2.dyn = K.outs, K.dyn
K2.glue = '''vmecpp::VmecINDATA id; id.lasym = C.b("lasym"); id.nfp = C.i("nfp"); id.mpol = C.i("mpol"); id.ntor = C.i("ntor"); id.ntheta = C.i("ntheta");
id.nzeta = C.i("nzeta"); id.mpol_geometry = C.i("mpol_geometry"); id.ntor_geometry = C.i("ntor_geometry"); vmecpp::Sizes s(id);
''' + ''.join('C.out("%s", s.%s);\n' % (n, n) for n in SPEC) + 'C.outv("wInt", s.wInt);'
CONTRACTS.append(K2)
SOURCES += ['vmecpp/common/vmec_indata/vmec_indata.cc', 'vmecpp/common/vmec_indata/boundary_from_json.cc', 'util/json_io/json_io.cc', 'util/file_io/file_io.cc', 'util/hdf5_io/hdf5_io.cc', 'vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc']
