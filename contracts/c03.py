"""Fourier basis tables and mode enumeration, both memory layouts"""
from vc.contract import *

SRC = 'vmecpp/common/fourier_basis/fourier_basis.cc'
CONTRACTS = []
SOURCES = [SRC, 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/util/util.cc']
PREAMBLE = '#define private public\n#include "vmecpp/common/fourier_basis/fourier_basis.h"\n#undef private\n'
CHUNK = 2
LAY = {'pol': 'FourierBasisFastPoloidalLayout', 'tor': 'FourierBasisFastToroidalLayout'}
MK = '''vmecpp::Sizes s(false, 1, 2, 1, 10, 6);
'''


def layout(tag):
    return lambda f: tag in f.get('mangledName', '')


POL = 'cosmu sinmu cosmum sinmum cosmui sinmui cosmumi sinmumi'.split()
TOR = 'cosnv sinnv cosnvn sinnvn'.split()


def basis(lay):
    K = Contract('basis_tables_' + lay, SRC, 'computeFourierBasis', 'FourierBasis')
    K.pred = layout(LAY[lay])
    K.ints = dict(nfp=(1, 5), mnyq2=(0, 6), nnyq2=(0, 6), half=(1, 6), nZeta=(1, 6))
    # half = nThetaEven/2 gaps on [0, pi], nThetaReduced = half + 1
    K.pre = lambda E, v: [v.nfp >= 1, v.mnyq2 >= 0, v.nnyq2 >= 0, v.half >= 1, v.nZeta >= 1]
    K.arrays = {'mscale': lambda v: (v.mnyq2 + 1,), 'nscale': lambda v: (v.nnyq2 + 1,)}
    pol = lay == 'pol'
    for n in POL:
        K.arrays[n] = (lambda v: (v.mnyq2 + 1, v.half + 1)) if pol else (lambda v: (v.half + 1, v.mnyq2 + 1))
    for n in TOR:
        K.arrays[n] = (lambda v: (v.nZeta, v.nnyq2 + 1)) if pol else (lambda v: (v.nnyq2 + 1, v.nZeta))

    def args(K, M):
        v = K.v
        s = Obj('s', 'Sizes', fields={'mnyq2': v.mnyq2, 'nnyq2': v.nnyq2, 'nThetaReduced': v.half + 1, 'nThetaEven': 2 * v.half, 'nZeta': v.nZeta})
        f = {n: K.ref(n) for n in K.arrays}
        f['s_'] = s
        K.this_obj = Obj('this', 'FourierBasis', fields=f)
        return [v.nfp], K.this_obj
    K.args = args
    scale = lambda E, x: E.ite(E.eq(x, 0), 1, E.sqrt2)
    K.post['mscale'] = lambda E, v, o, m: scale(E, m)
    K.post['nscale'] = lambda E, v, o, n: scale(E, n)

    def pspec(name):
        def f(E, v, o, a, b):
            m, l = (a, b) if pol else (b, a)
            arg = m * l * E.pi / v.half
            r = (E.cos(arg) if name.startswith('cos') else E.sin(arg)) * scale(E, m)
            t = name[5:]
            if 'm' in t:
                r = r * (m if name.startswith('cos') else -m)
            if 'i' in t:
                r = r / (v.nZeta * v.half)
                if name.startswith('cos'):
                    r = r * E.ite(E.or_(E.eq(l, 0), E.eq(l, v.half)), E.frac(1, 2), 1)
            return r
        return f
    for n in POL:
        K.post[n] = pspec(n)
    # sine integration weights: the endpoint factor is immaterial (sin(m*0) = 0, sin(m*pi) = 0)

    def tspec(name):
        def f(E, v, o, a, b):
            k, n = (a, b) if pol else (b, a)
            arg = 2 * n * k * E.pi / v.nZeta
            r = (E.cos(arg) if name.startswith('cos') else E.sin(arg)) * scale(E, n)
            if name.endswith('n'):
                r = r * (n if name.startswith('cos') else -n) * v.nfp
            return r
        return f
    for n in TOR:
        K.post[n] = tspec(n)
    # cosnvn etc: 'cosnvn' ends with n, 'cosnv' does not
    T_ = 'vmecpp::FourierBasis<vmecpp::%s>' % LAY[lay]
    K.glue = '''vmecpp::Sizes s(false, C.i("nfp"), 1, 0, 8, 1);
s.mnyq2 = C.i("mnyq2"); s.nnyq2 = C.i("nnyq2"); s.nThetaReduced = C.i("half") + 1; s.nThetaEven = 2 * C.i("half"); s.nZeta = C.i("nZeta");
s.mnmax = 1; s.mnmax_nyq = (s.nnyq2 / 2 + 1) + (s.mnyq2 / 2) * (2 * (s.nnyq2 / 2) + 1); s.mnyq = s.mnyq2 / 2; s.nnyq = s.nnyq2 / 2;
%s b(&s);
%s''' % (T_, ''.join('C.set("%s", b.%s);\n' % (n, n) for n in K.arrays))
    K.rtol = 1e-9
    return K


def modes(lay):
    """mode table: m = 0: n = 0..ntor, then m > 0: n = -ntor..ntor"""
    K = Contract('mode_table_' + lay, SRC, 'computeConversionIndices', 'FourierBasis')
    K.pred = layout(LAY[lay])
    K.ints = dict(n_size=(0, 5), m_size=(1, 6), nfp=(1, 4))
    K.pre = lambda E, v: [v.n_size >= 0, v.m_size >= 1, v.nfp >= 1]
    # padded in front by n_size entries: entry (m, n + n_size) of the padded
    # array is the mode (m, n); the first n_size padded entries do not exist
    K.arrays = {'xm': lambda v: (v.m_size, 2 * v.n_size + 1), 'xn': lambda v: (v.m_size, 2 * v.n_size + 1)}
    K.sorts = {'xm': 'i', 'xn': 'i'}

    def args(K, M):
        v = K.v
        K.this_obj = Obj('this', 'FourierBasis', fields={})
        out = []
        for n in ('xm', 'xn'):
            b = K.block(n)
            b.lo = v.n_size
            out.append(ArrRef(b, (), v.n_size, b.total() - v.n_size))
        return out + [v.n_size, v.m_size, v.nfp], K.this_obj
    K.args = args
    K.post = {'xm': lambda E, v, o, m, c: E.ite(E.and_(E.eq(m, 0), c < v.n_size), o('xm', m, c), m),
              'xn': lambda E, v, o, m, c: E.ite(E.and_(E.eq(m, 0), c < v.n_size), o('xn', m, c), (c - v.n_size) * v.nfp)}
    K.glue = MK + '''vmecpp::FourierBasis<vmecpp::%s> b(&s); int p = C.i("n_size"); int tot = C.iv("xm").size() - p;
Eigen::VectorXi xm(tot), xn(tot);
b.computeConversionIndices(xm, xn, p, C.i("m_size"), C.i("nfp"));
for (int k = 0; k < tot; ++k) { C.iv("xm")[p + k] = xm[k]; C.iv("xn")[p + k] = xn[k]; }''' % LAY[lay]
    return K


def mnidx(lay):
    K = Contract('mode_index_' + lay, SRC, 'mnIdx', 'FourierBasis')
    K.pred = layout(LAY[lay])
    K.ints = dict(m=(0, 6), n=(-5, 5), ntor=(0, 5))
    K.pre = lambda E, v: [v.ntor >= 0, v.m >= 0, v.n <= v.ntor, v.n >= -v.ntor, E.or_(v.m > 0, v.n >= 0)]

    def args(K, M):
        s = Obj('s', 'Sizes', fields={'ntor': K.v.ntor})
        return [K.v.m, K.v.n], Obj('this', 'FourierBasis', fields={'s_': s})
    K.args = args
    # position of (m, n) in the mode table: padded position minus the padding
    K.ret = lambda E, v, o: v.m * (2 * v.ntor + 1) + v.n
    K.glue = '''vmecpp::Sizes s(false, 1, 7, C.i("ntor"), 30, 30); vmecpp::FourierBasis<vmecpp::%s> b(&s); C.out("ret", b.mnIdx(C.i("m"), C.i("n")));''' % LAY[lay]
    K.cases = 30
    return K


def mnmax(lay):
    K = Contract('mode_count_' + lay, SRC, 'mnMax', 'FourierBasis')
    K.pred = layout(LAY[lay])
    K.ints = dict(m_size=(1, 6), n_size=(0, 5))
    K.pre = lambda E, v: [v.m_size >= 1, v.n_size >= 0]
    K.args = lambda K, M: ([K.v.m_size, K.v.n_size], Obj('this', 'FourierBasis'))
    K.ret = lambda E, v, o: v.m_size * (2 * v.n_size + 1) - v.n_size
    K.glue = MK + '''vmecpp::FourierBasis<vmecpp::%s> b(&s); C.out("ret", b.mnMax(C.i("m_size"), C.i("n_size")));''' % LAY[lay]
    return K


for lay in LAY:
    CONTRACTS += [basis(lay), modes(lay), mnidx(lay), mnmax(lay)]
