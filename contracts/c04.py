"""conversion between combined (m theta - n zeta) and product Fourier bases"""
from vc.contract import *

SRC = 'vmecpp/common/fourier_basis/fourier_basis.cc'
CONTRACTS = []
SOURCES = [SRC, 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/util/util.cc']
PREAMBLE = '#define private public\n#include "vmecpp/common/fourier_basis/fourier_basis.h"\n#undef private\n'
LAY = {'pol': 'FourierBasisFastPoloidalLayout', 'tor': 'FourierBasisFastToroidalLayout'}
ASSUME = ['the scale factors mscale[m], nscale[n] are non-zero (they are 1 or sqrt 2: proved under C03)']


def layout(tag):
    return lambda f: tag in f.get('mangledName', '')


def signum_post(E, x):
    return E.ite(x > 0, 1, E.ite(x < 0, -1, 0))


KS = Contract('signum', 'vmecpp/common/util/util.cc', 'signum')
KS.ints = dict(x=(-5, 5))
KS.args = lambda K, M: [K.v.x]
KS.ret = lambda E, v, o: signum_post(E, v.x)
KS.glue = 'C.out("ret", vmecpp::signum(C.i("x")));'
CONTRACTS.append(KS)


def conv(lay, func, comb, prods, forward):
    K = Contract('%s_%s' % (func, lay), SRC, func, 'FourierBasis')
    K.pred = layout(LAY[lay])
    pol = lay == 'pol'
    K.ints = dict(n_size=(0, 4), m_size=(1, 5), mx=(0, 2), nx=(0, 2))
    K.pre = lambda E, v: [v.n_size >= 0, v.m_size >= 1, v.mx >= 0, v.nx >= 0]
    pshape = (lambda v: (v.m_size, v.n_size + 1)) if pol else (lambda v: (v.n_size + 1, v.m_size))
    K.arrays = {'mscale': lambda v: (v.m_size + v.mx,), 'nscale': lambda v: (v.n_size + 1 + v.nx,),
                comb: lambda v: (v.m_size, 2 * v.n_size + 1)}
    K.rng = {'mscale': (1, 2), 'nscale': (1, 2)}
    for p in prods:
        K.arrays[p] = pshape

    def args(K, M):
        v = K.v
        b = K.block(comb)
        b.lo = v.n_size
        rc = ArrRef(b, (), v.n_size, b.total() - v.n_size)
        rp = [K.ref(p) for p in prods]
        this = Obj('this', 'FourierBasis', fields={'mscale': K.ref('mscale'), 'nscale': K.ref('nscale')})
        return ([rc] + rp if forward else rp + [rc]) + [v.n_size, v.m_size], this
    K.args = args
    K.contracts = {'signum': lambda M, st, this, a: signum_post(SymE(), a[0])}
    K.ret = lambda E, v, o: v.m_size * (2 * v.n_size + 1) - v.n_size
    even = comb == 'fcos'

    def fc(v, o, m, n):
        return o(comb, m, n + v.n_size)

    def first(E, v, o, a, b):
        """cc (even parity) / sc (odd): coefficient of cos/sin(m th) cos(n ze)"""
        m, n = (a, b) if pol else (b, a)
        nrm = 1 / (o('mscale', m) * o('nscale', n))
        z = (lambda: fc(v, o, m, n)) if even else (lambda: 0)
        return lazy_branch(E, E.eq(m, 0), lambda: z() * nrm,
                           lambda: lazy_branch(E, E.eq(n, 0), lambda: fc(v, o, m, n) * nrm,
                                               lambda: (fc(v, o, m, n) + fc(v, o, m, -n)) * nrm))

    def second(E, v, o, a, b):
        """ss (even) / cs (odd): coefficient of sin/cos(m th) sin(n ze)"""
        m, n = (a, b) if pol else (b, a)
        nrm = 1 / (o('mscale', m) * o('nscale', n))
        s = 1 if even else -1
        return lazy_branch(E, E.eq(n, 0), lambda: 0 * nrm,
                           lambda: lazy_branch(E, E.eq(m, 0), (lambda: 0 * nrm) if even else (lambda: -fc(v, o, m, n) * nrm),
                                               lambda: s * (fc(v, o, m, n) - fc(v, o, m, -n)) * nrm))

    def pr(o, p, m, n):
        return o(p, m, n) if pol else o(p, n, m)

    def back(E, v, o, m, c):
        n = c - v.n_size
        s = 1 if even else -1

        def norm(an):
            return o('mscale', m) * o('nscale', an)

        def m0():
            def real():
                if even:
                    return pr(o, prods[0], m, n) * norm(n)
                return lazy_branch(E, E.eq(n, 0), lambda: 0 * norm(n), lambda: -pr(o, prods[1], m, n) * norm(n))
            return lazy_branch(E, n < 0, lambda: o(comb, m, c), real)

        def mp():
            def pos():
                return E.frac(1, 2) * (pr(o, prods[0], m, n) + s * pr(o, prods[1], m, n)) * norm(n)

            def neg():
                return E.frac(1, 2) * (pr(o, prods[0], m, -n) - s * pr(o, prods[1], m, -n)) * norm(-n)
            return lazy_branch(E, E.eq(n, 0), lambda: pr(o, prods[0], m, n) * norm(n),
                               lambda: lazy_branch(E, n > 0, pos, neg))
        return lazy_branch(E, E.eq(m, 0), m0, mp)
    if forward:
        K.post = {prods[0]: first, prods[1]: second}
    else:
        K.post = {comb: back}
    pad = 'int p = C.i("n_size"); Eigen::VectorXd full = C.e("%s"); Eigen::VectorXd comb = full.tail(full.size() - p);\n' % comb
    spn = lambda e: 'std::span<double>(%s.data(), %s.size())' % (e, e)
    al = [spn('comb')] + ['std::span<double>(C.p("%s"), C.v("%s").size())' % (p, p) for p in prods]
    if not forward:
        al = al[1:] + al[:1]
    K.glue = '''vmecpp::Sizes s(false, 1, 8, 6, 30, 20); vmecpp::FourierBasis<vmecpp::%s> b(&s); b.mscale = C.e("mscale"); b.nscale = C.e("nscale");
%sC.out("ret", b.%s(%s, C.i("n_size"), C.i("m_size")));
for (int k = 0; k < comb.size(); ++k) C.p("%s")[p + k] = comb[k];''' % (LAY[lay], pad, func, ', '.join(al), comb)
    K.spec_parts = (first, second, back, prods, comb, even, pol)
    return K


def lemmas_for(K):
    """the product-basis coefficients describe the same function, and going
    there and back is the identity: consequences of the contracts alone"""
    first, second, back, prods, comb, even, pol = K.spec_parts

    def lem(K):
        v, E = K.v, SymE()
        m, n = fresh('m'), fresh('n')
        A, B = fresh('fpos', 'r'), fresh('fneg', 'r')
        ms, ns = fresh('ms', 'r'), fresh('ns', 'r')

        def o(name, *d):
            if name == 'mscale':
                return ms
            if name == 'nscale':
                return ns
            if name == comb:
                k = d[1] - v.n_size
                if k == n:
                    return A
                if k == -n:
                    return B
            raise KeyError(name)
        base = [m >= 0, n >= 0, v.n_size >= n, v.m_size > m]
        cm, sm, cn, sn = (fresh(x, 'r') for x in ('cm', 'sm', 'cn', 'sn'))
        for case, pre in (('m>0,n>0', [m >= 1, n >= 1]),):
            c = Ctx(tuple(base + pre))
            dig = (m, n) if pol else (n, m)
            p1 = c.simp(P(first(SymE(c), v, o, *dig)))
            p2 = c.simp(P(second(SymE(c), v, o, *dig)))
            if even:   # cos(a-b), cos(a+b)
                lhs = A * (cm * cn + sm * sn) + B * (cm * cn - sm * sn)
                rhs = (p1 * cm * cn + p2 * sm * sn) * ms * ns
            else:      # sin(a-b), sin(a+b)
                lhs = A * (sm * cn - cm * sn) + B * (sm * cn + cm * sn)
                rhs = (p1 * sm * cn + p2 * cm * sn) * ms * ns
            yield eq_lemma('same function, %s' % case, base + pre, lhs, rhs)

            def o2(name, *d):
                if name in ('mscale', 'nscale'):
                    return o(name, *d)
                if name == prods[0]:
                    return p1
                if name == prods[1]:
                    return p2
                return ZERO     # branch excluded by the case
            for sgn, want in ((1, A), (-1, B)):
                got = back(SymE(c), v, o2, m, v.n_size + sgn * n)
                yield eq_lemma('round trip, %s, n %s 0' % (case, '>' if sgn > 0 else '<'), base + pre, got, want)
    return lem


for lay in LAY:
    Ks = [conv(lay, 'cos_to_cc_ss', 'fcos', ['cc', 'ss'], True), conv(lay, 'sin_to_sc_cs', 'fsin', ['sc', 'cs'], True),
          conv(lay, 'cc_ss_to_cos', 'fcos', ['cc', 'ss'], False), conv(lay, 'sc_cs_to_sin', 'fsin', ['sc', 'cs'], False)]
    Ks[0].lemmas = lemmas_for(Ks[0])
    Ks[1].lemmas = lemmas_for(Ks[1])
    CONTRACTS += Ks
