"""Free boundary: the vacuum potential problem"""
from vc.contract import *
from contracts.c18 import grid as grid0, sizes, part, at, mine, even, eff, npts, GLUE, SET, GET

D = 'vmecpp/free_boundary/'
LS = D + 'laplace_solver/laplace_solver.cc'
RI = D + 'regularized_integrals/regularized_integrals.cc'
SI = D + 'singular_integrals/singular_integrals.cc'
SOURCES = [LS, RI, SI]
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <span>
#include <optional>
#include <iostream>
#include <algorithm>
#define private public
#include "vmecpp/free_boundary/laplace_solver/laplace_solver.h"
#include "vmecpp/free_boundary/regularized_integrals/regularized_integrals.h"
#include "vmecpp/free_boundary/singular_integrals/singular_integrals.h"
#undef private
template <class T> static T& RawR() { return *(T*)calloc(1, sizeof(T) + 64); }
'''
CHUNK = 1
CONTRACTS = []
W = 'cosnv_scaled sinnv_scaled cosmui_scaled sinmui_scaled'.split()


def laplace(name, func):
    K = grid0(name, func, 'LaplaceSolver', LS)
    K.arrays = {}
    K.ints.update(nf=(0, 2), mf=(0, 2))
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.nf >= 0, v.mf >= 0])(K.pre)
    K.extra = {}

    def args(K, M):
        v = K.v
        f = dict(s_=sizes(K), tp_=part(K), nf=v.nf, mf=v.mf, numLocal=npts(v))
        for n in K.arrays:
            if n in W:
                K.block(n).matrix = True
            if n not in K.params:
                f[n] = K.ref(n)
        K.me = Obj('ls', 'LaplaceSolver', fields=f)
        return [K.ref(n) for n in K.params], K.me
    K.args = args
    K.params = []
    return K


N = lambda v: 2 * v.nf + 1
shapes = dict(cosnv_scaled=lambda v: (v.nf + 1, v.nZeta), sinnv_scaled=lambda v: (v.nf + 1, v.nZeta), cosmui_scaled=lambda v: (v.nThetaReduced, v.mf + 1), sinmui_scaled=lambda v: (v.nThetaReduced, v.mf + 1))
for n in ('grpmn_sin', 'grpmn_cos'):
    shapes[n] = lambda v: (2 * v.nf + 1, v.mf + 1, npts(v))
for n in ('gstore_symm', 'gstore_asym'):
    shapes[n] = lambda v: (v.nThetaReduced, v.nZeta)
for n in 'bcos bsin bcos_asym bsin_asym'.split():
    shapes[n] = lambda v: (N(v), v.nThetaReduced)
for n in 'actemp astemp actemp_cos astemp_cos'.split():
    shapes[n] = lambda v: (N(v) * (v.mf + 1), N(v), eff(NumE() if isinstance(v.nf, int) else SymE(), v))
for n in ('bvec_sin', 'bvec_cos'):
    shapes[n] = lambda v: (N(v), v.mf + 1)
for n in 'amat_sin_sin amat_sin_cos amat_cos_sin amat_cos_cos'.split():
    shapes[n] = lambda v: (N(v), v.mf + 1, N(v) * (v.mf + 1))


def use(K, *names):
    for n in names:
        K.arrays[n] = shapes[n]


def fix(K, lasym):
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym if lasym else E.not_(v.lasym)])(K.pre)

    def gen(r, v, g=K.gen):
        v.lasym = lasym
        g(r, v)
    K.gen = gen

    def args(K, M, g=K.args):
        r = g(K, M)
        K.me.fields['s_'].fields['lasym'] = TRUE if lasym else FALSE
        return r
    K.args = args


def glue(K, call, extra=''):
    """driver: an object with the members the contract names"""
    g = GLUE + 'const int nf = C.i("nf"), mf = C.i("mf"), nm = (2 * nf + 1) * (mf + 1); std::vector<double> share(4 * nm * nm), bs(2 * nm); std::vector<int> piv(2 * nm);' + \
        'fb.nscale = Eigen::VectorXd::Ones(nf + 1); fb.mscale = Eigen::VectorXd::Ones(mf + 1); fb.cosnv = fb.sinnv = Eigen::VectorXd::Zero((nf + 1) * s.nZeta); fb.cosmui = fb.sinmui = Eigen::VectorXd::Zero(s.nThetaReduced * (s.mnyq2 + 1) + mf + 1);' + \
        'vmecpp::LaplaceSolver o(&s, &fb, &tp, nf, mf, share, piv, bs);'
    for n in K.arrays:
        if n in W:
            g += 'o.%s = C.m<decltype(o.%s)>("%s", %s);' % (n, n, n, 'nf + 1, s.nZeta' if 'nv' in n else 's.nThetaReduced, mf + 1')
        elif n in K.params:
            g += 'Eigen::VectorXd %s = C.e("%s");' % (n, n)
        elif n in K.extra:
            g += K.extra[n][0]
        else:
            g += 'o.%s = C.e("%s");' % (n, n)
    g += extra + call
    for n in K.arrays:
        if n not in W and n not in K.params:
            g += K.extra[n][1] if n in K.extra else 'C.set("%s", o.%s);' % (n, n)
    return g


half = lambda E: E.frac(1, 2)
rev = lambda E, n, i: E.ite(E.eq(i, 0), 0, n - i)


# ---- split of the source by symmetry
K = laplace('source_symmetry', 'SymmetriseSourceTerm')
use(K, 'gstore_symm', 'gstore_asym')
K.arrays['gstore'] = lambda v: (even(v), v.nZeta)
K.params = ['gstore']
K.post['gstore_symm'] = lambda E, v, o, l, k: (o('gstore', l, k) - o('gstore', rev(E, even(v), l), rev(E, v.nZeta, k))) * half(E)
K.post['gstore_asym'] = lambda E, v, o, l, k: lazy_branch(E, v.lasym, lambda: (o('gstore', l, k) + o('gstore', rev(E, even(v), l), rev(E, v.nZeta, k))) * half(E), lambda: o('gstore_asym', l, k))
K.glue = glue(K, 'o.SymmetriseSourceTerm(gstore);')
CONTRACTS.append(K)

# ---- Fourier transform of the Green's function derivative
K = laplace('green_derivative', 'TransformGreensFunctionDerivative')
use(K, *W, 'grpmn_sin', 'grpmn_cos')
K.arrays['greenp'] = lambda v: (npts(v), even(v), v.nZeta)
K.params = ['greenp']


def gr(cos):
    def f(E, v, o, a, m, p):
        n = E.abs(a - v.nf) if E.num else E.ite(a < v.nf, v.nf - a, a - v.nf)
        sg = E.ite(a < v.nf, -1, 1)

        def term(l, k):
            g, gr_ = o('greenp', p, l, k), o('greenp', p, rev(E, even(v), l), rev(E, v.nZeta, k))
            cm, sm, cn, sn = o('cosmui_scaled', l, m), o('sinmui_scaled', l, m), o('cosnv_scaled', n, k), o('sinnv_scaled', n, k)
            return half(E) * ((g + gr_) * (cm * cn + sg * sm * sn) if cos else (g - gr_) * (sm * cn - sg * cm * sn))
        return E.sum(0, v.nThetaReduced, lambda l: E.sum(0, v.nZeta, lambda k: term(l, k)))
    return f


K.post['grpmn_sin'] = gr(False)
K.post['grpmn_cos'] = lambda E, v, o, a, m, p: lazy_branch(E, v.lasym, lambda: gr(True)(E, v, o, a, m, p), lambda: o('grpmn_cos', a, m, p))
K.glue = glue(K, 'o.TransformGreensFunctionDerivative(greenp);')
CONTRACTS.append(K)

# ---- adding the analytic part
K = laplace('green_total', 'AccumulateFullGrpmn')
use(K, 'grpmn_sin', 'grpmn_cos')
for n in ('sing_sin', 'sing_cos'):
    K.arrays[n] = shapes['grpmn_sin']
K.params = ['sing_sin', 'sing_cos']
K.post['grpmn_sin'] = lambda E, v, o, a, m, p: o('grpmn_sin', a, m, p) + o('sing_sin', a, m, p) / v.nfp
K.post['grpmn_cos'] = lambda E, v, o, a, m, p: lazy_branch(E, v.lasym, lambda: o('grpmn_cos', a, m, p) + o('sing_cos', a, m, p) / v.nfp, lambda: o('grpmn_cos', a, m, p))
K.glue = glue(K, 'o.AccumulateFullGrpmn(sing_sin, sing_cos);')
CONTRACTS.append(K)

# ---- toroidal transforms of source and kernel
absn = lambda E, v, a: abs(a - v.nf) if E.num else E.ite(a < v.nf, v.nf - a, a - v.nf)
sgn = lambda E, v, a: E.ite(a < v.nf, -1, 1)
def bs(w, src):
    return lambda E, v, o, a, l: (sgn(E, v, a) if w == 'sin' else 1) * E.sum(0, v.nZeta, lambda k: o(w + 'nv_scaled', absn(E, v, a), k) * o(src, l, k))


def at_(w, src):
    def f(E, v, o, mn, a, l):
        return (sgn(E, v, a) if w == 'sin' else 1) * E.sum(0, v.nZeta, lambda k: lazy_branch(E, mine(E, v, l, k), lambda: o(w + 'nv_scaled', absn(E, v, a), k) * o(src, mn, l * v.nZeta + k - v.ztMin), lambda: 0))
    return f


def lasym_only(n, f):
    return lambda E, v, o, *d: lazy_branch(E, v.lasym, lambda: f(E, v, o, *d), lambda: o(n, *d))


def toroidal(lasym):
    K = laplace('toroidal_transforms_' + ('asymmetric' if lasym else 'symmetric'), 'PerformToroidalFourierTransforms')
    fix(K, lasym)
    use(K, 'cosnv_scaled', 'sinnv_scaled', 'gstore_symm', 'gstore_asym', 'grpmn_sin', 'grpmn_cos', *'bcos bsin bcos_asym bsin_asym actemp astemp actemp_cos astemp_cos'.split())
    for n in ('grpmn_sin', 'grpmn_cos'):
        K.arrays[n] = lambda v: (N(v) * (v.mf + 1), npts(v))
    K.post['bcos'], K.post['bsin'] = bs('cos', 'gstore_symm'), bs('sin', 'gstore_symm')
    K.post['actemp'], K.post['astemp'] = at_('cos', 'grpmn_sin'), at_('sin', 'grpmn_sin')
    for w, x in (('cos', 'c'), ('sin', 's')):
        K.post['b%s_asym' % w] = lasym_only('b%s_asym' % w, bs(w, 'gstore_asym'))
        K.post['a%stemp_cos' % x] = lasym_only('a%stemp_cos' % x, at_(w, 'grpmn_cos'))
    K.glue = glue(K, 'o.PerformToroidalFourierTransforms();')
    CONTRACTS.append(K)


toroidal(False)
toroidal(True)

# ---- poloidal transforms
K = laplace('poloidal_transforms', 'PerformPoloidalFourierTransforms')
use(K, 'cosmui_scaled', 'sinmui_scaled', *'bcos bsin bcos_asym bsin_asym actemp astemp actemp_cos astemp_cos bvec_sin bvec_cos amat_sin_sin amat_sin_cos amat_cos_sin amat_cos_cos'.split())
cw, sw = (lambda o, l, m: o('cosmui_scaled', l, m)), (lambda o, l, m: o('sinmui_scaled', l, m))
pol = lambda E, v, f: E.sum(0, v.nThetaReduced, f)
K.post['bvec_sin'] = lambda E, v, o, a, m: pol(E, v, lambda l: sw(o, l, m) * o('bcos', a, l) - cw(o, l, m) * o('bsin', a, l))
K.post['bvec_cos'] = lasym_only('bvec_cos', lambda E, v, o, a, m: pol(E, v, lambda l: cw(o, l, m) * o('bcos_asym', a, l) + sw(o, l, m) * o('bsin_asym', a, l)))
K.post['amat_sin_sin'] = lambda E, v, o, a, m, mn: pol(E, v, lambda l: sw(o, l, m) * o('actemp', mn, a, l) - cw(o, l, m) * o('astemp', mn, a, l))
K.post['amat_sin_cos'] = lasym_only('amat_sin_cos', lambda E, v, o, a, m, mn: pol(E, v, lambda l: cw(o, l, m) * o('actemp', mn, a, l) + sw(o, l, m) * o('astemp', mn, a, l)))
fold = lambda E, v, o, n, s, mn, a, l: half(E) * (o(n, mn, a, l) + s * o(n, mn, a, rev(E, even(v), l)))
K.post['amat_cos_sin'] = lasym_only('amat_cos_sin', lambda E, v, o, a, m, mn: pol(E, v, lambda l: sw(o, l, m) * fold(E, v, o, 'actemp_cos', -1, mn, a, l) - cw(o, l, m) * fold(E, v, o, 'astemp_cos', 1, mn, a, l)))
K.post['amat_cos_cos'] = lasym_only('amat_cos_cos', lambda E, v, o, a, m, mn: pol(E, v, lambda l: cw(o, l, m) * fold(E, v, o, 'actemp_cos', 1, mn, a, l) + sw(o, l, m) * fold(E, v, o, 'astemp_cos', -1, mn, a, l)))
K.glue = glue(K, 'o.PerformPoloidalFourierTransforms();')
CONTRACTS.append(K)


# ---- the linear system: contributions of the threads, unused modes, diagonal
def system(lasym):
    K = laplace('linear_system_' + ('asymmetric' if lasym else 'symmetric'), 'BuildMatrix')
    fix(K, lasym)
    A = 'amat_sin_sin amat_sin_cos amat_cos_sin amat_cos_cos'.split() if lasym else ['amat_sin_sin']
    for n in A:
        K.arrays[n] = lambda v: (N(v) * (v.mf + 1), N(v), v.mf + 1)
    K.arrays['matrixShare'] = (lambda v: (2, N(v) * (v.mf + 1), 2, N(v), v.mf + 1)) if lasym else (lambda v: (N(v) * (v.mf + 1), N(v), v.mf + 1))

    def entry(E, v, o, blk, same, c, a, m):
        """row (a, m), column c of one block; rows of the redundant modes m = 0, n < 0 carry only the diagonal"""
        val = lazy_branch(E, E.and_(E.eq(m, 0), a < v.nf), lambda: 0, lambda: o(blk, c, a, m))
        d = E.ite(E.eq(c, a * (v.mf + 1) + m), E.frac(1, 2), 0) if same else 0
        if blk == 'amat_cos_cos':
            d = d + E.ite(E.and_(E.eq(c, v.nf * (v.mf + 1)), E.eq(a, v.nf), E.eq(m, 0)), E.frac(1, 2), 0)
        return val + d
    if lasym:
        def f(E, v, o, q, c, p, a, m):
            e = lambda n, s: lambda: entry(E, v, o, n, s, c, a, m)
            return lazy_branch(E, E.eq(q, 0), lambda: lazy_branch(E, E.eq(p, 0), e('amat_sin_sin', True), e('amat_cos_sin', False)), lambda: lazy_branch(E, E.eq(p, 0), e('amat_sin_cos', False), e('amat_cos_cos', True)))
    else:
        def f(E, v, o, c, a, m):
            return entry(E, v, o, 'amat_sin_sin', True, c, a, m)
    K.post['matrixShare'] = f
    K.extra['matrixShare'] = ('std::vector<double> sh = C.v("matrixShare"); std::copy(sh.begin(), sh.end(), share.begin());', 'C.set("matrixShare", std::vector<double>(share.begin(), share.begin() + sh.size()));')
    K.glue = glue(K, 'o.BuildMatrix();')
    CONTRACTS.append(K)


system(False)
system(True)


# ---- right-hand side and solution
def dgetrs(M, st, this, a):
    """LAPACK: solves with the factors it is given; here the solution is any fixed function of the right-hand side"""
    K = M.K
    v, E = K.v, SymE()
    dim = (2 if K.asym else 1) * N(v) * (v.mf + 1)
    ld = lambda x: M.load(st, x.loc)
    for x in (a[1], a[4], a[7]):
        M.oblige('pre', 'dgetrs: size of the system', st, eq(ld(x), dim))
    M.oblige('pre', 'dgetrs: one right-hand side', st, eq(ld(a[2]), P(1)))
    M.oblige('pre', 'dgetrs: not transposed', st, eq(ld(a[0]), P(ord('N'))))
    ok = isinstance(a[3], ArrRef) and a[3].block is K.block('matrixShare') and isinstance(a[6], ArrRef) and a[6].block is K.block('bvecShare') and isinstance(a[5], ArrRef) and a[5].block is K.block('iPiv')
    M.oblige('pre', 'dgetrs: matrix, pivots and right-hand side', st, f_and(TRUE if ok else FALSE, eq(a[3].off, ZERO), eq(a[6].off, ZERO), eq(a[5].off, ZERO)))
    M.assign_array(st, K.ref('bvecShare'), M.vecmap(K.ref('bvecShare'), lambda x: 2 * x, st))
    M.store(st, a[8].loc, ZERO)


def solve(lasym):
    K = laplace('potential_' + ('asymmetric' if lasym else 'symmetric'), 'SolveForPotential')
    fix(K, lasym)
    K.asym = lasym
    use(K, 'bvec_sin', 'bvec_cos')
    for n in ('sing_sin', 'sing_cos'):
        K.arrays[n] = shapes['bvec_sin']
    K.params = ['sing_sin', 'sing_cos']
    K.arrays['bvecShare'] = (lambda v: (2, N(v), v.mf + 1)) if lasym else shapes['bvec_sin']
    dim = lambda v: (2 if lasym else 1) * N(v) * (v.mf + 1)
    K.arrays['matrixShare'] = lambda v: (dim(v) * dim(v),)
    K.arrays['iPiv'] = lambda v: (dim(v),)
    K.sorts = {'iPiv': 'i'}
    K.contracts = {'dgetrs_': dgetrs}

    def rhs(E, v, o, n, a, m):
        return lazy_branch(E, E.and_(E.eq(m, 0), a < v.nf), lambda: 0, lambda: 2 * (o('bvec_' + n, a, m) + o('sing_' + n, a, m) / v.nfp))
    K.post['bvecShare'] = (lambda E, v, o, q, a, m: lazy_branch(E, E.eq(q, 0), lambda: rhs(E, v, o, 'sin', a, m), lambda: rhs(E, v, o, 'cos', a, m))) if lasym else (lambda E, v, o, a, m: rhs(E, v, o, 'sin', a, m))
    K.extra['bvecShare'] = ('std::vector<double> sh = C.v("bvecShare"); std::copy(sh.begin(), sh.end(), bs.begin());', 'C.set("bvecShare", std::vector<double>(bs.begin(), bs.begin() + sh.size()));')
    K.extra['matrixShare'] = K.extra['iPiv'] = ('', '')
    K.glue = glue(K, 'stub_n = %d * nm; stub_a = share.data(); stub_b = bs.data(); stub_p = piv.data(); o.SolveForPotential(sing_sin, sing_cos);' % (2 if lasym else 1))
    CONTRACTS.append(K)


PREAMBLE += '''
static int stub_n; static void *stub_a, *stub_b, *stub_p;
extern "C" void dgetrs_(char* t, int* n, int* nrhs, double* a, int* lda, int* piv, double* b, int* ldb, int* info) {
  if (*t != 'N' || *n != stub_n || *nrhs != 1 || a != stub_a || *lda != stub_n || piv != stub_p || b != stub_b || *ldb != stub_n) { for (int i = 0; i < stub_n; ++i) ((double*)stub_b)[i] = -1e9; *info = 0; return; }
  for (int i = 0; i < *n; ++i) b[i] *= 2; *info = 0;
}
'''
solve(False)
solve(True)


# ---- quadrature tables: basis functions without their normalisation
def tables(lasym):
    K = laplace('quadrature_tables_' + ('asymmetric' if lasym else 'symmetric'), 'LaplaceSolver')
    fix(K, lasym)
    K.nparams = 8
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.nb >= v.nf + 1, v.mb >= v.mf + 1])(K.pre)

    def gen(r, v, g=K.gen):
        g(r, v)
        v.nb, v.mb = max(v.nb, v.nf + 1), max(v.mb, v.mf + 1)
    K.gen = gen
    for n in ('cosmui', 'sinmui'):
        K.arrays[n] = lambda v: (v.nThetaReduced, v.mb)
    for n in ('cosnv', 'sinnv'):
        K.arrays[n] = lambda v: (v.nb, v.nZeta)
    K.arrays['mscale'] = lambda v: (v.mb,)
    K.arrays['nscale'] = lambda v: (v.nb,)
    BASIS = list(K.arrays)
    K.arrays['share'] = lambda v: (4 * N(v) * (v.mf + 1) * N(v) * (v.mf + 1),)
    K.arrays['bsh'] = lambda v: (2 * N(v) * (v.mf + 1),)
    K.arrays['piv'] = lambda v: (2 * N(v) * (v.mf + 1),)
    K.sorts = {'piv': 'i'}

    def args(K, M):
        v = K.v
        s = sizes(K)
        s.fields['lasym'] = TRUE if lasym else FALSE
        K.me = Obj('ls', 'LaplaceSolver')
        return [s, Obj('fb', 'FourierBasisFastToroidal', fields={n: K.ref(n) for n in BASIS}), part(K), v.nf, v.mf, K.ref('share'), K.ref('piv'), K.ref('bsh')], K.me
    K.args = args
    get = lambda n: lambda K, M, st, val: M.get_field(st, K.me, n)
    K.glue = GLUE + 'const int nf = C.i("nf"), mf = C.i("mf"); std::vector<double> share = C.v("share"), bs = C.v("bsh"); std::vector<int> piv = C.iv("piv");' + SET('fb', BASIS) + 'vmecpp::LaplaceSolver o(&s, &fb, &tp, nf, mf, share, piv, bs);'
    for f in ('cos', 'sin'):
        K.dyn['o_%snv' % f] = (get(f + 'nv_scaled'), lambda E, v: (v.nf + 1, v.nZeta), lambda E, v, o, n, k, f=f: o(f + 'nv', n, k) / o('nscale', n))
        K.dyn['o_%smui' % f] = (get(f + 'mui_scaled'), lambda E, v: (v.nThetaReduced, v.mf + 1), lambda E, v, o, l, m, f=f: o(f + 'mui', l, m) / o('mscale', m))
        K.glue += ''.join('{ std::vector<double> t; for (int i = 0; i < o.%s_scaled.rows(); ++i) for (int j = 0; j < o.%s_scaled.cols(); ++j) t.push_back(o.%s_scaled(i, j)); C.outv("o_%s", t); }' % (w, w, w, w) for w in (f + 'nv', f + 'mui'))
    CONTRACTS.append(K)


tables(False)
tables(True)


# ---- regularized integrals: tables of 2 tan
def regular(name, func, axi):
    K = grid0(name, func, 'RegularizedIntegrals', RI)
    K.arrays = {}
    if axi:
        K.ints['nZeta'] = (1, 1)
    else:
        K.ints['nZeta'] = (2, 5)
    K.pre = (lambda p: lambda E, v: p(E, v) + [E.eq(v.nZeta, 1) if axi else v.nZeta >= 2])(K.pre)
    return K


def tan2(E, v, arg):
    """twice the tangent, the pole replaced by a large number"""
    near = (abs(arg - .5 * math.pi) < 1e-15) if E.num else (absr(arg - P(Fraction(1, 2)) * E.pi) < P(1e-15))
    return lazy_branch(E, near, lambda: 1e50 if E.num else P(1e50), lambda: 2 * E.fn('tan', arg))


def tantab(axi):
    K = regular('tangent_tables_' + ('axisymmetric' if axi else '3d'), 'computeConstants', axi)
    K.arrays['tanu'] = lambda v: (even(v),)
    K.arrays['tanv'] = lambda v: (v.nZeta,)
    K.post['tanu'] = lambda E, v, o, l: tan2(E, v, E.pi / even(v) * l)
    K.post['tanv'] = lambda E, v, o, k: tan2(E, v, E.pi / v.nZeta * k)

    def args(K, M):
        s = sizes(K)
        if axi:
            s.fields['nZeta'] = ONE
        K.me = Obj('ri', 'RegularizedIntegrals', fields=dict(tanu=K.ref('tanu'), tanv=K.ref('tanv'), s_=s, tp_=part(K), tanv_per_=ArrRef(Block('per', [ZERO], 'r', ZERO), (), ZERO, ZERO)))
        return [], K.me
    K.args = args
    K.outs = {'o_images': (lambda K, M, st, val: M.get_field(st, K.me, 'nvper_'), lambda E, v, o: 64 if axi else v.nfp)}
    g = GLUE + 'auto& g = RawR<vmecpp::SurfaceGeometry>(); vmecpp::RegularizedIntegrals o(&s, &tp, &g); o.tanu = C.e("tanu"); o.tanv = C.e("tanv"); o.computeConstants(); C.set("tanu", o.tanu); C.set("tanv", o.tanv); C.out("o_images", o.nvper_);'
    if axi:
        for p in range(64):      # the loop over the images is unrolled: one obligation per image
            K.outs['o_per%d' % p] = (lambda K, M, st, val, p=p: M.load(st, M.element(st, M.get_field(st, K.me, 'tanv_per_'), P(p))), lambda E, v, o, p=p: tan2(E, v, E.pi * p / 64))
        g += ' '.join('C.out("o_per%d", o.tanv_per_[%d]);' % (p, p) for p in range(64))
    K.glue = g
    CONTRACTS.append(K)


tantab(True)
tantab(False)


# ---- regularized Green's function and source
SGF = 'rcosuv rsinuv rzb2 z1b r1b'.split()
SGL = 'snr snv snz drv guu guv gvv auu auv avv'.split()


def integral(axi):
    K = regular('green_function_' + ('axisymmetric' if axi else '3d'), 'updateAxisymmetric' if axi else 'update', axi)
    if axi:
        K.ints['nvper'] = (1, 3)
        K.pre = (lambda p: lambda E, v: p(E, v) + [v.nvper >= 1])(K.pre)
    for n in SGF + ['gstore', 'gsave', 'dsave']:
        K.arrays[n] = (lambda v: (even(v),)) if axi else (lambda v: (even(v), v.nZeta))
    for n in SGL + ['bDotN']:
        K.arrays[n] = lambda v: (npts(v),)
    K.arrays['tanu'] = lambda v: (even(v),)
    K.arrays['greenp'] = (lambda v: (npts(v), even(v))) if axi else (lambda v: (npts(v), even(v), v.nZeta))
    if axi:
        K.arrays['tanv_per_'] = lambda v: (v.nvper,)
    else:
        K.arrays['tanv'] = lambda v: (v.nZeta,)
        for n in ('cos_per', 'sin_per'):
            K.arrays[n] = lambda v: (v.nfp,)
    K.arrays['wInt'] = lambda v: (eff(NumE() if isinstance(v.nfp, int) else SymE(), v),)

    def args(K, M):
        v = K.v
        s = sizes(K)
        s.fields['wInt'] = K.ref('wInt')
        if axi:
            s.fields['nZeta'] = ONE
        mine_ = ['gstore', 'gsave', 'dsave', 'greenp', 'tanu'] + (['tanv_per_'] if axi else ['tanv'])
        sg = Obj('sg', 'SurfaceGeometry', fields={n: K.ref(n) for n in K.arrays if n not in mine_ + ['bDotN', 'wInt']})
        K.me = Obj('ri', 'RegularizedIntegrals', fields=dict({n: K.ref(n) for n in mine_}, s_=s, tp_=part(K), sg_=sg, nvper_=v.nvper if axi else v.nfp))
        return [K.ref('bDotN')], K.me
    K.args = args
    K.free = ('gsave', 'dsave')

    def kernel(E, v, o, i, d, p):
        """(G, dG/dn) between source point i of this thread and image p of field point d, minus their singular parts"""
        q = v.ztMin + i
        if axi:
            s, lp, l = (q,), q, d[0]
            w = 2 * E.pi / v.nvper * p if E.num else 2 * E.pi * P(p) / v.nvper
            c, sn = E.cos(w), E.sin(w)
            tv = o('tanv_per_', p)
            k = kp = 0
        else:
            s = at(E, v, q)
            lp, kp = s
            l, k = d
            c, sn = o('cos_per', p), o('sin_per', p)
            dk = (k - kp) % v.nZeta if E.num else E.imod(k - kp + v.nZeta, v.nZeta)
            tv = o('tanv', dk)
        dl = (l - lp) % even(v) if E.num else E.imod(l - lp + even(v), even(v))
        tu = o('tanu', dl)
        if E.num and p == 0 and l == lp and k == kp:
            return lambda which: 0.      # the singular point itself
        x, y = o('rcosuv', *s) * c - o('rsinuv', *s) * sn, o('rcosuv', *s) * sn + o('rsinuv', *s) * c
        nx, ny = (o('snr', i) * x - o('snv', i) * y) / o('r1b', *s), (o('snr', i) * y + o('snv', i) * x) / o('r1b', *s)
        dist2 = o('rzb2', *s) + o('rzb2', *d) - 2 * o('z1b', *d) * o('z1b', *s) - 2 * (x * o('rcosuv', *d) + y * o('rsinuv', *d))
        f = 1 / dist2 if E.num else inv(dist2)
        h = E.sqrt(f)
        dn = h * f * (o('rcosuv', *d) * nx + o('rsinuv', *d) * ny + o('drv', i) + o('z1b', *d) * o('snz', i))
        sing = lambda: (o('guu', i) * tu * tu + o('guv', i) * tu * tv + o('gvv', i) * tv * tv, o('auu', i) * tu * tu + o('auv', i) * tu * tv + o('avv', i) * tv * tv)

        def both(which):
            a, b = sing()
            r = 1 / E.sqrt(a) if E.num else inv(E.sqrt(a))
            return h - r if which == 0 else dn - r * (b / a if E.num else b * inv(a))
        same = E.and_(E.eq(l, lp), E.eq(k, kp))
        meas = 2 * E.pi / (v.nvper if axi else v.nfp)

        def value(which):
            plain = h if which == 0 else dn
            if axi:
                r = lazy_branch(E, E.and_(E.eq(p, 0), same), lambda: 0, lambda: both(which))
            else:
                r = lazy_branch(E, E.eq(p, 0), lambda: lazy_branch(E, same, lambda: 0, lambda: both(which)), lambda: plain)
            return meas * r
        return value

    def green(E, v, o, i, *d):
        return E.sum(0, v.nvper if axi else v.nfp, lambda p: kernel(E, v, o, i, d, p)(1))

    def gst(E, v, o, *d):
        lp = (lambda i: v.ztMin + i) if axi else (lambda i: at(E, v, v.ztMin + i)[0])
        return E.sum(0, npts(v), lambda i: o('bDotN', i) * o('wInt', lp(i)) * E.sum(0, v.nvper if axi else v.nfp, lambda p: kernel(E, v, o, i, d, p)(0)))
    K.post['greenp'], K.post['gstore'] = green, gst

    def fill(r, v, arr):
        nz = v.nZeta
        L = 2 * v.nThetaReduced - 2
        for l in range(L):
            for k in range(nz):
                i = l * nz + k
                R, Z = 3 + r.random() * .3 + math.cos(2 * math.pi * l / L), math.sin(2 * math.pi * l / L) + .1 * r.random()
                ph = 2 * math.pi * k / nz / v.nfp
                for n, x in (('r1b', R), ('z1b', Z), ('rzb2', R * R + Z * Z), ('rcosuv', R * math.cos(ph)), ('rsinuv', R * math.sin(ph))):
                    arr[n][1][i] = x
        for n in ('guu', 'gvv'):
            for i in range(len(arr[n][1])):
                arr[n][1][i] = 1 + r.random()
        for i in range(len(arr['guv'][1])):
            arr['guv'][1][i] = r.random() - .5
        if axi:
            for i in range(v.nvper):
                arr['tanv_per_'][1][i] = .3 + r.random()
        else:
            for p in range(v.nfp):
                arr['cos_per'][1][p], arr['sin_per'][1][p] = math.cos(2 * math.pi * p / v.nfp), math.sin(2 * math.pi * p / v.nfp)
        for n in ('tanu',) + (() if axi else ('tanv',)):
            for i in range(len(arr[n][1])):
                arr[n][1][i] = .3 + r.random()
    K.fill = fill
    sgn_ = SGF + SGL + ([] if axi else ['cos_per', 'sin_per'])
    own = ['gstore', 'gsave', 'dsave', 'greenp', 'tanu'] + (['tanv_per_'] if axi else ['tanv'])
    K.glue = GLUE + 'auto& g = RawR<vmecpp::SurfaceGeometry>(); s.wInt = C.e("wInt"); vmecpp::RegularizedIntegrals o(&s, &tp, &g);' + SET('g', sgn_) + SET('o', [n for n in own if n != 'tanv_per_']) + ('o.nvper_ = C.i("nvper"); o.tanv_per_ = C.v("tanv_per_");' if axi else '') + \
        'Eigen::VectorXd b = C.e("bDotN"); o.update(b);' + GET('o', ['greenp', 'gstore'])
    if not axi:
        K.bounded = 'the row-wise traversal advances its counter inside the loop body; grids up to 6 x 5 points, 4 field periods'
        K.cases = 40
    CONTRACTS.append(K)


integral(True)
integral(False)


# ---- analytically integrated singular part
def singular(name, func, cases):
    K = grid0(name, func, 'SingularIntegrals', SI)
    K.arrays = {}
    K.ints.update(nf=(0, 3), mf=(1, 4))
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.nf >= 0, v.mf >= 1, v.mb >= v.mf + 1, v.nb >= v.nf + 1])(K.pre)

    def gen(r, v, g=K.gen):
        g(r, v)
        v.nb, v.mb = max(v.nb, v.nf + 1), max(v.mb, v.mf + 1)
    K.gen = gen
    K.args = lambda K, M: ([], None)
    K.cases = cases
    return K


def cmn(l, n, m):
    """expansion coefficient of the singular integrals"""
    i, j = m - n, m + n
    if l < abs(i) or l > j or (l - i) % 2:
        return 0.
    F = math.factorial
    return (-1) ** ((l - i) // 2) * F((j + l) // 2) / (F((j - l) // 2) * F((l + i) // 2) * F((l - i) // 2))


def cmns(l, n, m):
    """(6.291): averaged over the neighbouring mode pairs"""
    c = lambda n, m: cmn(l, n, m)
    if m == 0 and n == 0:
        return c(0, 0)
    if m == 0:
        return (c(n, 0) + c(n - 1, 0)) / 2
    if n == 0:
        return (c(0, m) + c(0, m - 1)) / 2
    return (c(n, m) + c(n - 1, m) + c(n, m - 1) + c(n - 1, m - 1)) / 2


SIGLUE = GLUE + 'const int nf = C.i("nf"), mf = C.i("mf"); auto& g = RawR<vmecpp::SurfaceGeometry>(); vmecpp::SingularIntegrals o(&s, &fb, &tp, &g, nf, mf);'
K = singular('singular_coefficients', 'computeCoefficients', 40)
K.ints.update(nf=(0, 6), mf=(1, 7))
K.arrays['cmn'] = K.arrays['cmns'] = lambda v: (1 + v.nf + v.mf, v.nf + 1, v.mf + 1)
K.post = dict(cmn=lambda E, v, o, l, n, m: cmn(l, n, m), cmns=lambda E, v, o, l, n, m: cmns(l, n, m))
K.bounded = 'factorial recurrences; compared with the closed form in factorials for mf up to 7, nf up to 6'
K.glue = SIGLUE + SET('o', ['cmn', 'cmns']) + 'o.computeCoefficients();' + GET('o', ['cmn', 'cmns'])
CONTRACTS.append(K)

K = singular('singular_integrals', 'update', 60)
K.bools = ['lasym', 'fullUpdate']
MET = 'guu guv gvv auu auv avv'.split()
for n in MET + ['bDotN']:
    K.arrays[n] = lambda v: (npts(v),)
for n in ('cosmu', 'sinmu'):
    K.arrays[n] = lambda v: (v.nThetaReduced, v.mb)
for n in ('cosnv', 'sinnv'):
    K.arrays[n] = lambda v: (v.nb, v.nZeta)
K.arrays['mscale'], K.arrays['nscale'] = lambda v: (v.mb,), lambda v: (v.nb,)
K.arrays['wInt'] = lambda v: (eff(NumE() if isinstance(v.nfp, int) else SymE(), v),)
for n in ('bvec_sin', 'bvec_cos'):
    K.arrays[n] = lambda v: (2 * v.nf + 1, v.mf + 1)
for n in ('grpmn_sin', 'grpmn_cos'):
    K.arrays[n] = lambda v: (2 * v.nf + 1, v.mf + 1, npts(v))
_GL = []


def moments(a, b2, c, L, weight=None):
    """integrals over [-1, 1] of t^l / sqrt(A t^2 + 2 d t + B), or with the second-order form as weight and power 3/2"""
    import numpy as np
    if not _GL:
        _GL.append(np.polynomial.legendre.leggauss(400))
    x, w = _GL[0]
    ap, am, d = a + b2 + c, a - b2 + c, c - a
    r = []
    for s in (1, -1):
        A, B = (ap, am) if s == 1 else (am, ap)
        q = A * x * x + 2 * d * x + B
        if weight is None:
            f = w / np.sqrt(q)
        else:
            p, e, t = weight
            Ap, Am, D = p + e + t, p - e + t, t - p
            U, V = (Ap, Am) if s == 1 else (Am, Ap)
            f = w * (U * x * x + 2 * D * x + V) / q ** 1.5
        r.append([float((f * x ** l).sum()) for l in range(L)])
    return r


_memo = {}


def mom(v, o, i, L, sec):
    k = (id(v), i, L, sec) + tuple(o(n, i) for n in MET)
    if k not in _memo:
        if len(_memo) > 5000:
            _memo.clear()
        _memo[k] = moments(o('guu', i), o('guv', i), o('gvv', i), L, (o('auu', i), o('auv', i), o('avv', i)) if sec else None)
    return _memo[k]


def mode(v, o, i, fl, a, m, cos, sec):
    """contribution of point i and order fl to mode (m, n = a - nf): (integral) * coefficient * basis function"""
    n, neg = abs(a - v.nf), a < v.nf
    L = 1 + v.nf + v.mf
    p = v.ztMin + i
    l, k = p // v.nZeta, p % v.nZeta
    lr, sg = (l, 1.) if l < v.nThetaReduced else (even(v) - l, -1.)
    cm, sm, cn, sn = o('cosmu', lr, m), sg * o('sinmu', lr, m), o('cosnv', n, k), o('sinnv', n, k)
    if m == 0 or n == 0:
        if neg:
            return 0.
        t = mom(v, o, i, L, sec)
        t = t[0][fl] + t[1][fl]
    else:
        t = mom(v, o, i, L, sec)[1 if neg else 0][fl]
    f = (cm * cn - sm * sn if neg else cm * cn + sm * sn) if cos else (sm * cn + cm * sn if neg else sm * cn - cm * sn)
    return t * cmns(fl, n, m) / (o('mscale', m) * o('nscale', n)) * f


def bv(cos):
    def f(E, v, o, a, m):
        if cos and not v.lasym:
            return o('bvec_cos', a, m)
        return sum(mode(v, o, i, fl, a, m, cos, False) * o('bDotN', i) * o('wInt', (v.ztMin + i) // v.nZeta) for fl in range(1 + v.nf + v.mf) for i in range(npts(v)))
    return f


def gp(cos):
    def f(E, v, o, a, m, i):
        n = 'grpmn_cos' if cos else 'grpmn_sin'
        if cos and not v.lasym or not v.fullUpdate:
            return o(n, a, m, i)
        return sum(mode(v, o, i, fl, a, m, cos, True) for fl in range(1 + v.nf + v.mf))
    return f


K.post = dict(bvec_sin=bv(False), bvec_cos=bv(True), grpmn_sin=gp(False), grpmn_cos=gp(True))


def fill(r, v, arr):
    for i in range(npts(v)):
        a, c = 1 + r.random(), 1 + r.random()
        b = r.random() - .5
        if r.random() < .3:       # strongly skewed metric: the other direction of the recurrence
            a = c = 1 + r.random() * .1
            b = r.choice([-1, 1]) * 2 * a * (.9 + .05 * r.random())
        arr['guu'][1][i], arr['guv'][1][i], arr['gvv'][1][i] = a, b, c
    for n in ('mscale', 'nscale'):
        for i in range(len(arr[n][1])):
            arr[n][1][i] = 1 + r.random()


def gen(r, v, g=K.gen):
    g(r, v)
    if r.random() < .3:
        v.nf, v.mf = 3, r.randint(5, 7)
        v.nb, v.mb = 4, v.mf + 1


K.gen, K.fill, K.rtol = gen, fill, 1e-6
K.bounded = 'recurrences in both directions and a manually unrolled traversal; compared with numerical quadrature of the defining integrals (400-point Gauss-Legendre) for mf up to 7, nf up to 3'
B6 = 'cosmu sinmu cosnv sinnv mscale nscale'.split()
OUT = 'bvec_sin bvec_cos grpmn_sin grpmn_cos'.split()
K.glue = GLUE + 'const int nf = C.i("nf"), mf = C.i("mf"); auto& g = RawR<vmecpp::SurfaceGeometry>(); s.wInt = C.e("wInt"); vmecpp::SingularIntegrals o(&s, &fb, &tp, &g, nf, mf);' + SET('fb', B6) + SET('g', MET) + SET('o', OUT) + \
    'Eigen::VectorXd b = C.e("bDotN"); o.update(b, C.b("fullUpdate"));' + GET('o', OUT)
CONTRACTS.append(K)
