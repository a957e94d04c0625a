"""FFT-accelerated toroidal transforms: same result as the direct sums"""
import math
from vc.contract import *
from vc import terms as T
import contracts.c12 as c12
from vc import cfront

D = 'vmecpp/vmec/ideal_mhd_model/'
V = 'vmecpp/vmec/'
SRC = D + 'fft_toroidal.cc'
CXXFLAGS = ['-DVMECPP_USE_FFTX', '-I' + cfront.CPP + '/third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs', '-I' + cfront.CPP + '/third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs']
SOURCES = [SRC, V + 'fourier_coefficients/fourier_coefficients.cc', V + 'fourier_forces/fourier_forces.cc', V + 'fourier_geometry/fourier_geometry.cc']
LINKFLAGS = c12.LINKFLAGS
PREAMBLE = c12.PREAMBLE + '''
#include "vmecpp/vmec/ideal_mhd_model/fft_toroidal.h"
// the generated transform kernels are replaced by their definition
static int g_n, g_cnt; static double* g_ns;
static void C2r(double* out, double* in) { int nh = g_n / 2 + 1; for (int q = 0; q < g_cnt; ++q) for (int k = 0; k < g_n; ++k) { double s = in[q * 2 * nh]; for (int n = 1; n < nh; ++n) { double a = 2 * std::acos(-1.0) * n * k / g_n; double f = (2 * n == g_n) ? 1 : 2; s += f * (in[(q * nh + n) * 2] * std::cos(a) - ((2 * n == g_n) ? 0 : in[(q * nh + n) * 2 + 1] * std::sin(a))); } out[q * g_n + k] = s; } }
static void R2c(double* out, double* in) { int nh = g_n / 2 + 1; for (int q = 0; q < g_cnt; ++q) for (int n = 0; n < nh; ++n) { double re = 0, im = 0; for (int k = 0; k < g_n; ++k) { double a = 2 * std::acos(-1.0) * n * k / g_n; re += in[q * g_n + k] * std::cos(a); im -= in[q * g_n + k] * std::sin(a); } double f = n == 0 ? 1 : std::sqrt(2.0); out[(q * nh + n) * 2] = f * re; out[(q * nh + n) * 2 + 1] = f * im; } }
'''
CHUNK = 1
CONTRACTS = []


def adapt(K, name, func):
    i = c12.BASE[K]
    i.name = name
    i.func = func
    i.src = SRC
    i.notes = ['the generated batched kernels (fftx codelets) are known by contract only: c2r is the inverse real DFT of the half spectrum, r2c the forward DFT times the toroidal normalisation; the concrete runs execute the code with kernels written from that definition']
    i.ints.update(nfp=(1, 5), nZeta=(4, 12))
    pre, gen = i.pre, i.gen
    i.arrays['nscale'] = lambda v: (v.nnyq2 + 1,)
    i.pre = lambda E, v: pre(E, v) + [E.eq(E.imod(v.nZeta, 2), 0), v.nZeta >= 2 * v.ntor + 4]

    def gen2(r, v):
        gen(r, v)
        v.ntor = r.randint(0, 3)
        v.nnyq2 = v.ntor + r.randint(0, 1)
        v.nZeta = 2 * v.ntor + 4 + 2 * r.randint(0, 2)
    i.gen = gen2

    def fill(r, v, arr):
        w = v.nnyq2 + 1
        ns = [1.0 if n == 0 else math.sqrt(2) for n in range(w)]
        arr['nscale'][1] = ns
        for nm, f in (('cosnv', lambda n, a: math.cos(a)), ('sinnv', lambda n, a: math.sin(a)), ('cosnvn', lambda n, a: n * v.nfp * math.cos(a)), ('sinnvn', lambda n, a: -n * v.nfp * math.sin(a))):
            arr[nm][1] = [ns[n] * f(n, 2 * math.pi * n * k / v.nZeta) for k in range(v.nZeta) for n in range(w)]
    i.fill = fill
    plans = 'auto& pl = RawR<vmecpp::ToroidalFftPlans>(); pl.n = C.i("nZeta"); pl.nhalf = pl.n / 2 + 1; pl.nfp = C.i("nfp"); pl.mpol = C.i("mpol"); pl.fftx_full_c2r_run = C2r; pl.fftx_full_r2c_run = R2c; g_n = pl.n; g_cnt = 12 * pl.mpol; s.nfp = pl.nfp; fb.nscale = C.e("nscale");\n'
    cut = i.glue.rindex('vmecpp::' + ('FourierToReal3DSymm' if 'To' in func and func.startswith('Fourier') else 'ForcesToFourier3DSymm'))
    tail = i.glue[cut:]
    if func.startswith('Fourier'):
        tail = 'vmecpp::%s(x, C.e("xmpq"), r, s, rp, fb, pl, g);' % func + tail[tail.index(';') + 1:]
    else:
        tail = 'vmecpp::%s(d, C.e("xmpq"), r, fc, s, fb, pl, vac, x);' % func + tail[tail.index(';') + 1:]
    i.glue = i.glue[:cut] + plans + tail
    i.cases = 24
    CONTRACTS.append(i)
    return i


adapt('inverse_symmetric', 'fft_inverse', 'FourierToReal3DSymmFastPoloidalFft')
adapt('forward_symmetric', 'fft_forward', 'ForcesToFourier3DSymmFastPoloidalFft')

from vc import cfront
from vc.heap import split_first
from vc.terms import single_atom, mksum


def tab(E, v, o, which, k, n):
    """toroidal basis tables through the plain cosine and sine of the grid"""
    c = E.ite(E.eq(n, 0), 1, E.fn('ct', n, k)) * o('nscale', n)
    s = E.ite(E.eq(n, 0), 0, E.fn('st', n, k)) * o('nscale', n)
    return {'cosnv': c, 'sinnv': s, 'cosnvn': n * v.nfp * c, 'sinnvn': -n * v.nfp * s}[which]


def through(E, v, o):
    if E.num:
        return o
    return lambda name, *d: tab(E, v, o, name, *d) if name in ('cosnv', 'sinnv', 'cosnvn', 'sinnvn') else o(name, *d)


def put(M, st, ref, q, f, dims):
    """layers ref[g0, q, g1..] = f(state, g0, g1, ..)"""
    gv = [fresh('g') for _ in dims]
    s = st
    for g, n in zip(gv, dims):
        s = M.with_range(s, g, ZERO, n)
    return Layer('W', [(single_atom(g), ZERO, n) for g, n in zip(gv, dims)], (gv[0], P(q)) + tuple(gv[1:]), TRUE, f(s, *gv))


def prune(p, c):
    """drop unreachable alternatives of a conditional value"""
    a = single_atom(p)
    t = T.atom(a) if a is not None else None
    if t is None or t[0] != 'ite':
        return p
    ca, cb = c.extend(t[1]), c.extend(fnot(t[1]))
    if cb.inconsistent():
        return prune(t[2], ca)
    if ca.inconsistent():
        return prune(t[3], cb)
    return ite(t[1], prune(t[2], ca), prune(t[3], cb))


def c2r(K):
    def f(M, st, this, a):
        v = M.K.v
        out, inp = a
        lin = M.layers(st, inp.block)
        M.oblige('pre', 'c2r: whole buffers', st, f_and(eq(inp.off, 0), eq(out.off, 0)))
        new = []
        for q in range(12):
            def val(s, m, k):
                rd = lambda s, n, c: prune(M.read_layers(inp.block, lin, (m, P(q), n, P(c)), M.ctx(s)), M.ctx(s))
                n = fresh('s')
                s2 = M.with_range(s, n, ONE, v.nhalf - 1)
                body = 2 * (rd(s2, n, 0) * fn('ct', n, k) - rd(s2, n, 1) * fn('st', n, k))
                return rd(s, ZERO, 0) + mksum([(single_atom(n), ONE, v.nhalf - 1)], [], body, M.ctx(s)) + rd(s, v.nhalf - 1, 0) * fn('ct', v.nhalf - 1, k)
            new.append(put(M, st, out, q, val, [v.mpol, v.nZeta]))
        st.arrays[out.block] = M.layers(st, out.block) + tuple(new)
    return f


def r2c(K):
    def f(M, st, this, a):
        v = M.K.v
        out, inp = a
        lin = M.layers(st, inp.block)
        M.oblige('pre', 'r2c: whole buffers', st, f_and(eq(inp.off, 0), eq(out.off, 0)))
        new = []
        for q in range(12):
            for c in (0, 1):
                def val(s, m, n):
                    k = fresh('s')
                    s2 = M.with_range(s, k, ZERO, v.nZeta)
                    x = prune(M.read_layers(inp.block, lin, (m, P(q), k), M.ctx(s2)), M.ctx(s2))
                    t = ite(eq(n, 0), ONE, fn('ct', n, k)) if c == 0 else -ite(eq(n, 0), ZERO, fn('st', n, k))
                    return mksum([(single_atom(k), ZERO, v.nZeta)], [], x * t, M.ctx(s)) * sel('nscale', (n,), 'r')
                l = put(M, st, out, q, val, [v.mpol, v.nhalf])
                new.append(Layer(l.kind, l.vars, l.digits + (P(c),), l.guard, l.value))
        st.arrays[out.block] = M.layers(st, out.block) + tuple(new)
    return f


for _K in CONTRACTS:
    _K.load = lambda K=_K: cfront.TU(K.src, K.filt, K.is_text, CXXFLAGS + ['-I' + cfront.CPP + '/third_party/fftx_codelets', '-I' + cfront.CPP + '/third_party/fftx_codelets/include'])
    _K.ints['nhalf'] = (3, 7)
    _K.pre = (lambda p: lambda E, v: p(E, v) + [E.eq(v.nZeta, 2 * v.nhalf - 2), v.nhalf >= v.ntor + 3])(_K.pre)
    _K.gen = (lambda g: lambda r, v: (g(r, v), setattr(v, 'nhalf', v.nZeta // 2 + 1)))(_K.gen)
    for _n, _f in list(_K.post.items()):
        _K.post[_n] = (lambda f: lambda E, v, o, *d: f(E, v, through(E, v, o), *d))(_f)
    _K.args = (lambda g, at: lambda K, M: (lambda a: a[:at] + [Obj('plans', 'ToroidalFftPlans', fields=dict(n=K.v.nZeta, nhalf=K.v.nhalf, nfp=K.v.nfp, mpol=K.v.mpol))] + a[at:])(
        [(x.fields.update(nscale=K.ref('nscale')), x)[1] if isinstance(x, Obj) and x.name == 'fb' else x for x in g(K, M)]))(_K.args, 6)
    _X = lambda v: (v.mpol, 12, v.nhalf, 2)
    _Y = lambda v: (v.mpol, 12, v.nZeta)
    _K.norm = split_first(sym('ntor') + 1)
    _K.scratch = ('X_batch', 'Y_batch', 'in_batch', 'out_batch_real')
    _K.local_shapes = dict(X_batch=_X, out_batch_real=_X, Y_batch=_Y, in_batch=_Y)
    _K.contracts['fftx_full_c2r_run'] = c2r(_K)
    _K.contracts['fftx_full_r2c_run'] = r2c(_K)


CONTRACTS[:1] = facets(CONTRACTS[0], [(x, [n for n in CONTRACTS[0].post if n[0] == x]) for x in 'rzl'])
