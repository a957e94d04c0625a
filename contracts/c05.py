"""half-grid Jacobian, metric elements"""
from contracts.kernels_common import *

CONTRACTS = []
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, forward
SOURCES, LINKFLAGS = mc.SOURCES, mc.LINKFLAGS
PREAMBLE = mc.PREAMBLE + hdr('jacobian_kernel.h') + hdr('metric_kernel.h')
CHUNK = 1

K = radial(Contract('half_grid_jacobian', '#include "%sjacobian_kernel.h"' % D, 'ComputeHalfGridJacobian', is_text=True, srcname='jacobian_kernel.h'))
for n in 'r1e r1o z1e z1o rue ruo zue zuo'.split():
    K.arrays[n] = FULL
K.arrays['sqrtSH'] = HALF1
for n in 'r12 ru12 zu12 rs zs tau'.split():
    K.arrays[n] = HALF
K.reals = {'deltaS': (0.05, 0.5), 'dSHalfDsInterp': (0.2, 0.3)}
K.sig = 'r1e r1o z1e z1o rue ruo zue zuo sqrtSH deltaS dSHalfDsInterp nZnT nsMinF1 nsMinH nsMaxH r12 ru12 zu12 rs zs tau'.split()


def avg(e, o):
    def f(E, v, old, h, k):
        (ei, eo), (oi, oo) = io(old, v, e, h, k), io(old, v, o, h, k)
        return ((ei + eo) + old('sqrtSH', h) * (oi + oo)) * E.frac(1, 2)
    return f


def dif(e, o):
    def f(E, v, old, h, k):
        (ei, eo), (oi, oo) = io(old, v, e, h, k), io(old, v, o, h, k)
        return ((eo - ei) + old('sqrtSH', h) * (oo - oi)) / v.deltaS
    return f


K.post = {'r12': avg('r1e', 'r1o'), 'ru12': avg('rue', 'ruo'), 'zu12': avg('zue', 'zuo'),
          'rs': dif('r1e', 'r1o'), 'zs': dif('z1e', 'z1o')}


def tau(E, v, old, h, k):
    P_ = KJ.post
    a = [P_[n](E, v, old, h, k) for n in ('ru12', 'zs', 'rs', 'zu12')]
    t1 = a[0] * a[1] - a[2] * a[3]
    g = {n: io(old, v, n, h, k) for n in 'r1o z1o rue ruo zue zuo'.split()}
    # d(sqrt s)/ds cross terms, odd*odd and even*odd/sqrt(s), both neighbours
    t2 = sum(g['ruo'][q] * g['z1o'][q] - g['zuo'][q] * g['r1o'][q] for q in (0, 1))
    t3 = sum(g['rue'][q] * g['z1o'][q] - g['zue'][q] * g['r1o'][q] for q in (0, 1))
    return t1 + v.dSHalfDsInterp * (t2 + t3 / old('sqrtSH', h))


K.post['tau'] = tau
CONTRACTS.append(flatsig(K))

K2 = radial(Contract('metric_elements', '#include "%smetric_kernel.h"' % D, 'ComputeMetricElements', is_text=True, srcname='metric_kernel.h'))
for n in 'r1e r1o rue ruo zue zuo rve rvo zve zvo'.split():
    K2.arrays[n] = FULL
for n in 'tau r12'.split():
    K2.arrays[n] = HALF
K2.arrays['sqrtSF'] = FULL1
K2.arrays['sqrtSH'] = HALF1
for n in 'gsqrt guu guv gvv'.split():
    K2.arrays[n] = HALF
K2.bools = ['lthreed']
K2.sig = 'r1e r1o rue ruo zue zuo rve rvo zve zvo tau r12 sqrtSF sqrtSH lthreed nZnT nsMinF1 nsMinH nsMaxH gsqrt guu guv gvv'.split()


def dot(E, v, old, h, k, pairs):
    """half-grid average of sum_x a_x * b_x with a = ae + sqrt(s) ao: the even
    and odd*odd parts are averaged over the two surfaces (odd with s on the full
    grid), the mixed part uses sqrt(s) on the half grid"""
    j = h + v.nsMinH - v.nsMinF1
    r = 0
    for a, b in pairs:
        for q in (0, 1):
            s = old('sqrtSF', j + q) * old('sqrtSF', j + q)
            ae, ao, be, bo = (old(x, j + q, k) for x in (a + 'e', a + 'o', b + 'e', b + 'o'))
            r = r + E.frac(1, 2) * (ae * be + s * ao * bo + old('sqrtSH', h) * (ae * bo + ao * be))
    return r


K2.post = {
    'gsqrt': lambda E, v, old, h, k: old('tau', h, k) * old('r12', h, k),
    'guu': lambda E, v, old, h, k: dot(E, v, old, h, k, [('ru', 'ru'), ('zu', 'zu')]),
    'guv': lambda E, v, old, h, k: E.ite(v.lthreed, dot(E, v, old, h, k, [('ru', 'rv'), ('zu', 'zv')]), old('guv', h, k)),
    'gvv': lambda E, v, old, h, k: dot(E, v, old, h, k, [('r1', 'r1')]) + E.ite(v.lthreed, dot(E, v, old, h, k, [('rv', 'rv'), ('zv', 'zv')]), 0),
}
CONTRACTS.append(flatsig(K2))

# ---- the model methods: same formulas on the arrays of the model, and the sign check
NM = {a + p: a + '_' + p for a in 'r1 z1 ru zu rv zv'.split() for p in 'eo'}
KJ = K
def with_reason(base):
    def f(K, M):
        o = base(K, M)
        K.o.fc.fields['restart_reason'] = K.v.reason
        return o
    return f


KJm = forward(mhd('model_jacobian', 'computeJacobian', own='r1_e r1_o z1_e z1_o ru_e ru_o zu_e zu_o r12 ru12 zu12 rs zs tau'.split(), prof=['sqrtSH'], geom=False, force=False, wint=False), KJ, NM, tweak=lambda E, w: setattr(w, 'dSHalfDsInterp', E.frac(1, 4)))
# the sign scan is the subject of the next contract
KJm.loop_inv = lambda M, st, st0: [le(ZERO, st.env[M.loop_var])]
KJm.ints['reason'] = (1, 4)
KJm.args = with_reason(KJm.args)
KJm.reglue('R.fc->restart_reason = static_cast<vmecpp::RestartReason>(C.i("reason")); m.computeJacobian();')
CONTRACTS.append(KJm)

# the sign check, with the values of the Jacobian left arbitrary: whichever two points one picks, if the Jacobian
# is negative at one and positive at the other, the step is rejected
K = mhd('jacobian_sign_check', 'computeJacobian', own='r1_e r1_o z1_e z1_o ru_e ru_o zu_e zu_o r12 ru12 zu12 rs zs tau'.split(), prof=['sqrtSH'], geom=False, force=False, wint=False)
KS = K
K.ints.update(i0=(0, 0), i1=(0, 0), reason=(1, 4))
ntau = lambda v: (v.nsMaxH - v.nsMinF1) * v.nZeta * v.nThetaEff
K.pre = (lambda p: lambda E, v: p(E, v) + [v.i0 >= 0, v.i0 < (v.nsMaxH - v.nsMinF1) * v.nZeta * v.nThetaEff, v.i1 >= 0, v.i1 < (v.nsMaxH - v.nsMinF1) * v.nZeta * v.nThetaEff])(K.pre)
K.contracts['ComputeHalfGridJacobian'] = lambda M, st, this, a: None
K.arrays['tau'] = lambda v: (ntau(v),)
K.free = tuple('r12 ru12 zu12 rs zs tau'.split())


def scan_inv(M, st, st0):
    K, v = M.K, M.K.v
    loc = {M.var_names.get(k): x for k, x in st.env.items()}
    i = st.env.get(M.loop_var)
    if i is None or 'minTau' not in loc or 'maxTau' not in loc:
        raise Unsupported('no invariant for this form of the sign scan')
    tau = M.asvec(K.ref('tau'), st)
    t0, t1 = tau.f(st, P(v.i0)), tau.f(st, P(v.i1))
    return [le(ZERO, i), f_or(le(i, P(v.i0)), f_or(le(ZERO, t0), lt(loc['minTau'], ZERO))), f_or(le(i, P(v.i1)), f_or(le(t1, ZERO), lt(ZERO, loc['maxTau'])))]


K.loop_inv = scan_inv


K.args = with_reason(K.args)


def changes(K, M, st, val):
    tau = M.asvec(K.ref('tau'), st)
    t0, t1 = tau.f(st, P(K.v.i0)), tau.f(st, P(K.v.i1))
    rr = M.get_field(st, K.o.fc, 'restart_reason')
    return f_and(f_or(le(ZERO, t0), le(t1, ZERO), eq(rr, P(BAD_JACOBIAN))), f_or(eq(rr, P(K.v.reason)), eq(rr, P(BAD_JACOBIAN))))


BAD_JACOBIAN = 2


def verdict(E, v, o):
    if not E.num:
        return 0
    w, q = mc.over_model(E, v, o, NM)
    w.dSHalfDsInterp = .25
    t = [tau(E, w, q, h, (k, l)) for h in range(v.nsMaxH - v.nsMinF1) for k in range(v.nZeta) for l in range(v.nThetaEff)]
    bad = any(x < 0 for x in t) and any(x > 0 for x in t) or t[0] != t[0]
    return BAD_JACOBIAN if bad else v.reason


def sgen(g):
    def f(r, v):
        g(r, v)
        v.i0 = v.i1 = 0
        v.reason = r.choice([1, 3, 4])
    return f


K.gen = sgen(K.gen)


def sfill(r, v, arr):
    """one sign everywhere, up to a single point now and then"""
    def put(n, f):
        s, x = arr[n]
        for i in range(len(x)):
            x[i] = f(i)
    nZnT = v.nZeta * v.nThetaEff
    for n in 'r1_o z1_o ru_o zu_o zu_e'.split():
        put(n, lambda i: 0.)
    put('z1_e', lambda i: float(i // nZnT))
    sg = r.choice([1., -1.])
    put('ru_e', lambda i: sg * r.uniform(1, 2))
    mode = r.random()
    x = arr['ru_e'][1]
    if mode < .4 and x:
        # the sign flips on the first, the last or any one half-grid point
        nh = v.nsMaxH - v.nsMinF1
        i = r.choice([0, nh * nZnT - 1, r.randrange(nh * nZnT)])
        x[i] = -sg * 10
        if r.random() < .5 and i < len(x):
            x[i + nZnT] = -sg * 10
    elif mode < .5 and x:
        x[0] = float('nan')   # not a number from the first point on: the product of the extrema is not finite


K.fill = sfill
K.outs = {'verdict': (changes, lambda E, v, o: TRUE if not E.num else True), 'reason': (lambda K, M, st, val: ZERO, verdict)}
K.reglue('R.fc->restart_reason = static_cast<vmecpp::RestartReason>(C.i("reason")); m.computeJacobian(); C.out("reason", (int)R.fc->restart_reason); C.out("verdict", true);')
K.cases = 60
K.notes = ['the converse (no rejection without a sign change) is decided on concrete runs only']
CONTRACTS.append(K)

K2m = forward(mhd('model_metric', 'computeMetricElements', own='r1_e r1_o ru_e ru_o zu_e zu_o rv_e rv_o zv_e zv_o tau r12 gsqrt guu guv gvv'.split(), prof=['sqrtSF', 'sqrtSH']), K2, NM)
CONTRACTS.append(K2m)
