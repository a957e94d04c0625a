"""the preconditioners: lambda, radial R/Z matrices, m=1 constraint, constraint-force strength and de-aliasing"""
from vc.contract import *
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, BLOCKS
from contracts.c14 import ang, half

SOURCES, LINKFLAGS, PREAMBLE = mc.SOURCES, mc.LINKFLAGS, mc.PREAMBLE
CHUNK = 1
CONTRACTS = []


def add(K, *notes):
    K.notes = list(notes)
    CONTRACTS.append(K)
    return K


# ---------------------------------------------------------------- lambda preconditioner
LP = ['guu', 'guv', 'gvv', 'gsqrt', 'bLambda', 'dLambda', 'cLambda', 'lambdaPreconditioner']
K = mhd('lambda_preconditioner', 'updateLambdaPreconditioner', own=LP, prof=['sqrtSF'], wint=True, geom=False, force=False, reals=['lamscale'])
K.rng['gsqrt'] = (.5, 2.)
K.rng['sqrtSF'] = (.1, 1.)


def hmet(E, v, o, q, h):
    """flux-surface average of a metric element over the Jacobian on half-grid point h; the point beyond the boundary
    is the spare last entry of the work array, which the code never writes"""
    g = dict(bLambda='guu', dLambda='guv', cLambda='gvv')[q]
    s = lambda: ang(E, v, lambda k, l: o(g, h, k, l) / o('gsqrt', h, k, l) * o('wInt', l))
    if q == 'dLambda':
        s2 = s
        s = lambda: lazy_branch(E, v.lthreed, s2, lambda: 0)
    return lazy_branch(E, h < v.nsMaxH - v.nsMinF1, s, lambda: o(q, v.nsMaxF1 - v.nsMinF1))


def fmet(E, v, o, q, j):
    """on the full-grid surface j (of this partition): average of the two neighbours, constant towards the axis"""
    h = j + v.nsMinF - v.nsMinF1
    return lazy_branch(E, E.eq(j + v.nsMinF, 0), lambda: hmet(E, v, o, q, P(0) if not E.num else 0), lambda: half(E) * (hmet(E, v, o, q, h) + hmet(E, v, o, q, h - 1)))


def lpost(q):
    def f(E, v, o, i):
        return lazy_branch(E, i < v.nsMaxL - v.nsMinF, lambda: fmet(E, v, o, q, i), lambda: o(q, i))
    return f


for q in ('bLambda', 'dLambda', 'cLambda'):
    K.post[q] = lpost(q)
    # beyond the full-grid values only the spare last entry matters
    K.region[q] = lambda E, v, i: E.or_(i < v.nsMaxL - v.nsMinF, E.eq(i, v.nsMaxF1 - v.nsMinF1))


def lpre(E, v, o, j, m, n):
    b, d, c = (fmet(E, v, o, q, j) for q in ('bLambda', 'dLambda', 'cLambda'))
    t = n * v.nfp
    fac = t * t * b + 2 * m * t * E.ite(b >= 0, E.abs(d), -E.abs(d)) + m * m * c
    fac = E.ite(E.eq(fac, 0), -1.0e-10, fac)
    return 2 / (4 * v.lamscale * v.lamscale) / fac * E.pow(o('sqrtSF', j + v.nsMinF - v.nsMinF1), E.min(m * m * E.frac(1, 256), 8))


K.post['lambdaPreconditioner'] = lambda E, v, o, j, m, n: lazy_branch(E, E.or_(E.eq(j + v.nsMinF, 0), E.and_(E.eq(m, 0), E.eq(n, 0))), lambda: 0, lambda: lpre(E, v, o, j, m, n))
add(K)

K = mhd('apply_lambda_preconditioner', 'applyLambdaPreconditioner', own=['lambdaPreconditioner'], geom=False, force=True)
for b in BLOCKS:
    if b[0] == 'l':
        K.post['f_' + b] = lambda E, v, o, j, m, n, b=b: E.ite(mc.on(E, v, b), o('f_' + b, j, m, n) * o('lambdaPreconditioner', j, m, n), o('f_' + b, j, m, n))
add(K)

# ---------------------------------------------------------------- m = 1 scaling
K = mhd('apply_m1_preconditioner', 'applyM1Preconditioner', own=['ard', 'brd', 'azd', 'bzd'], geom=False, force=True)


def m1(b):
    def f(E, v, o, j, m, n):
        old = lambda: o('f_' + b, j, m, n)

        def scaled():
            r, z = o('ard', j, 1) + o('brd', j, 1), o('azd', j, 1) + o('bzd', j, 1)
            return old() * (r if b[0] == 'r' else z) / (r + z)
        return lazy_branch(E, E.and_(mc.on(E, v, b), E.eq(m, 1), j < v.nsMaxF - v.nsMinF), scaled, old)
    return f


for b in ('rss', 'zcs', 'rsc', 'zcc'):
    K.post['f_' + b] = m1(b)
for a in ('ard', 'brd', 'azd', 'bzd'):
    K.rng[a] = (.5, 2.)
add(K)

# ---------------------------------------------------------------- radial matrix elements
RP = 'r12 totalPressure tau gsqrt bsupv ax bx cx'.split()


def radial_pre(name, x, o, first):
    """the matrix for X (R or Z) is built from the derivatives of the other coordinate"""
    y = {'r': 'z', 'z': 'r'}[x]
    A = ['%s%s%s' % (c, x, d) for c in 'ab' for d in 'md']
    src = [y + 's', y + 'u12', y + 'u_e', y + 'u_o', y + '1_o']
    K = mhd(name, 'computePreconditioningMatrix', own=RP + src + A + ['cxd'], prof=['sqrtSH', 'sm', 'sp'], wint=True, geom=False, force=False)
    args = K.args

    def args2(K, M):
        _, m = args(K, M)
        return [K.ref(n) for n in src + ['a%sm' % x, 'a%sd' % x, 'b%sm' % x, 'b%sd' % x, 'cxd']], m
    K.args = args2
    K.free = ('ax', 'bx', 'cx')
    for n in ('r12', 'tau', 'sqrtSH', 'gsqrt'):
        K.rng[n] = (.5, 2.)

    def t(E, v, o, h, k, l):
        ptau = -4 * o('r12', h, k, l) * o('totalPressure', h, k, l) / o('tau', h, k, l) * o('wInt', l)
        s = o('sqrtSH', h)
        fo = h + 1
        d = o(y + 'u12', h, k, l) / v.deltaS
        m = lambda i: E.frac(1, 4) * (o(y + 'u_e', i, k, l) / s + o(y + 'u_o', i, k, l)) / s
        r = lambda i: half(E) * (o(y + 's', h, k, l) + half(E) / s * o(y + '1_o', i, k, l))
        return ptau, d, m(fo), m(h), r(fo), r(h)

    def ax(E, v, o, h, q):
        def f(k, l):
            p, d, mo, mi, _, _ = t(E, v, o, h, k, l)
            return p * [d * d, (d + mo) * (mi - d), (d + mo) * (d + mo), (mi - d) * (mi - d)][q]
        return ang(E, v, f)

    def bx(E, v, o, h, q):
        def f(k, l):
            p, _, _, _, ro, ri = t(E, v, o, h, k, l)
            return p * [ro * ri, ro * ro, ri * ri][q]
        return ang(E, v, f)

    cx = lambda E, v, o, h: ang(E, v, lambda k, l: -o('bsupv', h, k, l) * o('bsupv', h, k, l) * o('gsqrt', h, k, l) * o('wInt', l))
    spm = lambda o, h: o('sm', h) * o('sp', h)
    K.post['a%sm' % x] = lambda E, v, o, h, q: lazy_branch(E, E.eq(q, 0), lambda: -ax(E, v, o, h, 0), lambda: ax(E, v, o, h, 1) * spm(o, h))
    K.post['b%sm' % x] = lambda E, v, o, h, q: lazy_branch(E, E.eq(q, 0), lambda: bx(E, v, o, h, 0), lambda: bx(E, v, o, h, 0) * spm(o, h))

    def diag(inner, outer):
        """contribution of the half-grid point inside surface j, and of the one outside"""
        def f(E, v, o, j, *q):
            J, h = j + v.nsMinF, j + v.nsMinF - v.nsMinF1
            return lazy_branch(E, J > 0, lambda: inner(E, v, o, h - 1, *q), lambda: 0) + lazy_branch(E, J < v.ns - 1, lambda: outer(E, v, o, h, *q), lambda: 0)
        return f
    par = lambda even, odd: lambda E, v, o, h, q: lazy_branch(E, E.eq(q, 0), lambda: even(E, v, o, h), lambda: odd(E, v, o, h))
    K.post['a%sd' % x] = diag(par(lambda E, v, o, h: ax(E, v, o, h, 0), lambda E, v, o, h: ax(E, v, o, h, 2) * o('sm', h) * o('sm', h)),
                              par(lambda E, v, o, h: ax(E, v, o, h, 0), lambda E, v, o, h: ax(E, v, o, h, 3) * o('sp', h) * o('sp', h)))
    K.post['b%sd' % x] = diag(par(lambda E, v, o, h: bx(E, v, o, h, 1), lambda E, v, o, h: bx(E, v, o, h, 1) * o('sm', h) * o('sm', h)),
                              par(lambda E, v, o, h: bx(E, v, o, h, 2), lambda E, v, o, h: bx(E, v, o, h, 2) * o('sp', h) * o('sp', h)))
    K.post['cxd'] = diag(cx, cx)
    K.reglue('m.computePreconditioningMatrix(%s);' % ', '.join('m.' + n for n in src + ['a%sm' % x, 'a%sd' % x, 'b%sm' % x, 'b%sd' % x, 'cxd']))
    return K


add(radial_pre('radial_preconditioner_r', 'r', None, True))
add(radial_pre('radial_preconditioner_z', 'z', None, False))

# ---------------------------------------------------------------- R/Z matrix from its elements
ME = 'arm ard azm azd brm brd bzm bzd cxd'.split()
K = mhd('assemble_rz_preconditioner', 'assembleRZPreconditioner', own=ME + 'ar az dr dz br bz jMin'.split(), geom=False, force=False, wint=False)
K.sorts = dict(K.sorts or {}, jMin='i')
K.post['jMin'] = lambda E, v, o, m, n: E.ite(E.eq(m, 0), 0, 1)


def edge_unused(E, v, j):
    """boundary row of a free-boundary run before the vacuum field is switched on: not part of the system"""
    return E.and_(E.eq(j + v.nsMinF, v.ns - 1), E.not_(v.vacuum))


def mat(x, which):
    def off(E, v, o, h, m):
        q = E.imod(m, 2)
        return -(o('a%sm' % x, h, q) + o('b%sm' % x, h, q) * m * m)

    def dia(E, v, o, j, m, n):
        q = E.imod(m, 2)
        J, h = j + v.nsMinF, j + v.nsMinF - v.nsMinF1
        d = -(o('a%sd' % x, j, q) + o('b%sd' % x, j, q) * m * m + o('cxd', j) * n * v.nfp * n * v.nfp)
        d = d + lazy_branch(E, E.and_(E.eq(J, 1), E.eq(m, 1)), lambda: off(E, v, o, h - 1, m), lambda: 0)
        ped = lazy_branch(E, m < 2, lambda: 1 + 0.05 if E.num else P(1) + P(0.05), lambda: 1 + 2 * 0.05 if E.num else P(1) + 2 * P(0.05))
        if x == 'z':
            f = E.min(0.25, 0.25 * v.deltaS * 15)
            ped = lazy_branch(E, E.and_(E.eq(m, 0), E.eq(n, 0)), lambda: 1 - f, lambda: ped)
        return lazy_branch(E, E.and_(v.lfreeb, E.eq(J, v.ns - 1)), lambda: d * ped, lambda: d)

    def f(E, v, o, j, m, n):
        J, h = j + v.nsMinF, j + v.nsMinF - v.nsMinF1
        old = lambda: o(which + x, j, m, n)
        inside = {'a': lambda: lazy_branch(E, J < v.ns - 1, lambda: off(E, v, o, h, m), old), 'b': lambda: lazy_branch(E, J > 0, lambda: off(E, v, o, h - 1, m), old), 'd': lambda: dia(E, v, o, j, m, n)}[which]
        return lazy_branch(E, J >= E.ite(E.eq(m, 0), 0, 1), inside, lambda: 0)
    return f


for x in 'rz':
    for w in 'adb':
        K.post[w + x] = mat(x, w)
        K.region[w + x] = lambda E, v, j, m, n: E.not_(edge_unused(E, v, j))
K.bools = K.bools
add(K)

# ---------------------------------------------------------------- strength of the constraint force
K = mhd('constraint_multiplier', 'constraintForceMultiplier', own='ruFull zuFull ard azd tcon'.split(), geom=False, force=False, wint=True, reals=['tcon0'], edge=True)
K.error_returns = True


def tc(E, v, o, j):
    mult = v.tcon0 * (1 + v.ns * (E.frac(1, 1) / 60.0 + v.ns / (200.0 * 120.0))) / 16
    n = lambda a: ang(E, v, lambda k, l: o(a, j, k, l) * o(a, j, k, l) * o('wInt', l))
    return E.min(E.abs(o('ard', j, 0) / n('ruFull')), E.abs(o('azd', j, 0) / n('zuFull'))) * mult * 32 * v.deltaS * 32 * v.deltaS


def tcon(E, v, o, j):
    J = j + v.nsMinF
    inner = lambda j: lazy_branch(E, j + v.nsMinF >= 1, lambda: tc(E, v, o, j), lambda: o('tcon', j))
    return lazy_branch(E, E.eq(J, v.ns - 1), lambda: half(E) * inner(j - 1), lambda: inner(j))


K.post['tcon'] = tcon
K.reglue('auto st = m.constraintForceMultiplier(); C.out("ok", st.ok());')
K.outs = {'ok': (lambda K, M, st, val: TRUE, lambda E, v, o: True if E.num else TRUE)}
add(K, 'surfaces of zero poloidal extent: the early error return is not followed further')

# ---------------------------------------------------------------- de-aliased constraint force
rev = lambda E, n, i: E.ite(E.eq(i, 0), 0, n - i)      # index of the reflected angle


def dealias(name, lasym):
    K = mhd(name, 'deAliasConstraintForce', own='faccon tcon gConEff gsc gcs gCon'.split(), geom=False, force=False, wint=False, basis='sinmui cosmui sinmu cosmu cosnv sinnv'.split())
    K.free = ('gsc', 'gcs')
    K.local_shapes = dict(gcona=lambda v: (v.nZeta, v.nThetaEff))
    K.pre = (lambda p: lambda E, v: p(E, v) + [v.lasym if lasym else E.not_(v.lasym)])(K.pre)
    g = K.gen

    def gen(r, v):
        v.lasym = lasym
        g(r, v)
    K.gen = gen

    def coef(E, v, o, j, m, n, par, refl):
        """Fourier coefficient of the (reflection-)symmetrised effective constraint force, band-limited in m"""
        fm = {'s': 'sinmui', 'c': 'cosmui'}[par[0]]
        fn_ = {'s': 'sinnv', 'c': 'cosnv'}[par[1]]

        def g(k, l):
            a = o('gConEff', j, k, l)
            if refl is None:
                return a
            return half(E) * (a + refl * o('gConEff', j, rev(E, v.nZeta, k), rev(E, v.nThetaEven, l)))
        return E.sum(0, v.nZeta, lambda k: o(fn_, k, n) * o('tcon', j) * E.sum(0, v.nThetaReduced, lambda l: g(k, l) * o(fm, m, l)))

    def part(E, v, o, j, k, l, pars, refl):
        return E.sum(1, v.mpol - 1, lambda m: o('faccon', m) * sum(o({'s': 'sinmu', 'c': 'cosmu'}[p[0]], m, l) * E.sum(0, v.ntor + 1, lambda n: o({'s': 'sinnv', 'c': 'cosnv'}[p[1]], k, n) * coef(E, v, o, j, m, n, p, refl)) for p in pars))

    def gcon(E, v, o, j, k, l):
        sym = lambda k, l: part(E, v, o, j, k, l, ('sc', 'cs'), -1 if lasym else None)
        asy = lambda k, l: part(E, v, o, j, k, l, ('cc', 'ss'), 1)

        def val():
            if not lasym:
                return sym(k, l)
            kr = rev(E, v.nZeta, k)
            return lazy_branch(E, l < v.nThetaReduced, lambda: sym(k, l) + asy(k, l), lambda: asy(kr, v.nThetaEven - l) - sym(kr, v.nThetaEven - l))
        return lazy_branch(E, j >= v.nsMaxF - v.nsMinF, lambda: o('gCon', j, k, l), lambda: lazy_branch(E, j + v.nsMinF >= 1, val, lambda: 0))
    K.post['gCon'] = gcon
    return K


add(dealias('dealias_symmetric', False))
add(dealias('dealias_asymmetric', True))

# ---------------------------------------------------------------- gather / solve / scatter of the R/Z systems
def rz_solve(three, lasym):
    """one thread's part between the barriers: its surfaces go into the shared systems, it solves its share of the
    modes, and every mode's solution comes back on its surfaces"""
    blocks = [('rcc', 'zsc')] + ([('rss', 'zcs')] if three else []) + ([('rsc', 'zcc')] if lasym else []) + ([('rcs', 'zss')] if three and lasym else [])
    nb = len(blocks)
    MAT = 'ar dr br az dz bz'.split()
    K = mhd('apply_rz_preconditioner_%d' % nb + ('a' if lasym and not three else ''), 'applyRZPreconditioner', own=MAT + ['jMin'], geom=False, force=True, wint=False)
    K.ints.update(mnsize=(1, 12), tid=(0, 3), nthr=(1, 4))
    for a in MAT:
        K.arrays[a] = lambda v: (v.nsMaxF - v.nsMinF, v.mnsize)
        K.arrays['all_' + a] = lambda v: (v.mnsize, v.ns)
    K.arrays['jMin'] = lambda v: (v.mnsize,)
    K.sorts = dict(K.sorts or {}, jMin='i')
    for b in BLOCKS:
        K.arrays['f_' + b] = lambda v: (v.nsMaxL - v.nsMinF, v.mnsize)
    for c in 'rz':
        K.arrays['all_c' + c] = lambda v: (v.mnsize, nb, v.ns)
    K.split = None
    pre, gen = K.pre, K.gen
    K.pre = lambda E, v: pre(E, v) + [v.lthreed if three else E.not_(v.lthreed), v.lasym if lasym else E.not_(v.lasym), v.mnsize >= 1, v.nthr >= 1, v.tid >= 0, v.tid < v.nthr]

    def gen2(r, v):
        v.lthreed, v.lasym = three, lasym
        gen(r, v)
        v.mnsize = v.mpol * (v.ntor + 1)
        v.nthr = r.choice([1, 2, 3, v.mnsize, v.mnsize + 1])
        v.tid = r.randrange(v.nthr)
    K.gen = gen2

    def fill(r, v, arr):
        for a in MAT:
            for n in (a, 'all_' + a):
                s, x = arr[n]
                for i in range(len(x)):
                    x[i] = r.uniform(2.5, 4) if a[0] == 'd' else r.uniform(-1, 1)
        s, x = arr['jMin']
        for i in range(len(x)):
            x[i] = 0 if i < v.ntor + 1 else 1
    K.fill = fill

    def args(K, M, base=K.args):
        a, m = base(K, M)
        o = K.o
        o.s.fields['mnsize'] = K.v.mnsize
        o.s.fields['num_basis'] = P(nb)
        for n in MAT:
            o.h.fields['all_' + n] = K.ref('all_' + n)
            K.block('all_' + n).matrix = True
        for c in 'rz':
            o.h.fields['all_c' + c] = K.ref('all_c' + c)
            K.block('all_c' + c).nested = 1
        return a, m
    K.args = args
    K.contracts['get_thread_id'] = lambda M, st, this, a: P(M.K.v.tid)
    K.contracts['get_num_threads'] = lambda M, st, this, a: P(M.K.v.nthr)

    def jmax(E, v):
        return E.ite(E.and_(v.lfreeb, v.vacuum), v.ns, v.ns - 1)

    def tri(M, st, this, a):
        """C08: the right-hand sides of mode mn become the solution of its system, the matrix rows are used up"""
        K, v = M.K, M.K.v
        c = a[3]
        ok = isinstance(c, ArrRef) and c.block in (K.block('all_cr'), K.block('all_cz')) and len(c.pre) == 1
        if not ok:
            raise Unsupported('right-hand side of the solve')
        x = 'r' if c.block is K.block('all_cr') else 'z'
        mn = c.pre[0]
        for ref, n in zip(a[:3], 'adb'):
            blk = K.block('all_' + n + x)
            if ref.block is not blk:
                M.oblige('pre', 'TridiagonalSolveSerial: %s is the matrix of the same coordinate' % n, st, FALSE)
                continue
            row = ref.off + (ref.pre[0] * v.ns if ref.pre else ZERO)
            M.oblige('pre', 'TridiagonalSolveSerial: %s is the row of the same mode' % n, st, eq(row, mn * v.ns))
            M.oblige('pre', 'TridiagonalSolveSerial: %s holds the whole row' % n, st, le(P(v.ns), M.length(st, ref)))
        M.oblige('pre', 'TridiagonalSolveSerial: stride of the right-hand sides', st, eq(a[4], P(v.ns)))
        M.oblige('pre', 'TridiagonalSolveSerial: first row', st, eq(a[5], K.old('jMin', mn)))
        M.oblige('pre', 'TridiagonalSolveSerial: end of the rows', st, eq(a[6], jmax(SymE(), v)))
        M.oblige('pre', 'TridiagonalSolveSerial: number of right-hand sides', st, eq(a[7], P(nb)))
        for b in range(nb):
            M.assign_array(st, ArrRef(c.block, (mn, P(b)), ZERO, P(v.ns)), VecExpr(P(v.ns), lambda s, i, b=b: fn('sol' + x, mn, P(b), i)))
        for n in 'adb':
            M.assign_array(st, ArrRef(K.block('all_' + n + x), (mn,), ZERO, P(v.ns)), VecExpr(P(v.ns), lambda s, i, n=n: fn('used' + n + x, mn, i)))
    K.contracts['TridiagonalSolveSerial'] = tri

    def mine(E, v, mn):
        lo = lambda t: t * E.idiv(v.mnsize, v.nthr) + E.ite(t < E.imod(v.mnsize, v.nthr), t, E.imod(v.mnsize, v.nthr))
        return E.and_(mn >= lo(v.tid), mn < lo(v.tid + 1))

    def sol(E, v, o, x, mn, b, J):
        if not E.num:
            return E.fn('sol' + x, mn, b, J)
        row = lambda n: [o(n + x, j - v.nsMinF, mn) if v.nsMinF <= j < v.nsMaxF else o('all_' + n + x, mn, j) for j in range(v.ns)]
        a, d, bb = row('a'), row('d'), row('b')
        blk = blocks[b][0 if x == 'r' else 1]
        c = [o('f_' + blk, j - v.nsMinF, mn) if v.nsMinF <= j < v.nsMaxF else o('all_c' + x, mn, b, j) for j in range(v.ns)]
        j0, j1 = o('jMin', mn), jmax(E, v)
        if J < j0:
            return 0.
        if J >= j1:
            return c[J]
        # Gaussian elimination on the dense system
        n = j1 - j0
        A = [[0.] * n + [c[j0 + i]] for i in range(n)]
        for i in range(n):
            A[i][i] = d[j0 + i]
            if i:
                A[i][i - 1] = bb[j0 + i]
            if i < n - 1:
                A[i][i + 1] = a[j0 + i]
        for i in range(n):
            p = max(range(i, n), key=lambda q: abs(A[q][i]))
            A[i], A[p] = A[p], A[i]
            for q in range(n):
                if q != i:
                    f = A[q][i] / A[i][i]
                    A[q] = [s - f * t for s, t in zip(A[q], A[i])]
        return A[J - j0][n] / A[J - j0][J - j0]

    for b, (fr, fz) in enumerate(blocks):
        for x, n in (('r', fr), ('z', fz)):
            K.post['f_' + n] = lambda E, v, o, j, mn, b=b, x=x, n=n: lazy_branch(E, E.and_(mine(E, v, mn), j < v.nsMaxF - v.nsMinF), lambda: sol(E, v, o, x, mn, b, j + v.nsMinF), lambda: o('f_' + n, j, mn))
    ours = lambda E, v, j: E.and_(j >= v.nsMinF, j < v.nsMaxF)
    for n in MAT:
        K.post['all_' + n] = lambda E, v, o, mn, j, n=n: lazy_branch(E, ours(E, v, j), lambda: o(n, j - v.nsMinF, mn), lambda: o('all_' + n, mn, j))
        K.region['all_' + n] = lambda E, v, mn, j: E.not_(mine(E, v, mn))
    for q, x in enumerate('rz'):
        def rhs(E, v, o, mn, b, j, q=q, x=x):
            def val(i):
                s = lambda: sol(E, v, o, x, mn, i, j)
                g = lambda: lazy_branch(E, ours(E, v, j), lambda: o('f_' + blocks[i][q], j - v.nsMinF, mn), lambda: o('all_c' + x, mn, i, j))
                return lazy_branch(E, mine(E, v, mn), s, g)
            r = lambda: val(nb - 1)
            for i in reversed(range(nb - 1)):
                r = (lambda i, r: lambda: lazy_branch(E, E.eq(b, i), lambda: val(i), r))(i, r)
            return r()
        K.post['all_c' + x] = rhs
    K.outs = {'ok': (lambda K, M, st, val: val.ok, lambda E, v, o: True if E.num else TRUE)}
    put = 'vmecpp::RadialPartitioning::get_thread_id;'
    g = 'auto mat = [&](vmecpp::RowMatrixXd& M, const char* n, int r, int c) { auto e = C.e(n); M.resize(r, c); std::copy(e.data(), e.data() + e.size(), M.data()); };\n'
    g += 'int MN = C.i("mnsize"), NS = C.i("ns"), NB = %d; R.r->thread_id_ = C.i("tid"); R.r->num_threads_ = C.i("nthr");' % nb
    for n in MAT:
        g += 'mat(h.all_%s, "all_%s", MN, NS);' % (n, n)
    for c in 'rz':
        g += '{ auto e = C.e("all_c%s"); h.all_c%s.resize(MN); for (int q = 0; q < MN; ++q) { h.all_c%s[q].resize(NB, NS); std::copy(e.data() + q * NB * NS, e.data() + (q + 1) * NB * NS, h.all_c%s[q].data()); } }' % (c, c, c, c)
    g += '\nauto st = m.applyRZPreconditioner(f); C.out("ok", st.ok());\n'
    for n in MAT:
        g += '{ Eigen::VectorXd e = Eigen::Map<Eigen::VectorXd>(h.all_%s.data(), MN * NS); C.set("all_%s", e); }' % (n, n)
    for c in 'rz':
        g += '{ Eigen::VectorXd e(MN * NB * NS); for (int q = 0; q < MN; ++q) std::copy(h.all_c%s[q].data(), h.all_c%s[q].data() + NB * NS, e.data() + q * NB * NS); C.set("all_c%s", e); }' % (c, c, c)
    K.reglue(g)
    return K


RZ_NOTE = 'one thread between the barriers; TridiagonalSolveSerial by its contract (C08)'
for _t, _a in ((False, False), (True, False), (False, True), (True, True)):
    add(rz_solve(_t, _a), RZ_NOTE)
