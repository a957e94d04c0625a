"""the boundary shape and magnetic axis given by the user become the internal ones"""
from vc.contract import *

D = 'vmecpp/vmec/boundaries/'
SRC = D + 'boundaries.cc'
SOURCES = [SRC, 'vmecpp/common/util/util.cc', D + 'guess_magnetic_axis.cc']
CONTRACTS = []
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all']
ASSUME = ['sin, cos and atan2 are uninterpreted: the code must apply them to the same arguments']
PREAMBLE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <map>
#include <span>
#include <cstdio>
#include <iostream>
#define private public
#include "vmecpp/vmec/boundaries/boundaries.h"
#undef private
template <class T> static T* Raw() { return (T*)calloc(1, sizeof(T) + 64); }
'''
BL = 'rbcc rbss rbsc rbcs zbsc zbcs zbcc zbss'.split()
AX = 'raxis_c zaxis_s raxis_s zaxis_c'.split()
IN = 'rbc zbs rbs zbc'.split()


def used(E, v, b):
    return E.and_(True if b in ('rbcc', 'zbsc', 'rbsc', 'zbcc', 'raxis_c', 'zaxis_s', 'raxis_s', 'zaxis_c', 'rbc', 'zbs', 'rbs', 'zbc') else v.lthreed, True if b in ('rbcc', 'rbss', 'zbsc', 'zbcs', 'raxis_c', 'zaxis_s', 'rbc', 'zbs') else v.lasym)


def bnd(name, func, indata=False, axis=False, lasym=None, lthreed=None, blocks=True):
    K = Contract(name, SRC, func, 'Boundaries')
    K.ints = dict(mpol=(2, 5), ntor=(0, 4), sgn=(-1, 1))
    K.bools = ['lthreed', 'lasym']

    def fix(E, v):
        r = []
        if lasym is not None:
            r.append(v.lasym if lasym else E.not_(v.lasym))
        if lthreed is not None:
            r.append(v.lthreed if lthreed else E.not_(v.lthreed))
        return r
    K.pre = lambda E, v: [v.mpol >= 2, v.ntor >= 0, E.implies(E.not_(v.lthreed), E.eq(v.ntor, 0)), E.or_(E.eq(v.sgn, 1), E.eq(v.sgn, -1))] + fix(E, v)

    def gen(r, v):
        v.sgn = r.choice([-1, 1])
        if lasym is not None:
            v.lasym = lasym
        if lthreed is not None:
            v.lthreed = lthreed
        if not v.lthreed:
            v.ntor = 0
    K.gen = gen
    for b in BL if blocks else []:
        K.arrays[b] = lambda v: (v.mpol, v.ntor + 1)
    for a in AX if axis else []:
        K.arrays[a] = lambda v: (v.ntor + 1,)
    if indata:
        for a in IN:
            K.arrays['id_' + a] = lambda v: (v.mpol, 2 * v.ntor + 1)
        for a in AX:
            K.arrays['id_' + a] = lambda v: (v.ntor + 1,)

    def args(K, M):
        v = K.v
        K.s = Obj('s', 'Sizes', fields=dict(mpol=v.mpol, ntor=v.ntor, lthreed=v.lthreed, lasym=v.lasym))
        f = {n: K.ref(n) for n in K.arrays if not n.startswith('id_')}
        f.update(s_=K.s, sign_of_jacobian_=v.sgn)
        t = Obj('this', 'Boundaries', fields=f)
        a = []
        if indata:
            for n in IN:
                K.block('id_' + n).matrix = True
            a = [Obj('id', 'VmecINDATA', fields={n: K.ref('id_' + n) for n in IN + AX}), FALSE]
        return a, t
    K.args = args
    K.head = '''auto& s = *Raw<vmecpp::Sizes>(); *(int*)&s.mpol = C.i("mpol"); *(int*)&s.ntor = C.i("ntor"); *(bool*)&s.lthreed = C.b("lthreed"); *(bool*)&s.lasym = C.b("lasym"); auto& t = *Raw<vmecpp::FourierBasisFastPoloidal>(); vmecpp::Boundaries b(&s, &t, (int)C.i("sgn")); auto& id = *Raw<vmecpp::VmecINDATA>();
''' + ' '.join('b.%s = C.e("%s");' % (n, n) for n in K.arrays if not n.startswith('id_')) + ('''int rows = C.i("mpol"), cols = 2 * C.i("ntor") + 1; id.rbc = C.m<decltype(id.rbc)>("id_rbc", rows, cols); id.zbs = C.m<decltype(id.rbc)>("id_zbs", rows, cols);
new (&id.rbs) decltype(id.rbs)(); new (&id.zbc) decltype(id.zbc)(); new (&id.raxis_s) decltype(id.raxis_s)(); new (&id.zaxis_c) decltype(id.zaxis_c)();
if (C.b("lasym")) { id.rbs = C.m<decltype(id.rbc)>("id_rbs", rows, cols); id.zbc = C.m<decltype(id.rbc)>("id_zbc", rows, cols); id.raxis_s = C.e("id_raxis_s"); id.zaxis_c = C.e("id_zaxis_c"); } id.raxis_c = C.e("id_raxis_c"); id.zaxis_s = C.e("id_zaxis_s");
''' if indata else '')
    K.reglue = lambda c: setattr(K, 'glue', K.head + c + ' '.join('C.set("%s", b.%s);' % (n, n) for n in K.arrays if not n.startswith('id_')))
    CONTRACTS.append(K)
    return K


# ---- signed double angles -> product basis
for _as in (False, True):
    K = bnd('parse_input' + ('_asym' if _as else ''), 'parseToInternalArrays', True, True, lasym=_as)
    K.reglue('b.parseToInternalArrays(id, false);')
    K.contracts = {'signum': lambda M, st, this, a: ite(lt(ZERO, P(a[0])), ONE, ite(lt(P(a[0]), ZERO), -ONE, ZERO))}

    def delta(E, v, o):
        a = o('id_rbs', 1, v.ntor) - o('id_zbc', 1, v.ntor)
        c = o('id_rbc', 1, v.ntor) + o('id_zbs', 1, v.ntor)
        return math.atan2(a, c) if E.num else E.fn('atan2', a, c)

    def co(E, v, o, q, m, n, As):
        """coefficient q at (m, n) after shifting the poloidal angle by delta: theta -> theta + delta, so that the m = 1, n = 0 terms satisfy rbs = zbc"""
        s = v.ntor + n
        if not As:
            return o('id_' + q, m, s)
        d = delta(E, v, o)
        c = (math.cos(m * d) if E.num else E.fn('cos', m * d))
        z = (math.sin(m * d) if E.num else E.fn('sin', m * d))
        oth = {'rbc': ('rbs', 1), 'rbs': ('rbc', -1), 'zbs': ('zbc', -1), 'zbc': ('zbs', 1)}[q]
        return lazy_branch(E, E.eq(d, 0), lambda: o('id_' + q, m, s), lambda: o('id_' + q, m, s) * c + oth[1] * o('id_' + oth[0], m, s) * z)

    def blk(b, As):
        q = {'rbcc': 'rbc', 'rbss': 'rbc', 'zbsc': 'zbs', 'zbcs': 'zbs', 'rbsc': 'rbs', 'rbcs': 'rbs', 'zbcc': 'zbc', 'zbss': 'zbc'}[b]
        even = b[2:] in ('cc', 'sc')
        sg = -1 if b in ('zbcs', 'rbcs') else 1
        m0 = b[2] == 'c'        # the m = 0 row is present only for cos(m theta)

        def post(E, v, o, m, n):
            pos = lambda: co(E, v, o, q, m, n, As)
            neg = lambda: co(E, v, o, q, m, -n, As)
            val = lambda: lazy_branch(E, E.eq(n, 0), lambda: pos() if even else 0, lambda: sg * (pos() + neg() if even else pos() - neg()))
            r = lambda: val() if m0 else lazy_branch(E, E.eq(m, 0), lambda: 0, val)
            return lazy_branch(E, used(E, v, b), r, lambda: o(b, m, n))
        return post
    for b in BL:
        K.post[b] = blk(b, _as)
    for a in AX:
        K.post[a] = (lambda a: lambda E, v, o, n: lazy_branch(E, used(E, v, a), lambda: o('id_' + a, n), lambda: o(a, n)))(a)

# ---- orientation of the poloidal angle
K = bnd('orientation', 'checkSignOfJacobian')
K.reglue('C.out("ret", b.checkSignOfJacobian() ? 1.0 : 0.0);')
K.ret = lambda E, v, o: E.ite(E.sum(0, v.ntor + 1, lambda n: o('rbcc', 1, n)) * E.sum(0, v.ntor + 1, lambda n: o('zbsc', 1, n)) * v.sgn > 0, 1, 0)

K = bnd('flip_theta', 'flipTheta')
K.reglue('b.flipTheta();')
for b in BL:
    # theta -> pi - theta: cos(m theta) picks up (-1)^m, sin(m theta) -(-1)^m
    K.post[b] = (lambda b: lambda E, v, o, m, n: lazy_branch(E, used(E, v, b), lambda: E.ite(E.eq(E.imod(m, 2), 0), 1, -1) * (1 if b[2] == 'c' else E.ite(E.eq(m, 0), 1, -1)) * o(b, m, n), lambda: o(b, m, n)))(b)

K = bnd('m1_constraint', 'ensureM1Constrained')
K.reals = dict(sc=(.2, 1))
K.args = (lambda a: lambda K, M: ([K.v.sc], a(K, M)[1]))(K.args)
K.reglue('b.ensureM1Constrained(C.r("sc"));')
PAIR = {'rbss': ('rbss', 'zbcs', 1), 'zbcs': ('rbss', 'zbcs', -1), 'rbsc': ('rbsc', 'zbcc', 1), 'zbcc': ('rbsc', 'zbcc', -1)}
for b, (r_, z_, sg_) in PAIR.items():
    K.post[b] = (lambda b, r, z, sg: lambda E, v, o, m, n: lazy_branch(E, E.and_(used(E, v, b), E.eq(m, 1)), lambda: (o(r, 1, n) + sg * o(z, 1, n)) * v.sc, lambda: o(b, m, n)))(b, r_, z_, sg_)

# ---- the whole setup: parse, orient, constrain, in this order
K = bnd('setup', 'setupFromIndata', True, blocks=False)


def args(K, M, a=K.args):
    b, t = a(K, M)
    K.log = Obj('log', None, fields=dict(stage=ZERO))
    return b, t


K.args = args
FLIP = ('bs', 'flip_needed')


def step(need, then):
    def f(M, st, this, a):
        M.oblige('pre', 'order of the setup steps', st, need(P(M.get_field(st, M.K.log, 'stage'))))
        M.set_field(st, M.K.log, 'stage', P(then))
    return f


def m1(M, st, this, a):
    step(lambda s: f_or(f_and(FLIP, eq(s, P(2))), f_and(fnot(FLIP), eq(s, P(1)))), 3)(M, st, this, a)
    M.oblige('pre', 'the constraint is applied with the factor one half', st, eq(P(a[0]), P(Fraction(1, 2))))


def check(M, st, this, a):
    M.oblige('pre', 'orientation of the parsed boundary', st, eq(P(M.get_field(st, M.K.log, 'stage')), ONE))
    return FLIP


K.contracts = {'parseToInternalArrays': step(lambda s: eq(s, ZERO), 1), 'checkSignOfJacobian': check, 'flipTheta': step(lambda s: f_and(FLIP, eq(s, ONE)), 2), 'ensureM1Constrained': m1}


def flips(E, v, o):
    if not E.num:
        return E.ite(FLIP, 1, 0)
    r = z = 0
    f, g = blk('rbcc', v.lasym), blk('zbsc', v.lasym)
    for n in range(v.ntor + 1):
        r += f(E, v, o, 1, n)
        z += g(E, v, o, 1, n)
    return 1 if r * z * v.sgn > 0 else 0


K.ret = flips
K.outs = {'stage': (lambda K, M, st, val: M.get_field(st, K.log, 'stage'), lambda E, v, o: 3)}
K.glue = K.head + '''bool f = b.setupFromIndata(id, false); C.out("ret", f ? 1.0 : 0.0);
vmecpp::Boundaries q(&s, &t, (int)C.i("sgn")); q.parseToInternalArrays(id, false); if (f) q.flipTheta(); q.ensureM1Constrained(0.5);
C.out("stage", b.rbcc == q.rbcc && b.rbss == q.rbss && b.rbsc == q.rbsc && b.rbcs == q.rbcs && b.zbsc == q.zbsc && b.zbcs == q.zbcs && b.zbcc == q.zbcc && b.zbss == q.zbss ? 3.0 : 0.0);'''
