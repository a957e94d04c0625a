"""tridiagonal solves of the radial preconditioner"""
from vc.contract import *

SRC = 'vmecpp/common/util/util.cc'
CONTRACTS = []
SOURCES = [SRC]
PREAMBLE = '#include "vmecpp/common/util/util.h"\n#include <thread>\n#include <omp.h>\n'
ASSUME = ['the pivots of the elimination are non-zero (the code documents that a zero pivot yields NaN, handled by the caller)']

K = Contract('tridiagonal_serial', SRC, 'TridiagonalSolveSerial')
K.ints = dict(ns=(2, 9), jMin=(0, 3), jMax=(2, 9), nRHS=(1, 3), stride=(2, 11))
K.pre = lambda E, v: [v.jMin >= 0, v.jMax >= v.jMin + 1, v.jMax <= v.ns, v.nRHS >= 0, v.stride >= v.jMax]


def gen(r, v):
    v['jMax'] = r.randint(v["jMin"] + 1, v['jMin'] + 8)
    v['ns'] = v['jMax'] + r.randint(0, 2)
    v['stride'] = v['jMax'] + r.randint(0, 3)


K.gen = gen
K.arrays = {n: (lambda v: (v.ns,)) for n in 'adb'}
K.arrays['c'] = lambda v: (v.nRHS, v.stride)
K.rng = {'d': (2.5, 4.0), 'a': (-1, 1), 'b': (-1, 1)}


def args(K, M):
    v = K.v
    c = K.block('c')
    return [K.ref('a'), K.ref('d'), K.ref('b'), ArrRef(c, (), ZERO, None), v.stride, v.jMin, v.jMax, v.nRHS]


K.args = args


def F(E, v, o, j):
    """eliminated super-diagonal"""
    return lazy_branch(E, j <= v.jMin, lambda: o('a', j) / o('d', j),
                       lambda: o('a', j) / (o('d', j) - K.R('F', E, v, o, j - 1) * o('b', j)))


def H(E, v, o, k, j):
    """eliminated right-hand side"""
    return lazy_branch(E, j <= v.jMin, lambda: o('c', k, j) / o('d', j),
                       lambda: (o('c', k, j) - K.R('H', E, v, o, k, j - 1) * o('b', j)) / (o('d', j) - K.R('F', E, v, o, j - 1) * o('b', j)))


def X(E, v, o, k, j):
    """solution, by back substitution from row jMax - 1"""
    return lazy_branch(E, j >= v.jMax - 1, lambda: K.R('H', E, v, o, k, j),
                       lambda: K.R('H', E, v, o, k, j) - K.R('F', E, v, o, j) * K.R('X', E, v, o, k, j + 1))


K.rec = {'F': F, 'H': H, 'X': X}
K.recur = {'a': [lambda E, v, o, j: K.R('F', E, v, o, j)],
           'c': [lambda E, v, o, k, j: K.R('H', E, v, o, k, j), lambda E, v, o, k, j: K.R('X', E, v, o, k, j)]}
K.post['d'] = lambda E, v, o, j: E.ite(j < v.jMin, 1, o('d', j))
K.post['b'] = lambda E, v, o, j: E.ite(j < v.jMin, 0, o('b', j))
K.free = ('a',)     # workspace: holds the eliminated super-diagonal afterwards
K.post['c'] = lambda E, v, o, k, j: lazy_branch(E, j < v.jMin, lambda: 0 * o('c', k, j), lambda: lazy_branch(E, j < v.jMax, lambda: K.R('X', E, v, o, k, j), lambda: o('c', k, j)))


def lemmas(K):
    """the solution satisfies every row of the original system"""
    v = K.v
    k, j = fresh('k'), fresh('j')
    o = K.old
    rows = [('only row', [eq(j, v.jMin), eq(v.jMax, v.jMin + 1)], False, False), ('first row', [eq(j, v.jMin), v.jMax >= v.jMin + 2], False, True), ('interior rows', [j > v.jMin, j < v.jMax - 1], True, True),
            ('last row', [eq(j, v.jMax - 1), v.jMax >= v.jMin + 2], True, False)]
    for nm, pre, lo, hi in rows:
        pre = [v.jMin >= 0, v.jMax >= v.jMin + 1, v.nRHS >= 1, k >= 0, k < v.nRHS] + pre
        E = SymE(Ctx(tuple(pre)))
        lhs = o('d', j) * K.R('X', E, v, o, k, j)
        if lo:
            # X(j-1) by its definition (j - 1 < jMax - 1)
            lhs = lhs + o('b', j) * X(E, v, o, k, j - 1)
        if hi:
            lhs = lhs + o('a', j) * K.R('X', E, v, o, k, j + 1)
        yield eq_lemma(nm, pre, lhs, o('c', k, j))


K.lemmas = lemmas
K.glue = '''vmecpp::TridiagonalSolveSerial(C.v("a"), C.v("d"), C.v("b"), C.p("c"), C.i("stride"), C.i("jMin"), C.i("jMax"), C.i("nRHS"));'''
CONTRACTS.append(K)

# ---- the pipelined multi-thread variant: executed with real threads
KP = Contract('tridiagonal_openmp', SRC, 'TridiagonalSolveOpenMP')
KP.bounded = 'spans stored in local vectors, mutex hand-over between threads: outside the verifier\'s subset; executed with 1-4 OpenMP threads'
KP.ints = dict(ncpu=(1, 4), per=(2, 3), extra=(0, 1), mnmax=(1, 4), nRHS=(1, 2), cut=(0, 0))
KP.pre = lambda E, v: []
NS_ = lambda v: v.ncpu * v.per + v.extra
for t in 'rz':
    for n in 'adb':
        KP.arrays[n + t] = lambda v: (NS_(v), v.mnmax)
    KP.arrays['c' + t] = lambda v: (v.nRHS, NS_(v), v.mnmax)
    KP.rng.update({'d' + t: (2.5, 4.0), 'a' + t: (-1, 1), 'b' + t: (-1, 1)})
KP.arrays['jMin'] = lambda v: (v.mnmax,)
KP.sorts = {'jMin': 'i'}



KP.rng['jMin'] = (0, 1)
KP.rec = {}
KP.free = tuple(n + t for n in 'adb' for t in 'rz')


def pspec(t):
    def Fp(E, v, o, j, m):
        return o('a' + t, j, m) / (o('d' + t, j, m) if j <= o('jMin', m) else o('d' + t, j, m) - KP.R('F' + t, E, v, o, j - 1, m) * o('b' + t, j, m))

    def Hp(E, v, o, k, j, m):
        if j <= o('jMin', m):
            return o('c' + t, k, j, m) / o('d' + t, j, m)
        return (o('c' + t, k, j, m) - KP.R('H' + t, E, v, o, k, j - 1, m) * o('b' + t, j, m)) / (o('d' + t, j, m) - KP.R('F' + t, E, v, o, j - 1, m) * o('b' + t, j, m))

    def Xp(E, v, o, k, j, m):
        h = KP.R('H' + t, E, v, o, k, j, m)
        return h if j >= NS_(v) - v.cut - 1 else h - KP.R('F' + t, E, v, o, j, m) * KP.R('X' + t, E, v, o, k, j + 1, m)
    KP.rec.update({'F' + t: Fp, 'H' + t: Hp, 'X' + t: Xp})
    KP.post['c' + t] = lambda E, v, o, k, j, m: 0.0 if j < o('jMin', m) else (KP.R('X' + t, E, v, o, k, j, m) if j < NS_(v) - v.cut else o('c' + t, k, j, m))


for t in 'rz':
    pspec(t)
KP.glue = '''int ncpu = C.i("ncpu"), per = C.i("per"), mnmax = C.i("mnmax"), nRHS = C.i("nRHS"); int ns = ncpu * per + C.i("extra");
std::vector<std::mutex> mut(ncpu); std::vector<double> har(mnmax), haz(mnmax); std::vector<std::vector<double>> hcr(nRHS, std::vector<double>(mnmax)), hcz = hcr;
auto jm = C.iv("jMin"); std::vector<int> jMin(jm.begin(), jm.end());
#pragma omp parallel num_threads(ncpu)
{ int id = omp_get_thread_num(); int a0 = id * per, a1 = (id == ncpu - 1) ? ns : a0 + per;
  auto cut = [&](const char* n) { return std::vector<double>(C.p(n) + a0 * mnmax, C.p(n) + a1 * mnmax); };
  std::vector<double> ar, dr, br, az, dz, bz; std::vector<std::vector<double>> bcr(nRHS), bcz(nRHS);
#pragma omp critical
  { ar = cut("ar"); dr = cut("dr"); br = cut("br"); az = cut("az"); dz = cut("dz"); bz = cut("bz");
    for (int k = 0; k < nRHS; ++k) { bcr[k].assign(C.p("cr") + (k * ns + a0) * mnmax, C.p("cr") + (k * ns + a1) * mnmax); bcz[k].assign(C.p("cz") + (k * ns + a0) * mnmax, C.p("cz") + (k * ns + a1) * mnmax); } }
  std::vector<std::span<double>> cr(bcr.begin(), bcr.end()), cz(bcz.begin(), bcz.end());
  vmecpp::TridiagonalSolveOpenMP(ar, dr, br, cr, az, dz, bz, cz, jMin, ns - C.i("cut"), mnmax, nRHS, mut, ncpu, id, a0, a1, har, hcr, haz, hcz);
#pragma omp critical
  for (int k = 0; k < nRHS; ++k) { std::copy(bcr[k].begin(), bcr[k].end(), C.p("cr") + (k * ns + a0) * mnmax); std::copy(bcz[k].begin(), bcz[k].end(), C.p("cz") + (k * ns + a0) * mnmax); }
}'''
KP.cases = 40
KP.notes = ['precondition: the rows distributed to the threads are exactly the rows of the system (jMax = end of the last share), as produced by the work distribution']
CONTRACTS.append(KP)
