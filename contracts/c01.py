"""work partitioning over threads"""
from vc.contract import *

CONTRACTS = []
SOURCES = ['vmecpp/vmec/radial_partitioning/radial_partitioning.cc',
           'vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc', 'vmecpp/common/util/util.cc']
PREAMBLE = '''
#define private public
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#undef private
#include "vmecpp/common/util/util.h"
'''
CHUNK = 1


def start(E, t, total, n):
    """first item of share t when `total` items are dealt to n shares whose
    sizes differ by at most one, larger shares first"""
    q, r = E.idiv(total, n), E.imod(total, n)
    return t * q + E.min(t, r)


K = Contract('radial_partition', SOURCES[0], 'adjustRadialPartitioning', 'RadialPartitioning')
K.ints = dict(num_threads=(1, 9), thread_id=(0, 8), ns=(2, 40))
K.bools = ['lfreeb']
K.pre = lambda E, v: [v.ns >= 2, v.num_threads >= 1, v.num_threads <= E.idiv(v.ns, 2), v.thread_id >= 0, v.thread_id < v.num_threads]
K.cases = 120


def rargs(K, M):
    K.this_obj = Obj('this', 'RadialPartitioning')
    return [K.v.num_threads, K.v.thread_id, K.v.ns, K.v.lfreeb, FALSE], K.this_obj


K.args = rargs
tot = lambda E, v: E.ite(v.lfreeb, v.ns, v.ns - 1)
minF = lambda E, v, o: start(E, v.thread_id, tot(E, v), v.num_threads)
maxF = lambda E, v, o: start(E, v.thread_id + 1, tot(E, v), v.num_threads)
minF1 = lambda E, v, o: E.max(0, minF(E, v, o) - 1)
maxF1 = lambda E, v, o: E.min(v.ns, maxF(E, v, o) + 1)
SPEC = {
    'nsMinF': minF, 'nsMaxF': maxF, 'nsMinF1': minF1, 'nsMaxF1': maxF1, 'nsMinH': minF1,
    'nsMaxH': lambda E, v, o: maxF1(E, v, o) - 1,
    'nsMinFi': lambda E, v, o: E.max(1, minF(E, v, o)),
    'nsMaxFi': lambda E, v, o: E.min(v.ns - 1, maxF(E, v, o)),
    'nsMaxFIncludingLcfs': lambda E, v, o: E.ite(E.eq(maxF1(E, v, o), v.ns), v.ns, maxF(E, v, o)),
    'num_threads_': lambda E, v, o: v.num_threads, 'thread_id_': lambda E, v, o: v.thread_id, 'ns_': lambda E, v, o: v.ns,
}
K.outs = {n: (field(n), s) for n, s in SPEC.items()}
K.glue = '''vmecpp::RadialPartitioning r;
r.adjustRadialPartitioning(C.i("num_threads"), C.i("thread_id"), C.i("ns"), C.b("lfreeb"), false);
''' + ''.join('C.out("%s", r.%s);\n' % (n, n) for n in SPEC)


def lemmas(K):
    """over the contract: the shares of all threads partition the surfaces; each
    thread's half-grid range joins its own surfaces; one thread owns the edge"""
    E, v = SymE(), K.v
    n, t = v.num_threads, v.thread_id
    T_ = fresh('total')
    q, r = fresh('q'), fresh('r')
    # the division identities of total = n*q + r are the only facts needed
    base = [n >= 1, T_ >= 0, eq(T_, n * q + r), r >= 0, r < n, q >= 0, t >= 0, t < n]
    st = lambda t: t * q + ite(le(t, r), t, r)
    yield prove_lemma('first share starts at 0', base, eq(st(ZERO), ZERO))
    yield prove_lemma('last share ends at the total', base, eq(n * q + ite(le(n, r), n, r), T_))
    yield eq_lemma('share sizes are q or q+1', base, st(t + 1) - st(t), q + ite(lt(t, r), ONE, ZERO))
    yield prove_lemma('shares ordered', base, le(st(t), st(t) + q + ite(lt(t, r), ONE, ZERO)))


K.lemmas = lemmas
CONTRACTS.append(K)

K = Contract('radial_has_boundary', SOURCES[0], 'has_boundary', 'RadialPartitioning')
K.ints = dict(nsMaxF1=(0, 5), ns_=(0, 5))


def hargs(K, M):
    K.this_obj = Obj('this', 'RadialPartitioning', fields={'nsMaxF1': K.v.nsMaxF1, 'ns_': K.v.ns_})
    return [], K.this_obj


K.args = hargs
K.ret = lambda E, v, o: E.eq(v.nsMaxF1, v.ns_)
K.glue = '''vmecpp::RadialPartitioning r; r.nsMaxF1 = C.i("nsMaxF1"); r.ns_ = C.i("ns_"); C.out("ret", r.has_boundary());'''
CONTRACTS.append(K)

K = Contract('tangential_partition', SOURCES[1], 'adjustPartitioning', 'TangentialPartitioning')
K.ints = dict(nZnT=(0, 60), num_threads=(1, 12), thread_id=(0, 11))
K.pre = lambda E, v: [v.nZnT >= 0, v.num_threads >= 1, v.thread_id >= 0, v.thread_id < v.num_threads]
K.cases = 120


def targs(K, M):
    K.this_obj = Obj('this', 'TangentialPartitioning', fields={'num_threads_': K.v.num_threads, 'thread_id_': K.v.thread_id})
    return [K.v.nZnT], K.this_obj


K.args = targs
K.outs = {'ztMin': (field('ztMin'), lambda E, v, o: start(E, v.thread_id, v.nZnT, v.num_threads)),
          'ztMax': (field('ztMax'), lambda E, v, o: start(E, v.thread_id + 1, v.nZnT, v.num_threads))}
K.glue = '''vmecpp::TangentialPartitioning r(C.i("nZnT"), C.i("num_threads"), C.i("thread_id"));
C.out("ztMin", r.ztMin); C.out("ztMax", r.ztMax);'''
CONTRACTS.append(K)

K = Contract('plasma_thread_count', SOURCES[2], 'vmec_adjust_num_threads')
K.ints = dict(max_threads=(1, 64), num_surfaces=(2, 100))
K.pre = lambda E, v: [v.max_threads >= 1, v.num_surfaces >= 2]
K.args = lambda K, M: [K.v.max_threads, K.v.num_surfaces]
K.ret = lambda E, v, o: E.min(v.max_threads, E.idiv(v.num_surfaces, 2))
K.glue = 'C.out("ret", vmecpp::vmec_adjust_num_threads(C.i("max_threads"), C.i("num_surfaces")));'
K.cases = 60
CONTRACTS.append(K)

K = Contract('vacuum_thread_count', SOURCES[2], 'vmec_adjust_vacuum_num_threads')
K.ints = dict(max_threads=(1, 64), n_znt=(1, 100))
K.pre = lambda E, v: [v.max_threads >= 1, v.n_znt >= 1]
K.args = lambda K, M: [K.v.max_threads, K.v.n_znt]
K.ret = lambda E, v, o: E.min(v.max_threads, v.n_znt)
K.glue = 'C.out("ret", vmecpp::vmec_adjust_vacuum_num_threads(C.i("max_threads"), C.i("n_znt")));'
K.cases = 60
CONTRACTS.append(K)
