"""contravariant/covariant field, magnetic pressure"""
from contracts.kernels_common import *

CONTRACTS = []
import contracts.mhd_common as mc
from contracts.mhd_common import mhd, forward
SOURCES, LINKFLAGS = mc.SOURCES, mc.LINKFLAGS
CHUNK = 1
PREAMBLE = mc.PREAMBLE + hdr('bcontra_kernel.h') + hdr('bco_kernel.h') + hdr('pressure_kernel.h')

K = radial(Contract('contravariant_field', '#include "%sbcontra_kernel.h"' % D, 'ComputeBsupContra', is_text=True, srcname='bcontra_kernel.h'))
for n in 'lue luo lve lvo'.split():
    K.arrays[n] = FULL
for n in 'gsqrt bsupu bsupv'.split():
    K.arrays[n] = HALF
K.arrays['sqrtSH'] = HALF1
K.bools = ['lthreed']
K.sig = 'lue luo lve lvo gsqrt sqrtSH lthreed nZnT nsMinF1 nsMinH nsMaxH bsupu bsupv'.split()


def b(E, v, old, h, k, x):
    (ei, eo), (oi, oo) = io(old, v, x + 'e', h, k), io(old, v, x + 'o', h, k)
    return E.frac(1, 2) * (ei + eo + old('sqrtSH', h) * (oi + oo)) / old('gsqrt', h, k)


K.post = {'bsupv': lambda E, v, old, h, k: b(E, v, old, h, k, 'lu'),
          'bsupu': lambda E, v, old, h, k: E.ite(v.lthreed, b(E, v, old, h, k, 'lv'), 0)}
CONTRACTS.append(flatsig(K))

N = lambda v: (v.n,)
K = Contract('covariant_field', '#include "%sbco_kernel.h"' % D, 'ComputeBCo', is_text=True, srcname='bco_kernel.h')
K.ints = {'n': (0, 20)}
K.bools = ['lthreed']
K.pre = lambda E, v: [v.n >= 0]
for n in 'guu guv gvv bsupu bsupv bsubu bsubv'.split():
    K.arrays[n] = N
K.sig = 'guu guv gvv bsupu bsupv lthreed n bsubu bsubv'.split()
K.post = {
    'bsubu': lambda E, v, o, i: o('guu', i) * o('bsupu', i) + E.ite(v.lthreed, o('guv', i), 0) * o('bsupv', i),
    'bsubv': lambda E, v, o, i: E.ite(v.lthreed, o('guv', i), 0) * o('bsupu', i) + o('gvv', i) * o('bsupv', i)}
CONTRACTS.append(flatsig(K))
KB = K

K = Contract('magnetic_pressure', '#include "%spressure_kernel.h"' % D, 'ComputeMagneticPressure', is_text=True, srcname='pressure_kernel.h')
K.ints = {'n': (0, 20)}
K.pre = lambda E, v: [v.n >= 0]
for n in 'bsupu bsubu bsupv bsubv total_pressure'.split():
    K.arrays[n] = N
K.sig = 'bsupu bsubu bsupv bsubv n total_pressure'.split()
K.post = {'total_pressure': lambda E, v, o, i: E.frac(1, 2) * (o('bsupu', i) * o('bsubu', i) + o('bsupv', i) * o('bsubv', i))}
CONTRACTS.append(flatsig(K))

# ---- model method
K = mhd('model_covariant_field', 'computeBCo', own='guu guv gvv bsupu bsupv bsubu bsubv'.split())
for n in ('bsubu', 'bsubv'):
    K.post[n] = lambda E, v, o, h, k, l, n=n: KB.post[n](E, v, lambda x, i: o(x, *i), (h, k, l))
CONTRACTS.append(K)
