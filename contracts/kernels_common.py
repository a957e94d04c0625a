from vc.contract import *

D = 'vmecpp/vmec/ideal_mhd_model/'


def hdr(h):
    return '#include "%s%s"\n' % (D, h)


def radial(K, extra=()):
    """one radial partition: full-grid arrays cover [nsMinF1, nsMaxF1), half-grid
    arrays [nsMinH, nsMaxH)"""
    K.ints.update(nZnT=(1, 6), nsMinF1=(0, 4), nsMinH=(0, 5), nsMaxH=(1, 8), nsMaxF1=(1, 9))
    K.pre = lambda E, v: [v.nZnT > 0, v.nsMinF1 >= 0, v.nsMinF1 <= v.nsMinH, v.nsMinH < v.nsMaxH, v.nsMaxH < v.nsMaxF1]
    return K


FULL = lambda v: (v.nsMaxF1 - v.nsMinF1, v.nZnT)
HALF = lambda v: (v.nsMaxH - v.nsMinH, v.nZnT)
FULL1 = lambda v: (v.nsMaxF1 - v.nsMinF1,)
HALF1 = lambda v: (v.nsMaxH - v.nsMinH,)


def io(old, v, name, h, k):
    """values on the full-grid surfaces inside and outside of half-grid digit h"""
    j = h + v.nsMinH - v.nsMinF1
    return old(name, j, k), old(name, j + 1, k)
