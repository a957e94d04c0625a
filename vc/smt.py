"""z3 back end: contexts of assumptions, prove / refute / models."""
import time
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

STATS = {'queries': 0, 'time': 0.0, 'cache': 0, 'unknown': 0}

_zatom = {}
_ufs = {}
_zcache = {}
_fcache = {}
_side = []


def _uf(name, n, insort, out):
    k = (name, n, out)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name, *([z3.IntSort() if s == 'i' else z3.RealSort() for s in insort]),
                        {'i': z3.IntSort(), 'r': z3.RealSort(), 'b': z3.BoolSort()}[out])
        _ufs[k] = f
    return f


def zatom(i):
    z = _zatom.get(i)
    if z is not None:
        return z
    t = T.atom(i)
    k = t[0]
    if k == 'sym':
        z = z3.Int('%s_%d' % (t[1], i)) if t[2] == 'i' else z3.Real('%s_%d' % (t[1], i))
    elif k == 'sel':
        args = [to_int(zpoly(a)) for a in t[2]]
        z = _uf('sel_' + t[1], len(args), 'i' * len(args), t[3])(*args)
    elif k == 'fn':
        if t[1] == 'idiv':
            z = zpoly(t[2][0]) / zpoly(t[2][1])
        elif t[1] == 'floor':
            x = zpoly(t[2][0])
            z = x if x.sort() == z3.IntSort() else z3.ToInt(x)
        elif t[1] == 'imod':
            z = zpoly(t[2][0]) % zpoly(t[2][1])
        elif t[1] == 'inv':
            z = 1 / to_real(zpoly(t[2][0]))
        else:
            args = [to_real(zpoly(a)) for a in t[2]]
            z = _uf('fn_' + t[1], len(args), 'r' * len(args), t[3])(*args)
    elif k == 'ite':
        a, b = zpoly(t[2]), zpoly(t[3])
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        z = z3.If(zform(t[1]), a, b)
    elif k == 'sum':
        z = z3.Int('sum_%d' % i) if T._atom_sort[i] == 'i' else z3.Real('sum_%d' % i)
    _zatom[i] = z
    return z


def to_real(z):
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def to_int(z):
    return z if z.sort() == z3.IntSort() else z3.ToInt(z)


def zpoly(p):
    r = _zcache.get(p)
    if r is not None:
        return r
    isint = p.is_int()
    parts = []
    for m, c in p.d.items():
        fs = []
        for a, e in m:
            z = zatom(a)
            if not isint:
                z = to_real(z)
            if e > 0:
                fs += [z] * e
            else:
                fs += [1 / to_real(z)] * (-e)
        if isint:
            k = z3.IntVal(int(c))
        else:
            f = Fraction(c)
            k = z3.Q(f.numerator, f.denominator)
        if not fs:
            parts.append(k)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = k * t
            parts.append(t)
    if not parts:
        r = z3.IntVal(0)
    elif len(parts) == 1:
        r = parts[0]
    else:
        r = z3.Sum(parts)
    _zcache[p] = r
    return r


def zform(f):
    r = _fcache.get(f)
    if r is not None:
        return r
    k = f[0]
    if k == 't':
        r = z3.BoolVal(True)
    elif k == 'f':
        r = z3.BoolVal(False)
    elif k in ('le', 'rle'):
        r = zpoly(f[1]) <= 0
    elif k == 'lt':
        r = zpoly(f[1]) < 0
    elif k == 'eq':
        r = zpoly(f[1]) == 0
    elif k == 'not':
        r = z3.Not(zform(f[1]))
    elif k == 'and':
        r = z3.And([zform(x) for x in f[1]])
    elif k == 'or':
        r = z3.Or([zform(x) for x in f[1]])
    elif k == 'bs':
        r = z3.Bool(f[1])
    elif k in ('bsel', 'pred'):
        args = []
        for a in f[2]:
            if isinstance(a, Poly):
                args.append(to_real(zpoly(a)))
            else:
                args.append(z3.RealVal(hash(a) % 1000003))
        if args:
            r = _uf(k + '_' + f[1] + str(len(args)), len(args), 'r' * len(args), 'b')(*args)
        else:
            r = z3.Bool(k + '_' + f[1])
    else:
        raise ValueError(k)
    _fcache[f] = r
    return r


def divmod_lemmas(fs):
    """a = b*q + r, 0<=r<b for each idiv/imod atom with b>0 (definition of
    integer division on non-negative operands)"""
    out = []
    seen = set()
    deps = set()
    for f in fs:
        deps |= T.formula_deps(f)
    for a in deps:
        t = T.atom(a)
        if t[0] == 'fn' and t[1] in ('idiv', 'imod'):
            key = t[2]
            if key in seen:
                continue
            seen.add(key)
            if key[1].is_const():
                continue
            q = Poly.atom(T.intern_atom(('fn', 'idiv', key, 'i')))
            r = Poly.atom(T.intern_atom(('fn', 'imod', key, 'i')))
            out.append(implies(f_and(gt(key[1], 0), ge(key[0], 0)),
                               f_and(eq(key[0], key[1] * q + r), ge(r, 0), lt(r, key[1]), ge(q, 0))))
    return out


_qcache = {}
TIMEOUT_MS = 4000
# preconditions of the form "for all indices of array A: fact": array -> fn(*indices) -> formula,
# instantiated at the elements that occur in a query
AXIOMS = {}


def set_axioms(ax):
    if AXIOMS or ax:
        _qcache.clear()
    AXIOMS.clear()
    AXIOMS.update(ax)


def axiom_instances(fs):
    out, seen = [], set()
    todo = list(fs)
    for _ in range(2):
        deps = set()
        for f in todo:
            deps |= T.formula_deps(f)
        todo = []
        for a in deps - seen:
            t = T.atom(a)
            if t[0] == 'sel' and t[1] in AXIOMS:
                f = AXIOMS[t[1]](*t[2])
                out.append(f)
                todo.append(f)
        seen |= deps
    return out



class Ctx:
    elim = ()       # substitutions already applied (solved equations)

    def __init__(self, asm=()):
        out = []
        for f in asm:
            if f[0] == 'and':
                out.extend(f[1])
            elif f != TRUE:
                out.append(f)
        self.asm = tuple(dict.fromkeys(out))
        self._set = frozenset(self.asm)
        self._incons = None

    def extend(self, *fs):
        c = Ctx(self.asm + tuple(fs))
        c.elim = self.elim
        return c

    def check(self, extra, timeout=None):
        """'unsat' | 'sat' | 'unknown' of asm & extra; returns (res, model)"""
        fs = list(self.asm) + list(extra)
        if FALSE in fs:
            return 'unsat', None
        # cone of influence is not applied: contexts are small
        if AXIOMS:
            fs = fs + axiom_instances(fs)
        fs = fs + divmod_lemmas(fs)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or TIMEOUT_MS)
        for f in fs:
            s.add(zform(f))
        r = str(s.check())
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        m = s.model() if r == 'sat' else None
        if r == 'unknown':
            STATS['unknown'] += 1
        return r, m

    def prove(self, f, timeout=None):
        if f == TRUE or f in self._set:
            return True
        if f == FALSE:
            pass
        if f[0] == 'and' and all(x in self._set for x in f[1]):
            return True
        key = (self._set, f)
        r = _qcache.get(key)
        if r is not None:
            STATS['cache'] += 1
            return r
        if fnot(f) in self._set:
            r = self.inconsistent()
        else:
            r = self.check([fnot(f)], timeout)[0] == 'unsat'
        _qcache[key] = r
        return r

    def inconsistent(self):
        if self._incons is None:
            self._incons = self.check([])[0] == 'unsat'
        return self._incons

    def prove_under(self, h, f):
        return self.extend(*(h[1] if h[0] == 'and' else (h,))).prove(f)

    def decide(self, f):
        """True / False / None"""
        if f == TRUE:
            return True
        if f == FALSE:
            return False
        if self.prove(f):
            return True
        if self.prove(fnot(f)):
            return False
        return None

    def simp_f(self, f):
        d = self.decide(f)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        return f

    def simp(self, p, cache=None):
        """resolve ite atoms of p whose condition is decided"""
        return simp_poly(p, self)


def simp_poly(p, ctx):
    for _ in range(50):
        done = True
        for a in p.atoms():
            t = T.atom(a)
            if t[0] == 'ite':
                d = ctx.decide(t[1])
                if d is not None:
                    p = subst(p, {a: t[2] if d else t[3]}, ctx)
                    done = False
                    break
        if done:
            return p
    return p


def model_value(m, p):
    z = m.eval(zpoly(p), model_completion=True)
    try:
        if z3.is_int_value(z):
            return z.as_long()
        return float(z.as_fraction())
    except Exception:
        try:
            return float(z.approx(10).as_fraction())
        except Exception:
            return None
