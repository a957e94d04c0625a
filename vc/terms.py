"""Terms of the verifier.

A number (int or double, both read as mathematical numbers) is a Poly: a
polynomial with rational coefficients over interned atoms.  Exponents may be
negative on single atoms; 1/p for a multi-term p is the atom inv(p).

Atoms:
  ('sym', name, sort)          sort 'i' | 'r'
  ('sel', array, idx, sort)    element of an initial array, idx tuple of Poly
  ('fn', name, args, sort)     function application (args tuple of Poly)
  ('ite', formula, a, b)       a, b Poly
  ('sum', bounds, guards, body) bounds tuple of (lo, hi) for bv_1..bv_k of
                               height-unique names; half open [lo,hi)
Formulas are tuples:
  ('t',) ('f',) ('le', p) [p<=0 int] ('lt', p) [p<0 real] ('rle', p) [p<=0 real]
  ('eq', p) ('not', f) ('and', fs) ('or', fs) ('bs', name) ('bsel', array, idx)
  ('pred', name, args)
"""
from fractions import Fraction
import itertools

_atoms = []          # id -> tuple
_atom_id = {}        # tuple -> id
_atom_sort = []      # id -> 'i'/'r'
_atom_free = []      # id -> frozenset of free atom ids (syms only)
_atom_height = []    # nesting height of sums


def intern_atom(t):
    i = _atom_id.get(t)
    if i is not None:
        return i
    i = len(_atoms)
    _atom_id[t] = i
    _atoms.append(t)
    k = t[0]
    free = frozenset()
    h = 0
    if k == 'sym':
        sort = t[2]
        free = frozenset((i,))
    elif k in ('sel', 'fn'):
        sort = t[3]
        for a in t[2]:
            free |= a.free()
            h = max(h, a.height())
    elif k == 'ite':
        sort = 'i' if t[2].is_int() and t[3].is_int() else 'r'
        free = ffree(t[1]) | t[2].free() | t[3].free()
        h = max(fheight(t[1]), t[2].height(), t[3].height())
    elif k == 'sum':
        bounds, guards, body = t[1:]
        sort = 'i' if body.is_int() else 'r'
        h = len(bounds)
        bvs = set()
        free = body.free()
        hh = body.height()
        for lo, hi in bounds:
            free |= lo.free() | hi.free()
            hh = max(hh, lo.height(), hi.height())
        for g in guards:
            free |= ffree(g)
            hh = max(hh, fheight(g))
        base = t_sum_base(t)
        for n in range(len(bounds)):
            bvs.add(bvar_id(base + n))
        free = frozenset(free - bvs)
        h = base + len(bounds)
    else:
        raise ValueError(k)
    _atom_sort.append(sort)
    _atom_free.append(free)
    _atom_height.append(h)
    return i


def bvar_id(n):
    return intern_atom(('sym', '$%d' % n, 'i'))


def bvar(n):
    return Poly.atom(bvar_id(n))


def t_sum_base(t):
    """bound variables of a sum atom are $base .. $base+k-1"""
    bounds, guards, body = t[1:]
    # base is recorded as the height of everything nested inside
    h = body.height_wo_bv()
    for lo, hi in bounds:
        h = max(h, lo.height_wo_bv(), hi.height_wo_bv())
    for g in guards:
        h = max(h, fheight(g))
    return h


def atom(i):
    return _atoms[i]


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('d', '_h', '_free', '_height', '_int', '_key')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._free = None
        self._height = None
        self._int = None
        self._key = None

    # construction
    @staticmethod
    def const(c):
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            c = Fraction(c)
        c = _norm(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    # comparisons build formulas (never chain them)
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const_val(self):
        return self.d.get((), 0)

    def is_zero(self):
        return not self.d

    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.d.items():
                if isinstance(c, Fraction):
                    r = False
                    break
                for a, e in m:
                    if e < 0 or _atom_sort[a] != 'i':
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def free(self):
        if self._free is None:
            s = frozenset()
            for m in self.d:
                for a, e in m:
                    s |= _atom_free[a]
            self._free = s
        return self._free

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def height(self):
        if self._height is None:
            h = 0
            for m in self.d:
                for a, e in m:
                    h = max(h, _atom_height[a])
            self._height = h
        return self._height

    height_wo_bv = height

    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s == 0:
                del d[m]
            else:
                d[m] = _norm(s)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            c = o.d[()]
            if c == 1:
                return self
            return Poly({m: _norm(k * c) for m, k in self.d.items()})
        if self.is_const():
            return o * self
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                s = d.get(m, 0) + c1 * c2
                if s == 0:
                    d.pop(m, None)
                else:
                    d[m] = _norm(s)
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def coeff_of(self, aid):
        """self = c*atom + rest with c, rest free of atom as a factor; None if nonlinear"""
        c = {}
        r = {}
        for m, k in self.d.items():
            e = 0
            for a, x in m:
                if a == aid:
                    e = x
            if e == 0:
                r[m] = k
            elif e == 1:
                c[tuple((a, x) for a, x in m if a != aid)] = k
            else:
                return None
        return Poly(c), Poly(r)

    def key(self):
        if self._key is None:
            self._key = poly_str(self)
        return self._key

    def __repr__(self):
        return poly_str(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    # both sorted by atom id
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                r.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def sym(name, sort='i'):
    return Poly.atom(intern_atom(('sym', name, sort)))


_fresh = itertools.count()


def fresh(name, sort='i'):
    return sym('%s!%d' % (name, next(_fresh)), sort)


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def sel(array, idx, sort='r'):
    return Poly.atom(intern_atom(('sel', array, tuple(P(i) for i in idx), sort)))


def fn(name, *args, sort='r'):
    return Poly.atom(intern_atom(('fn', name, tuple(P(a) for a in args), sort)))


def single_atom(p):
    """atom id if p is exactly one atom, else None"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def inv(p):
    p = P(p)
    if not p.d:
        # only in branches that are not taken: divisions executed carry an obligation of their own
        return Poly.atom(intern_atom(('fn', 'one_over_zero', (), 'r')))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
    # normalise: leading coefficient (by key order of monomials) 1, and pull out
    # common monomial factors
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items()}
            for a, e in dm.items():
                if e < 0 and a not in common:
                    common[a] = e
    # negative exponents of atoms absent elsewhere
    for m in p.d:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    cm = tuple(sorted((a, e) for a, e in common.items() if e))
    icm = tuple((a, -e) for a, e in cm)
    q = Poly({mono_mul(m, icm): c for m, c in p.d.items()})
    lead = min(q.d, key=lambda m: m)
    c = q.d[lead]
    ic = _norm(Fraction(1) / c)
    q = q * Poly.const(ic)
    a = intern_atom(('fn', 'inv', (q,), 'r'))
    return Poly({mono_mul(icm, ((a, 1),)): ic})


# ---------------------------------------------------------------- formulas
TRUE = ('t',)
FALSE = ('f',)


def _canon_int(p):
    """divide int polynomial by gcd of coefficients"""
    return p


def le(a, b):
    """a <= b"""
    p = P(a) - P(b)
    if p.is_int():
        return le0(p)
    if p.is_const():
        return TRUE if p.const_val() <= 0 else FALSE
    return ('rle', p)


def le0(p):
    if p.is_const():
        return TRUE if p.const_val() <= 0 else FALSE
    # p<=0, tighten by gcd
    from math import gcd
    g = 0
    c0 = 0
    for m, c in p.d.items():
        if m == ():
            c0 = c
        else:
            g = gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.d.items() if m != ()}
        k = -((-c0) // g) if False else None
        # sum g*x + c0 <= 0  <=> x <= floor(-c0/g)  <=> x - floor(-c0/g) <= 0
        f = (-c0) // g
        if f:
            d[()] = -f
        p = Poly(d)
    return ('le', p)


def lt(a, b):
    p = P(a) - P(b)
    if p.is_int():
        return le0(p + 1)
    if p.is_const():
        return TRUE if p.const_val() < 0 else FALSE
    return ('lt', p)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    p = P(a) - P(b)
    if p.is_const():
        return TRUE if p.is_zero() else FALSE
    # sign-normalise on smallest monomial
    lead = min((m for m in p.d if m != ()), key=lambda m: m)
    if p.d[lead] < 0:
        p = -p
    if p.is_int():
        from math import gcd
        g = 0
        for m, c in p.d.items():
            if m != ():
                g = gcd(g, c)
        c0 = p.d.get((), 0)
        if g > 1:
            if c0 % g:
                return FALSE
            p = Poly({m: c // g for m, c in p.d.items()})
    return ('eq', p)


def ne(a, b):
    return fnot(eq(a, b))


def fnot(f):
    k = f[0]
    if k == 't':
        return FALSE
    if k == 'f':
        return TRUE
    if k == 'not':
        return f[1]
    if k == 'le':
        return le0(-f[1] + 1)
    if k == 'lt':
        return ('rle', -f[1])
    if k == 'rle':
        return ('lt', -f[1])
    if k == 'and':
        return f_or(*[fnot(x) for x in f[1]])
    if k == 'or':
        return f_and(*[fnot(x) for x in f[1]])
    return ('not', f)


def f_and(*fs):
    out = []
    for f in fs:
        if f == TRUE:
            continue
        if f == FALSE:
            return FALSE
        if f[0] == 'and':
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if fnot(f) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f == FALSE:
            continue
        if f == TRUE:
            return TRUE
        if f[0] == 'or':
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if f[0] not in ('and', 'or') and fnot(f) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def implies(a, b):
    return f_or(fnot(a), b)


def iff(a, b):
    return f_and(implies(a, b), implies(b, a))


_ffree = {}


def ffree(f):
    r = _ffree.get(f)
    if r is None:
        k = f[0]
        if k in ('t', 'f', 'bs'):
            r = frozenset()
        elif k in ('le', 'lt', 'rle', 'eq'):
            r = f[1].free()
        elif k == 'not':
            r = ffree(f[1])
        elif k in ('and', 'or'):
            r = frozenset().union(*[ffree(x) for x in f[1]])
        elif k in ('bsel', 'pred'):
            r = frozenset().union(*[a.free() for a in f[2] if isinstance(a, Poly)])
        else:
            raise ValueError(k)
        _ffree[f] = r
    return r


def fheight(f):
    k = f[0]
    if k in ('le', 'lt', 'rle', 'eq'):
        return f[1].height()
    if k == 'not':
        return fheight(f[1])
    if k in ('and', 'or'):
        return max(fheight(x) for x in f[1])
    if k in ('bsel', 'pred'):
        return max([a.height() for a in f[2] if isinstance(a, Poly)] + [0])
    return 0


def fliterals(f, out=None):
    """atomic subformulas"""
    if out is None:
        out = []
    k = f[0]
    if k == 'not':
        fliterals(f[1], out)
    elif k in ('and', 'or'):
        for x in f[1]:
            fliterals(x, out)
    elif k not in ('t', 'f'):
        if f not in out:
            out.append(f)
    return out


def ite(c, a, b):
    a = P(a)
    b = P(b)
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    # canonical polarity
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'or':
        return ite(fnot(c), b, a)
    if c[0] == 'le' or c[0] == 'rle' or c[0] == 'lt':
        n = fnot(c)
        if fkey(n) < fkey(c):
            c, a, b = n, b, a
    return Poly.atom(intern_atom(('ite', c, a, b)))


def fkey(f):
    return f_str(f)


# ---------------------------------------------------------------- printing
def atom_str(i):
    t = _atoms[i]
    k = t[0]
    if k == 'sym':
        return t[1]
    if k == 'sel':
        return '%s[%s]' % (t[1], ','.join(poly_str(a) for a in t[2]))
    if k == 'fn':
        return '%s(%s)' % (t[1], ','.join(poly_str(a) for a in t[2]))
    if k == 'ite':
        return 'ite(%s,%s,%s)' % (f_str(t[1]), poly_str(t[2]), poly_str(t[3]))
    if k == 'sum':
        b = t_sum_base(t)
        return 'SUM{%s%s}(%s)' % (
            ';'.join('$%d:%s..%s' % (b + n, poly_str(lo), poly_str(hi)) for n, (lo, hi) in enumerate(t[1])),
            ''.join('|' + f_str(g) for g in t[2]), poly_str(t[3]))


_astr = {}


def _atom_str(i):
    s = _astr.get(i)
    if s is None:
        s = _astr[i] = atom_str(i)
    return s


def poly_str(p):
    if p._key is not None:
        return p._key
    if not p.d:
        return '0'
    parts = []
    for m, c in p.d.items():
        s = '*'.join(_atom_str(a) + ('^%d' % e if e != 1 else '') for a, e in sorted(m, key=lambda x: _atom_str(x[0])))
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        parts.append(s)
    parts.sort()
    p._key = ' + '.join(parts)
    return p._key


def f_str(f):
    k = f[0]
    if k in ('t', 'f'):
        return 'true' if k == 't' else 'false'
    if k == 'le':
        return '(%s <= 0)' % poly_str(f[1])
    if k == 'rle':
        return '(%s <= 0.)' % poly_str(f[1])
    if k == 'lt':
        return '(%s < 0.)' % poly_str(f[1])
    if k == 'eq':
        return '(%s == 0)' % poly_str(f[1])
    if k == 'not':
        return '!' + f_str(f[1])
    if k == 'bs':
        return f[1]
    if k in ('bsel', 'pred'):
        return '%s(%s)' % (f[1], ','.join(str(a) for a in f[2]))
    return '(' + (' & ' if k == 'and' else ' | ').join(f_str(x) for x in f[1]) + ')'


# ---------------------------------------------------------------- substitution
def subst(p, mp, ctx=None, cache=None):
    """mp: atom id -> Poly.  Rebuilds through smart constructors."""
    if cache is None:
        cache = {}
    return _subst(p, mp, frozenset(mp), ctx, cache)


def _touch(fr, keys):
    return not keys.isdisjoint(fr)


def _subst(p, mp, keys, ctx, cache):
    if not _needs(p, keys):
        return p
    r = cache.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.d.items():
        t = Poly({(): c})
        simple = []
        for a, e in m:
            if a in keys:
                t = t * (mp[a] ** e if e > 0 else inv(mp[a]) ** (-e))
            elif _needs_atom(a, keys):
                q = _subst_atom(a, mp, keys, ctx, cache)
                t = t * (q ** e if e > 0 else inv(q) ** (-e))
            else:
                simple.append((a, e))
        if simple:
            t = t * Poly({tuple(simple): 1})
        out = out + t
    cache[p] = out
    return out


def _needs(p, keys):
    for m in p.d:
        for a, e in m:
            if a in keys or _needs_atom(a, keys):
                return True
    return False


_sub_atoms = {}


def atom_deps(a):
    """all atom ids occurring anywhere within atom a (including itself)"""
    r = _sub_atoms.get(a)
    if r is None:
        t = _atoms[a]
        s = {a}
        k = t[0]
        if k in ('sel', 'fn'):
            for q in t[2]:
                s |= poly_deps(q)
        elif k == 'ite':
            s |= formula_deps(t[1]) | poly_deps(t[2]) | poly_deps(t[3])
        elif k == 'sum':
            for lo, hi in t[1]:
                s |= poly_deps(lo) | poly_deps(hi)
            for g in t[2]:
                s |= formula_deps(g)
            s |= poly_deps(t[3])
        r = _sub_atoms[a] = frozenset(s)
    return r


def poly_deps(p):
    s = frozenset()
    for m in p.d:
        for a, e in m:
            s |= atom_deps(a)
    return s


_fdeps = {}


def formula_deps(f):
    r = _fdeps.get(f)
    if r is None:
        k = f[0]
        if k in ('t', 'f', 'bs'):
            r = frozenset()
        elif k in ('le', 'lt', 'rle', 'eq'):
            r = poly_deps(f[1])
        elif k == 'not':
            r = formula_deps(f[1])
        elif k in ('and', 'or'):
            r = frozenset().union(*[formula_deps(x) for x in f[1]])
        else:
            r = frozenset().union(*[poly_deps(a) for a in f[2] if isinstance(a, Poly)])
        _fdeps[f] = r
    return r


def _needs_atom(a, keys):
    return not keys.isdisjoint(atom_deps(a))


def _subst_atom(a, mp, keys, ctx, cache):
    t = _atoms[a]
    k = t[0]
    if k == 'sel':
        return Poly.atom(intern_atom(('sel', t[1], tuple(_subst(q, mp, keys, ctx, cache) for q in t[2]), t[3])))
    if k == 'fn':
        args = [_subst(q, mp, keys, ctx, cache) for q in t[2]]
        return mkfn(t[1], args, t[3])
    if k == 'ite':
        c = fsubst(t[1], mp, ctx, cache, keys)
        return ite(c, _subst(t[2], mp, keys, ctx, cache), _subst(t[3], mp, keys, ctx, cache))
    if k == 'sum':
        bounds, guards, body = t[1:]
        base = t_sum_base(t)
        n = len(bounds)
        # rename bound variables to fresh, substitute, rebuild
        fv = [fresh('b') for _ in range(n)]
        ren = {bvar_id(base + i): fv[i] for i in range(n)}
        # bound vars never in keys/images except by accident of naming: rename first
        r1 = frozenset(ren)
        c1 = {}
        bb = [(_subst(lo, ren, r1, ctx, c1), _subst(hi, ren, r1, ctx, c1)) for lo, hi in bounds]
        gg = [fsubst(g, ren, ctx, c1, r1) for g in guards]
        bd = _subst(body, ren, r1, ctx, c1)
        c2 = {}
        bb = [(_subst(lo, mp, keys, ctx, c2), _subst(hi, mp, keys, ctx, c2)) for lo, hi in bb]
        gg = [fsubst(g, mp, ctx, c2, keys) for g in gg]
        bd = _subst(bd, mp, keys, ctx, c2)
        return mksum([(single_atom(v), lo, hi) for v, (lo, hi) in zip(fv, bb)], gg, bd, ctx)
    raise ValueError(k)


def fsubst(f, mp, ctx=None, cache=None, keys=None):
    if keys is None:
        keys = frozenset(mp)
    if cache is None:
        cache = {}
    if keys.isdisjoint(formula_deps(f)):
        return f
    k = f[0]
    if k == 'le':
        return le0s(_subst(f[1], mp, keys, ctx, cache))
    if k == 'rle':
        return le(_subst(f[1], mp, keys, ctx, cache), ZERO)
    if k == 'lt':
        return lt(_subst(f[1], mp, keys, ctx, cache), ZERO)
    if k == 'eq':
        return eq(_subst(f[1], mp, keys, ctx, cache), ZERO)
    if k == 'not':
        return fnot(fsubst(f[1], mp, ctx, cache, keys))
    if k == 'and':
        return f_and(*[fsubst(x, mp, ctx, cache, keys) for x in f[1]])
    if k == 'or':
        return f_or(*[fsubst(x, mp, ctx, cache, keys) for x in f[1]])
    if k in ('bsel', 'pred'):
        return (k, f[1], tuple(_subst(a, mp, keys, ctx, cache) if isinstance(a, Poly) else a for a in f[2]))
    return f


def le0s(p):
    if p.is_int():
        return le0(p)
    return le(p, ZERO)


# ---------------------------------------------------------------- functions
def mkfn(name, args, sort='r'):
    if name == 'inv':
        return inv(args[0])
    if name == 'cos':
        return cos_(args[0])
    if name == 'sin':
        return sin_(args[0])
    if name == 'sqrt':
        return sqrt_(args[0])
    if name == 'idiv':
        return idiv(args[0], args[1])
    if name == 'imod':
        return imod(args[0], args[1])
    if name == 'pow':
        return pow_(args[0], args[1])
    return Poly.atom(intern_atom(('fn', name, tuple(args), sort)))


def _sign_neg(p):
    """True if the canonical representative of {p,-p} is -p"""
    if not p.d:
        return False
    lead = min(p.d, key=lambda m: (m == (), m))
    return p.d[lead] < 0


def cos_(p):
    if p.is_zero():
        return ONE
    if _sign_neg(p):
        p = -p
    return Poly.atom(intern_atom(('fn', 'cos', (p,), 'r')))


def sin_(p):
    if p.is_zero():
        return ZERO
    if _sign_neg(p):
        return -Poly.atom(intern_atom(('fn', 'sin', (-p,), 'r')))
    return Poly.atom(intern_atom(('fn', 'sin', (p,), 'r')))


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def sqrt_(p):
    if p.is_const():
        c = Fraction(p.const_val())
        if c >= 0:
            a, b = _isqrt(c.numerator), _isqrt(c.denominator)
            if a is not None and b is not None:
                return P(Fraction(a, b))
    return Poly.atom(intern_atom(('fn', 'sqrt', (p,), 'r')))


def pow_(p, n):
    if n.is_const():
        c = n.const_val()
        if isinstance(c, int) and 0 <= c <= 8:
            return p ** c
    return Poly.atom(intern_atom(('fn', 'pow', (p, n), 'r')))


def _undigit(a, b):
    """b * idiv(x, b) + imod(x, b) is x"""
    for m, c in a.d.items():
        if len(m) == 1 and m[0][1] == 1:
            t = _atoms[m[0][0]]
            if t[0] == 'fn' and t[1] == 'imod' and t[2][1] == b:
                r = a - (Poly.atom(intern_atom(('fn', 'idiv', t[2], 'i'))) * b + Poly.atom(m[0][0]) - t[2][0]) * c
                if len(r.d) < len(a.d):
                    return _undigit(r, b)
    return a


def idiv(a, b):
    """C++ integer division, used only where both operands are >= 0 (obligation)"""
    a = _undigit(a, b)
    if b.is_const():
        c = b.const_val()
        if c == 1:
            return a
        if a.is_const() and a.const_val() >= 0 and c > 0:
            return P(a.const_val() // c)
        # split multiples
        q = {}
        r = {}
        for m, k in a.d.items():
            if k % c == 0:
                q[m] = k // c
            else:
                r[m] = k
        if q and not r:
            return Poly(q)
    if a.is_zero():
        return ZERO
    return Poly.atom(intern_atom(('fn', 'idiv', (a, b), 'i')))


def imod(a, b):
    a = _undigit(a, b)
    if b.is_const():
        c = b.const_val()
        if c == 1:
            return ZERO
        if a.is_const() and a.const_val() >= 0 and c > 0:
            return P(a.const_val() % c)
        if all(k % c == 0 for k in a.d.values()):
            return ZERO
    if a.is_zero():
        return ZERO
    return Poly.atom(intern_atom(('fn', 'imod', (a, b), 'i')))


def absr(p):
    return ite(ge(p, 0), p, -P(p))


# ---------------------------------------------------------------- sums
def _find_ite_with(p, vids):
    """an ite atom (id) occurring at factor level of p or nested inside
    sel indices etc. whose condition depends on a variable in vids"""
    for m in p.d:
        for a, e in m:
            r = _find_ite_atom(a, vids)
            if r is not None:
                return r
    return None


def _find_ite_atom(a, vids):
    if _atom_free[a].isdisjoint(vids):
        return None
    t = _atoms[a]
    k = t[0]
    if k == 'ite':
        if not ffree(t[1]).isdisjoint(vids):
            # innermost-first inside the condition
            r = _find_ite_f(t[1], vids)
            return r if r is not None else a
        for q in (t[2], t[3]):
            r = _find_ite_with(q, vids)
            if r is not None:
                return r
        return None
    if k in ('sel', 'fn'):
        for q in t[2]:
            r = _find_ite_with(q, vids)
            if r is not None:
                return r
    return None


def _find_ite_f(f, vids):
    k = f[0]
    if k in ('le', 'lt', 'rle', 'eq'):
        return _find_ite_with(f[1], vids)
    if k == 'not':
        return _find_ite_f(f[1], vids)
    if k in ('and', 'or'):
        for x in f[1]:
            r = _find_ite_f(x, vids)
            if r is not None:
                return r
    return None


def mksum(vars_, guards, body, ctx=None):
    """Sum over vars_ [(atom id, lo, hi)] (nested, first outermost) of
    [guards] * body."""
    r = body
    # summing innermost var first, guards applied at the innermost level
    gs = []
    for g in guards:
        if g[0] == 'and':
            gs.extend(g[1])
        elif g != TRUE:
            gs.append(g)
    if FALSE in gs:
        return ZERO
    return _mksum_rec(list(vars_), gs, body, ctx)


def _odd(p, vars_):
    """imod(v, 2) - 1 with v a summation index that starts at 0 or later"""
    if len(p.d) != 2 or p.d.get((), 0) not in (1, -1):
        return None
    for m, c in p.d.items():
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1 or c != -p.d[()]:
            return None
        t = _atoms[m[0][0]]
        if t[0] == 'fn' and t[1] == 'imod' and t[2][1] == P(2):
            for v, lo, hi in vars_:
                if t[2][0] == Poly.atom(v) and lo.is_const() and lo.const_val() >= 0:
                    return fnot(eq(Poly.atom(m[0][0]), ZERO))
    return None


def _mksum_rec(vars_, gs, body, ctx):
    if body.is_zero():
        return ZERO
    gs = list(dict.fromkeys(gs))
    if not vars_:
        for g in gs:
            if ctx is not None:
                g = ctx.simp_f(g)
            body = ite(g, body, ZERO)
        return body
    vids = frozenset(v for v, _, _ in vars_)
    # guards not depending on any var: outside
    outer = [g for g in gs if ffree(g).isdisjoint(vids)]
    if outer:
        gs = [g for g in gs if not ffree(g).isdisjoint(vids)]
        if ctx is not None:
            outer = [ctx.simp_f(g) for g in outer]
            if FALSE in outer:
                return ZERO
        r = _mksum_rec(vars_, gs, body, ctx)
        for g in outer:
            r = ite(g, r, ZERO)
        return r
    # a factor (v mod 2) of a non-negative index is the indicator of odd v
    for v, lo, hi in vars_:
        if lo.is_const() and lo.const_val() >= 0:
            par = single_atom(imod(Poly.atom(v), P(2)))
            if par is not None and any(a == par for m in body.d for a, _ in m):
                odd, rest = ZERO, ZERO
                for m, c in body.d.items():
                    if any(a == par for a, _ in m):
                        odd = odd + Poly({tuple(x for x in m if x[0] != par): c})
                    else:
                        rest = rest + Poly({m: c})
                return _mksum_rec(vars_, gs + [fnot(eq(Poly.atom(par), ZERO))], odd, ctx) + (_mksum_rec(vars_, gs, rest, ctx) if not rest.is_zero() else ZERO)
    # odd means not even (for a non-negative index)
    for i, g in enumerate(gs):
        if g[0] == 'eq':
            n = _odd(g[1], vars_)
            if n is not None:
                gs[i] = n
    # disjunctive guard: [a|b] = 1-[!a&!b]
    for i, g in enumerate(gs):
        if g[0] == 'or':
            rest = gs[:i] + gs[i + 1:]
            n = fnot(g)
            return _mksum_rec(vars_, rest, body, ctx) - _mksum_rec(vars_, rest + (list(n[1]) if n[0] == 'and' else [n]), body, ctx)
        if g[0] == 'and':
            return _mksum_rec(vars_, gs[:i] + gs[i + 1:] + list(g[1]), body, ctx)
        if g[0] == 'not':
            rest = gs[:i] + gs[i + 1:]
            return _mksum_rec(vars_, rest, body, ctx) - _mksum_rec(vars_, rest + [g[1]], body, ctx)
    # ite in guards (nested)
    for i, g in enumerate(gs):
        a = _find_ite_f(g, vids)
        if a is not None:
            t = _atoms[a]
            gt_ = fsubst(g, {a: t[2]}, ctx)
            gf_ = fsubst(g, {a: t[3]}, ctx)
            rest = gs[:i] + gs[i + 1:]
            return _mksum_rec(vars_, rest + _conj(f_and(t[1], gt_)), body, ctx) + \
                _mksum_rec(vars_, rest + _conj(f_and(fnot(t[1]), gf_)), body, ctx) \
                if True else None
    if FALSE in gs:
        return ZERO
    # ite in body with var-dependent condition
    a = _find_ite_with(body, vids)
    if a is not None:
        t = _atoms[a]
        bt = subst(body, {a: t[2]}, ctx)
        bf = subst(body, {a: t[3]}, ctx)
        return _mksum_rec(vars_, gs, bf, ctx) + _mksum_rec(vars_, gs + _conj(t[1]), bt - bf, ctx)
    # equality guard solvable for a var
    for i, g in enumerate(gs):
        if g[0] == 'eq':
            for j, (v, lo, hi) in enumerate(vars_):
                if any(v in l2.free() or v in h2.free() for _, l2, h2 in vars_):
                    continue
                cr = g[1].coeff_of(v)
                if cr is None:
                    continue
                c, r = cr
                if c.is_const() and c.const_val() in (1, -1) and v not in r.free():
                    val = -r if c.const_val() == 1 else r
                    if not _vars_before_ok(val, vars_, j):
                        pass
                    rest = [fsubst(x, {v: val}, ctx) for k2, x in enumerate(gs) if k2 != i]
                    rest += _conj(f_and(le(lo, val), lt(val, hi)))
                    if FALSE in rest:
                        return ZERO
                    rest = [x for x in rest if x != TRUE]
                    b2 = subst(body, {v: val}, ctx)
                    return _mksum_rec(vars_[:j] + vars_[j + 1:], rest, b2, ctx)
    # bound-tightening by context
    if ctx is not None:
        ngs = []
        for g in gs:
            rng = f_and(*[f_and(le(lo, Poly.atom(v)), lt(Poly.atom(v), hi)) for v, lo, hi in vars_])
            if ctx.prove_under(rng, g):
                continue
            if ctx.prove_under(f_and(rng, *[x for x in gs if x is not g]), fnot(g)):
                return ZERO
            ngs.append(g)
        gs = ngs
    # canonical polarity of inequality guards
    for i, g in enumerate(gs):
        if g[0] in ('le', 'lt', 'rle'):
            n = fnot(g)
            if fkey(n) < fkey(g):
                rest = gs[:i] + gs[i + 1:]
                return _mksum_rec(vars_, rest, body, ctx) - _mksum_rec(vars_, rest + [n], body, ctx)
    # distribute over monomials
    out = ZERO
    for m, c in body.d.items():
        out = out + _sum_mono(vars_, gs, m, ctx) * P(c)
    return out


def _vars_before_ok(val, vars_, j):
    return True


def _conj(f):
    if f == TRUE:
        return []
    if f[0] == 'and':
        return list(f[1])
    return [f]


def _split_index(v, hi, dep, gs, ctx):
    radix = None
    seen = set()
    for a, e in dep:
        if v in _atom_free[a]:
            seen |= set(poly_deps(Poly.atom(a)))
    for g in gs:
        if v in ffree(g):
            seen |= set(formula_deps(g))
    sub = {}
    for x in seen:
        t = _atoms[x]
        if t[0] == 'fn' and t[1] in ('idiv', 'imod') and t[2][0] == Poly.atom(v):
            if radix is None:
                radix = t[2][1]
            elif radix != t[2][1]:
                return None
            sub[x] = t[1]
    if radix is None or radix.is_const() or v in radix.free():
        return None
    from vc.heap import poly_divmod
    q, r = poly_divmod(hi, radix)
    if not r.is_zero():
        return None
    if ctx is None or not ctx.prove(lt(ZERO, radix)):
        return None
    hi_, lo_ = fresh('b'), fresh('b')
    mp = {x: hi_ if k == 'idiv' else lo_ for x, k in sub.items()}
    body = subst(Poly({tuple(dep): 1}), mp, ctx)
    ngs = [fsubst(g, mp, ctx) for g in gs]
    if v in body.free() or any(v in ffree(g) for g in ngs):
        return None
    return [(single_atom(hi_), ZERO, q), (single_atom(lo_), ZERO, radix)], ngs, body


def _sum_mono(vars_, gs, m, ctx):
    vids = frozenset(v for v, _, _ in vars_)
    dep = []
    indep = []
    for a, e in m:
        if _atom_free[a].isdisjoint(vids):
            indep.append((a, e))
        else:
            dep.append((a, e))
    factor = Poly({tuple(indep): 1})
    # merge an inner sum factor
    for i, (a, e) in enumerate(dep):
        t = _atoms[a]
        if t[0] == 'sum' and e == 1:
            bounds, guards, body = t[1:]
            base = t_sum_base(t)
            fv = [fresh('b') for _ in bounds]
            ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
            b2 = subst(body, ren, ctx)
            g2 = [fsubst(g, ren, ctx) for g in guards]
            nv = list(vars_) + [(single_atom(v), subst(lo, ren, ctx), subst(hi, ren, ctx)) for v, (lo, hi) in zip(fv, bounds)]
            rest = dep[:i] + dep[i + 1:]
            return factor * _mksum_rec(nv, list(gs) + g2, b2 * Poly({tuple(rest): 1}), ctx)
    used = set()
    for a, e in dep:
        used |= _atom_free[a]
    for g in gs:
        used |= ffree(g)
    for v, lo, hi in vars_:
        used |= lo.free() | hi.free()
    # variables that occur nowhere: multiply by trip count
    for j, (v, lo, hi) in enumerate(vars_):
        if v not in used:
            rest = vars_[:j] + vars_[j + 1:]
            n = trip(lo, hi, ctx, rest)
            if n.free().isdisjoint(frozenset(x for x, _, _ in rest)):
                return factor * n * _mksum_rec(rest, gs, Poly({tuple(dep): 1}), ctx)
            return factor * _mksum_rec(rest, gs, Poly({tuple(dep): 1}) * n, ctx)
    # an index used through its digits only: one index per digit
    for j, (v, lo, hi) in enumerate(vars_):
        if lo.is_zero() and any(v in l2.free() or v in h2.free() for _, l2, h2 in vars_) is False:
            sp = _split_index(v, hi, dep, gs, ctx)
            if sp is not None:
                nv, ngs, nb = sp
                return factor * _mksum_rec(vars_[:j] + nv + vars_[j + 1:], ngs, nb, ctx)
    # closed form of polynomial sums in a single variable
    if len(vars_) == 1 and not gs:
        v, lo, hi = vars_[0]
        if all(a == v for a, e in dep):
            e = dep[0][1] if dep else 0
            cf = faulhaber(lo, hi, e)
            if cf is not None:
                if ctx is not None and ctx.prove(le(lo, hi)):
                    return factor * cf
                return factor * ite(le(lo, hi), cf, ZERO)
        # concrete tiny ranges
        n = hi - lo
        if n.is_const() and 0 <= n.const_val() <= 4:
            out = ZERO
            bp = Poly({tuple(dep): 1})
            for k in range(n.const_val()):
                out = out + subst(bp, {v: lo + k}, ctx)
            return factor * out
        if n.is_const() and n.const_val() <= 0:
            return ZERO
    return factor * _canon_sum(vars_, gs, Poly({tuple(dep): 1}))


def trip(lo, hi, ctx, rest=()):
    n = hi - lo
    if n.is_const():
        return P(max(0, n.const_val()))
    if ctx is not None:
        rng = f_and(*[f_and(le(l, Poly.atom(v)), lt(Poly.atom(v), h)) for v, l, h in rest])
        if ctx.prove_under(rng, le(lo, hi)):
            return n
    return ite(le(lo, hi), n, ZERO)


def faulhaber(lo, hi, e):
    def S(n):  # sum_{t=0}^{n-1} t^e
        if e == 0:
            return n
        if e == 1:
            return n * (n - 1) * Fraction(1, 2)
        if e == 2:
            return n * (n - 1) * (n * 2 - 1) * Fraction(1, 6)
        if e == 3:
            return n * n * (n - 1) * (n - 1) * Fraction(1, 4)
    if e > 3 or e < 0:
        return None
    return S(hi) - S(lo)


def _canon_sum(vars_, gs, body):
    """build the canonical sum atom.  Sorted var order, guards sorted."""
    h = body.height()
    for g in gs:
        h = max(h, fheight(g))
    for v, lo, hi in vars_:
        h = max(h, lo.height(), hi.height())
    n = len(vars_)
    best = None
    # only independent bounds may be permuted freely; dependent ones keep order
    vidl = [v for v, _, _ in vars_]
    def ok(order):
        seen = set()
        allv = set(vidl)
        for i in order:
            v, lo, hi = vars_[i]
            dep = (lo.free() | hi.free()) & allv
            if not dep <= seen:
                return False
            seen.add(v)
        return True
    keys = [(poly_str(lo), poly_str(hi)) for v, lo, hi in vars_]
    orders = itertools.permutations(range(n))
    cands = []
    for o in orders:
        if not ok(o):
            continue
        cands.append(o)
    if len(cands) > 1:
        # restrict to those sorted by bounds key (independent case)
        ks = min(tuple(keys[i] for i in o) for o in cands)
        cands = [o for o in cands if tuple(keys[i] for i in o) == ks]
    for o in cands:
        ren = {vars_[i][0]: bvar(h + k) for k, i in enumerate(o)}
        b = subst(body, ren)
        bounds = tuple((subst(vars_[i][1], ren), subst(vars_[i][2], ren)) for i in o)
        gg = tuple(sorted((fsubst(g, ren) for g in gs), key=f_str))
        key = (poly_str(b), tuple(f_str(g) for g in gg))
        if best is None or key < best[0]:
            best = (key, bounds, gg, b)
    return Poly.atom(intern_atom(('sum', best[1], best[2], best[3])))


def has_bvar(a):
    """does the atom mention a summation index that is bound outside it"""
    return any(atom(x)[0] == 'sym' and atom(x)[1].startswith('$') for x in poly_deps(Poly.atom(a)))


def sums_in(p):
    """outermost sum atoms of p (also inside conditional values)"""
    out = []

    def go(q):
        for a in q.atoms():
            t = atom(a)
            if t[0] == 'sum':
                if a not in out:
                    out.append(a)
            elif t[0] == 'ite':
                go(t[2])
                go(t[3])
            elif t[0] == 'fn':
                for x in t[2]:
                    go(x)
    go(p)
    return out
