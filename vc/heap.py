"""Program state: scalars, struct fields, arrays as layered functions, and the
loop rules (inferred invariants, with their side conditions as obligations)."""
from .terms import *
from . import terms as T
from .smt import Ctx


class Unsupported(Exception):
    pass


class Block:
    """an array object with a mixed-radix shape.  base: 'sym' (contents are the
    symbolic initial array), or a Poly (uniform initial value) or None (undefined)"""
    _n = 0

    def __init__(self, name, shape, sort='r', base='sym'):
        self.name = name
        self.shape = None if shape is None else tuple(P(s) for s in shape)
        self.sort = sort
        self.base = base
        self.lo = None      # least valid flat index (arrays padded at the front for a regular shape)
        self.hi = None      # one past the largest valid flat index
        Block._n += 1
        self.id = Block._n

    def total(self):
        r = ONE
        for s in self.shape:
            r = r * s
        return r

    def __repr__(self):
        return 'Block(%s)' % self.name


class ArrRef:
    """reference to (part of) a block: pre = fixed leading digits, off = linear
    offset into the remaining dimensions, len = number of elements (Poly) or
    None; dims = (rows, cols) when the object is used as a 2-d matrix"""
    __slots__ = ('block', 'pre', 'off', 'len', 'dims')

    def __init__(self, block, pre=(), off=ZERO, length=None, dims=None):
        self.block = block
        self.pre = tuple(pre)
        self.off = off
        self.len = length
        self.dims = dims

    def __eq__(self, o):
        return isinstance(o, ArrRef) and (self.block, self.pre, self.off, self.len, self.dims) == (o.block, o.pre, o.off, o.len, o.dims)

    def __hash__(self):
        return hash((self.block.id, self.pre, self.off))

    def __repr__(self):
        return 'ArrRef(%s,%s,%s,%s)' % (self.block.name, self.pre, self.off, self.len)


class VecExpr:
    """element-wise lazy vector/matrix expression"""
    def __init__(self, length, f, dims=None):
        self.len = length
        self.f = f          # idx Poly -> Poly (1-d)
        self.dims = dims    # for matrices f takes (i,j)


class Layer:
    """kind 'W' (assign) or 'A' (accumulate +=) or 'L' (whole array is a
    function of its digits; vars are the digit symbols)"""
    __slots__ = ('kind', 'vars', 'digits', 'guard', 'value')

    def __init__(self, kind, vars_, digits, guard, value):
        self.kind = kind
        self.vars = tuple(vars_)
        self.digits = tuple(digits)
        self.guard = guard
        self.value = value

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'Layer(%s,%s,%s,%s,%s)' % (self.kind, [(atom_str(v), lo, hi) for v, lo, hi in self.vars], self.digits, f_str(self.guard), self.value)

    def map(self, mp, ctx=None):
        return Layer(self.kind, [(v, subst(lo, mp, ctx), subst(hi, mp, ctx)) for v, lo, hi in self.vars],
                     [subst(d, mp, ctx) for d in self.digits], fsubst(self.guard, mp, ctx),
                     self.value if isinstance(self.value, tuple) and False else vsubst(self.value, mp, ctx))


def vsubst(v, mp, ctx=None):
    if isinstance(v, Poly):
        return subst(v, mp, ctx)
    if isinstance(v, tuple):
        return fsubst(v, mp, ctx)
    return v


def vite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b or a == b:
        return a
    if isinstance(a, Poly) or isinstance(b, Poly):
        if isinstance(a, tuple):
            a = ite(a, ONE, ZERO)
        if isinstance(b, tuple):
            b = ite(b, ONE, ZERO)
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return f_or(f_and(c, a), f_and(fnot(c), b))
    raise Unsupported('cannot merge values %r / %r' % (a, b))


HAVOC = 'havoc'


class State:
    __slots__ = ('env', 'heap', 'arrays', 'pc')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.arrays = {}
        self.pc = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.arrays = dict(self.arrays)
        s.pc = self.pc
        return s


class Obligation:
    def __init__(self, kind, desc, status, where, info=None):
        self.kind = kind
        self.desc = desc
        self.status = status     # 'discharged' | 'refuted' | 'unknown'
        self.where = where
        self.info = info


class Machine:
    """language-independent part of the verifier"""

    def __init__(self, pre=()):
        self.pre = tuple(pre)
        self.obls = []
        self.dry = 0
        self.where = ''
        self._ctx = {}
        self.unreach_checks = 0
        self.loop_id = 0
        self.havocs = {}   # array-name@tag -> block
        self.known_blocks = set()
        self.split_dims = ()
        self.deferred = False
        self.loop_stack = []
        self.strict = 0
        self.recur = {}

    # -------------------------------------------------- contexts, obligations
    def ctx(self, st, *extra):
        key = st.pc + tuple(extra)
        c = self._ctx.get(key)
        if c is None:
            c = self._ctx[key] = Ctx(self.pre + key)
        return c

    def oblige(self, kind, desc, st, f, extra=()):
        if self.dry:
            return
        c = self.ctx(st, *extra)
        if c.prove(f):
            self.obls.append(Obligation(kind, desc, 'discharged', self.where))
            return True
        r, m = c.check([fnot(f)])
        if r == 'unsat':
            self.obls.append(Obligation(kind, desc, 'discharged', self.where))
            return True
        self.obls.append(Obligation(kind, desc, 'refuted' if r == 'sat' else 'unknown', self.where,
                                    {'ctx': c, 'goal': f, 'model': str(m)[:2000] if m is not None else None}))
        return False

    # -------------------------------------------------- index decomposition
    def decompose(self, block, pre, off, st, what=''):
        """digits for linear offset `off` into the dims after the prefix; emits
        bounds obligations"""
        shape = block.shape[len(pre):]
        off = P(off)
        digits = []
        if not shape:
            raise Unsupported('indexing past the last dimension of %s' % block.name)
        strides = [ONE] * len(shape)
        for i in range(len(shape) - 2, -1, -1):
            strides[i] = strides[i + 1] * shape[i + 1]
        rem = off
        c = self.ctx(st)
        last = None
        for i in range(len(shape)):
            if i == len(shape) - 1:
                digits.append(rem)
                break
            if last is not None:
                # the innermost digit has been split off; rem counts cells of the remaining dimensions
                q, r = poly_divmod(rem, strides[i])
                if not self._in_range(c, r, strides[i], shape[i + 1:-1], 0):
                    q, r = idiv(rem, strides[i]), imod(rem, strides[i])
                digits.append(q)
                rem = r
                if i == len(shape) - 3:
                    digits += [rem, last]
                    break
                continue
            q, r = poly_divmod(rem, strides[i])
            # fix-ups by +-1 when remainder is provably out of range
            if not self._in_range(c, r, strides[i], shape[i + 1:], 0):
                done = False
                for dq in (1, -1, 2, -2):
                    r2 = r - strides[i] * dq
                    if self._in_range(c, r2, strides[i], shape[i + 1:], 0):
                        q, r = q + dq, r2
                        done = True
                        break
                if not done:
                    # div/mod fallback when the remainder is a flat counter
                    peel = poly_divmod(rem, shape[-1]) if i < len(shape) - 2 and shape[-1].is_const() else None
                    if peel is not None and peel[1].is_const() and c.prove(ge(r, 0)) and q.is_zero():
                        # flat counter of rows of known length: innermost digit first
                        strides = [x if j < i else ONE for j, x in enumerate(strides)]
                        for j in range(len(shape) - 3, i - 1, -1):
                            strides[j] = strides[j + 1] * shape[j + 1]
                        last = peel[1]
                        q, r = idiv(peel[0], strides[i]), imod(peel[0], strides[i])
                        if i == len(shape) - 3:
                            digits += [q, r, last]
                            break
                    elif c.prove(ge(r, 0)) and q.is_zero():
                        q = idiv(rem, strides[i])
                        r = imod(rem, strides[i])
                    else:
                        # cannot decide digits: report as a bounds problem
                        if self.dry and not self.strict:
                            # the index may depend on a counter whose closed
                            # form is not known yet; the body is run again
                            self.deferred = True
                            return tuple(fresh('odig') for _ in shape)
                        self._bounds_fail(block, off, st, what)
            digits.append(q)
            rem = r
        if block.lo is not None and not pre:
            self.oblige('bounds', '%s: %s >= %s (start of %s)' % (what, off, block.lo, block.name), st, ge(off, block.lo))
        if block.hi is not None and not pre:
            self.oblige('bounds', '%s: %s < %s (end of %s)' % (what, off, block.hi, block.name), st, lt(off, block.hi))
        for k, (d, n) in enumerate(zip(digits, shape)):
            self.oblige('bounds', '%s: 0 <= %s < %s (dim %d of %s)' % (what, d, n, k + len(pre), block.name), st,
                        f_and(ge(d, 0), lt(d, n)))
        return tuple(digits)

    def _bounds_fail(self, block, off, st, what):
        tot = ONE
        for s in block.shape:
            tot = tot * s
        if not self.dry:
            self.oblige('bounds', '%s: 0 <= %s < %s (flat index of %s)' % (what, off, tot, block.name), st,
                        f_and(ge(off, 0), lt(off, tot)))
        raise Unsupported('cannot decompose index %s of %s%s' % (off, block.name, list(block.shape)))

    def _in_range(self, c, r, stride, inner, depth):
        """0 <= r < stride where stride = prod(inner); proved digit-wise"""
        if len(inner) <= 1:
            return c.prove(f_and(ge(r, 0), lt(r, stride)))
        s2 = ONE
        for x in inner[1:]:
            s2 = s2 * x
        q, r2 = poly_divmod(r, s2)
        if c.prove(f_and(ge(q, 0), lt(q, inner[0]))) and self._in_range(c, r2, s2, inner[1:], depth + 1):
            return True
        return c.prove(f_and(ge(r, 0), lt(r, stride)))

    # -------------------------------------------------- array access
    def layers(self, st, block):
        return st.arrays.get(block, ())

    def base_read(self, block, digits):
        if isinstance(block.base, Poly):
            return block.base
        if block.base == 'sym' or block.base is None:
            if block.sort == 'b':
                return ('bsel', block.name, tuple(digits))
            return sel(block.name if block.base == 'sym' else 'undef_' + block.name, digits, block.sort)
        if callable(block.base):
            return block.base(digits)
        raise Unsupported('base')

    def read_layers(self, block, ls, digits, c):
        """value of the layered array at digits (no bounds obligation)"""
        i = len(ls) - 1
        pend = []       # accumulations and conditional writes seen so far

        def rec(i, c):
            if i < 0:
                return self.base_read(block, digits)
            l = ls[i]
            if l == HAVOC or isinstance(l, str):
                nm = l
                if block.sort == 'b':
                    return ('bsel', nm, tuple(digits))
                return sel(nm, digits, block.sort)
            if l.kind == 'L':
                mp = {v: d for (v, _, _), d in zip(l.vars, digits)}
                r = vsubst(l.value, mp, c)
                return c.simp(r) if isinstance(r, Poly) else r
            m = self.match(l, digits, c)
            if l.kind == 'W':
                if m is None:
                    return rec(i - 1, c)
                cond, mp, rest = m
                if rest:
                    # undetermined variables: allowed only if value does not
                    # depend on them; existence condition must be a non-empty
                    # range
                    rv = frozenset(v for v, _, _ in rest)
                    val = vsubst(l.value, mp, c)
                    if (val.free() if isinstance(val, Poly) else ffree(val)) & rv or ffree(cond) & rv:
                        raise Unsupported('write to %s not determined by its index' % block.name)
                    cond = f_and(cond, *[lt(lo, hi) for _, lo, hi in rest])
                cond = self.simp_conj(cond, c)
                if cond == FALSE:
                    return rec(i - 1, c)
                val = vsubst(l.value, mp, c)
                if cond == TRUE:
                    return c.simp(val) if isinstance(val, Poly) else val
                lower = rec(i - 1, c.extend(fnot(cond)) if cond[0] != 'and' else c)
                cc = c.extend(*(cond[1] if cond[0] == 'and' else (cond,)))
                if isinstance(val, Poly):
                    val = cc.simp(val)
                return vite(cond, val, lower)
            else:
                lower = rec(i - 1, c)
                if m is None:
                    return lower
                cond, mp, rest = m
                cond = self.simp_conj(cond, c)
                if cond == FALSE:
                    return lower
                val = subst(l.value, mp, c)
                if rest:
                    contrib = mksum(rest, [cond] if cond != TRUE else [], val, c)
                else:
                    contrib = ite(cond, val, ZERO)
                return lower + contrib
        return rec(i, c)

    def simp_conj(self, f, c):
        if f[0] == 'and':
            out = []
            for x in f[1]:
                d = c.decide(x)
                if d is True:
                    continue
                if d is False:
                    return FALSE
                out.append(x)
            return f_and(*out)
        return c.simp_f(f)

    def match(self, l, digits, c):
        """solve layer digits == digits for the layer variables.
        None if impossible; else (cond, subst map, undetermined vars)"""
        eqs = []
        for f, g in zip(l.digits, digits):
            eqs.append(f - g)
        extra = []
        for i, (f, g) in enumerate(zip(l.digits, digits)):
            # consecutive digits idiv(x, n), imod(x, n) of a flat position x: x = g0 * n + g1, 0 <= g1 < n
            if i + 1 < len(l.digits) and f != g:
                a, b = T.single_atom(f), T.single_atom(l.digits[i + 1])
                if a is not None and b is not None and T.atom(a)[:2] == ('fn', 'idiv') and T.atom(b)[:2] == ('fn', 'imod') and T.atom(a)[2] == T.atom(b)[2]:
                    x, n = T.atom(a)[2]
                    eqs[i] = x - (g * n + digits[i + 1])
                    eqs[i + 1] = ZERO
                    extra += [ge(digits[i + 1], ZERO), lt(digits[i + 1], n)]
        mp = {}
        un = {v: (lo, hi) for v, lo, hi in l.vars}
        order = [v for v, _, _ in l.vars]
        progress = True
        while progress:
            progress = False
            for i, e in enumerate(eqs):
                fv = [v for v in order if v in un and v in e.free()]
                if len(fv) == 0:
                    continue
                if len(fv) == 1 or True:
                    for v in fv:
                        cr = e.coeff_of(v)
                        if cr is None:
                            continue
                        co, r = cr
                        if co.is_const() and co.const_val() in (1, -1) and v not in r.free() and len(fv) == 1:
                            val = -r if co.const_val() == 1 else r
                            mp2 = {v: val}
                            mp = {k: subst(x, mp2, c) for k, x in mp.items()}
                            mp[v] = val
                            lo, hi = un.pop(v)
                            un = {k: (subst(a, mp2, c), subst(b, mp2, c)) for k, (a, b) in un.items()}
                            eqs = [subst(x, mp2, c) for x in eqs]
                            eqs.append(('range', le(lo, val), lt(val, hi))) if False else None
                            self._tmp = None
                            mp.setdefault('__conds__', []) if False else None
                            progress = True
                            break
                if progress:
                    break
        conds = list(extra)
        for i, e in enumerate(eqs):
            fv = [v for v in order if v in un and v in e.free()]
            r = self.reflected(e, fv[0], un[fv[0]], c) if len(fv) == 1 else None
            if r is not None:
                v = fv[0]
                val, f = r
                mp2 = {v: val}
                mp = {k: subst(x, mp2, c) for k, x in mp.items()}
                mp[v] = val
                un.pop(v)
                un = {k: (subst(a, mp2, c), subst(b, mp2, c)) for k, (a, b) in un.items()}
                eqs = [ZERO if j == i else subst(x, mp2, c) for j, x in enumerate(eqs)]
                conds.append(f)
        for e in eqs:
            f = eq(e, ZERO)
            if f == FALSE:
                return None
            conds.append(f)
        for v, lo, hi in l.vars:
            if v in mp:
                lo2, hi2 = subst(lo, mp, c), subst(hi, mp, c)
                conds.append(le(lo2, mp[v]))
                conds.append(lt(mp[v], hi2))
        conds.append(fsubst(l.guard, mp, c))
        rest = [(v, subst(lo, mp, c), subst(hi, mp, c)) for v, lo, hi in l.vars if v in un]
        return f_and(*conds), mp, rest

    def reflected(self, e, v, rng, c):
        """solve e = 0 for v where v occurs only in (v == c0 ? a0 : +-v + b): (v, side condition)"""
        its = [(m, k) for m, k in e.d.items() for a, _ in m if v in T._atom_free[a]]
        if len(its) != 1 or len(its[0][0]) != 1 or its[0][0][0][1] != 1 or its[0][1] not in (1, -1):
            return None
        (m, k), = its
        t = T.atom(m[0][0])
        if t[0] != 'ite' or t[1][0] != 'eq':
            return None
        cr = t[1][1].coeff_of(v)
        br = t[3].coeff_of(v)
        if cr is None or br is None or not cr[0].is_const() or cr[0].const_val() not in (1, -1) or not br[0].is_const() or br[0].const_val() not in (1, -1):
            return None
        if v in cr[1].free() or v in br[1].free() or v in t[2].free():
            return None
        c0 = -cr[1] * cr[0]
        g = -(e - Poly({m: k})) * k
        inv = lambda x: (x - br[1]) * br[0]
        lo, hi = rng
        if not c.prove(f_or(lt(inv(t[2]), lo), ge(inv(t[2]), hi), eq(inv(t[2]), c0))):
            return None
        hit = eq(g, t[2])
        return ite(hit, c0, inv(g)), f_or(hit, fnot(eq(inv(g), c0)))

    def read(self, st, ref, idx, what='read'):
        """read element idx (linear) of an ArrRef"""
        digits = self.decompose(ref.block, ref.pre, ref.off + idx, st, what)
        return self.read_digits(st, ref.block, ref.pre + digits)

    def is_open(self, block):
        """contents left open by the contract (bounds are still checked)"""
        return block.name.split('#')[0] in getattr(self.K, 'open_arrays', ()) if hasattr(self, 'K') else False

    def read_digits(self, st, block, digits):
        if self.is_open(block):
            return fresh('open', 'r')
        return self.read_layers(block, self.layers(st, block), tuple(digits), self.ctx(st))

    def write_digits(self, st, block, digits, value, acc=False):
        if self.is_open(block):
            return
        l = Layer('A' if acc else 'W', (), digits, TRUE, value)
        st.arrays[block] = self.layers(st, block) + (l,)

    def write(self, st, ref, idx, value, acc=False, what='write'):
        digits = self.decompose(ref.block, ref.pre, ref.off + idx, st, what)
        self.write_full(st, ref.block, ref.pre + digits, value, acc)

    def write_full(self, st, block, digits, value, acc):
        if self.is_open(block):
            return
        if acc:
            # accumulate: keep as an 'A' layer only if lower content is not locally known
            self.write_digits(st, block, digits, value, True)
            return
        if isinstance(value, Poly) and block.sort != 'b':
            # A[i] = A[i] + d written out
            hv = [a for a in poly_deps(value) if T.atom(a)[0] == 'sel' and '@' in T.atom(a)[1] and T.atom(a)[1].split('@')[0] == block.name]
            if hv:
                cur = self.read_digits(st, block, digits)
                if cur != value:
                    d = value - cur
                    if not any(a in poly_deps(d) for a in hv):
                        self.write_digits(st, block, digits, d, True)
                        return
        self.write_digits(st, block, digits, value, False)

    def range_write(self, st, block, var, lo, hi, digits, value, acc=False):
        l = Layer('A' if acc else 'W', ((single_atom(var), lo, hi),), digits, TRUE, value)
        st.arrays[block] = self.layers(st, block) + (l,)

    # -------------------------------------------------- merging
    def merge(self, cond, a, b, pc):
        """state that equals a when cond else b (both descend from a common state)"""
        s = State()
        s.pc = pc
        for k in a.env.keys() | b.env.keys():
            if k in a.env and k in b.env:
                x, y = a.env[k], b.env[k]
                if x is y:
                    s.env[k] = x
                else:
                    try:
                        s.env[k] = vite(cond, x, y)
                    except Unsupported:
                        s.env[k] = Poison('merge of %r and %r' % (x, y))
            # declared in one branch only: out of scope afterwards
        for k in a.heap.keys() | b.heap.keys():
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is None:
                x = self.initial_field(k)
            if y is None:
                y = self.initial_field(k)
            if x is y:
                s.heap[k] = x
            else:
                try:
                    s.heap[k] = vite(cond, x, y)
                except Unsupported:
                    s.heap[k] = Poison('merge')
        for k in a.arrays.keys() | b.arrays.keys():
            la = a.arrays.get(k, ())
            lb = b.arrays.get(k, ())
            if la is lb:
                s.arrays[k] = la
                continue
            n = 0
            while n < len(la) and n < len(lb) and la[n] is lb[n]:
                n += 1
            out = list(la[:n])
            sa = la[n:]
            sb = lb[n:]
            if any(l == HAVOC or isinstance(l, str) or l.kind == 'L' for l in sa + sb):
                gv = [fresh('g') for _ in k.shape]
                ca = Ctx(self.pre + a.pc)
                cb = Ctx(self.pre + b.pc)
                va = self.read_layers(k, la, tuple(gv), ca)
                vb = self.read_layers(k, lb, tuple(gv), cb)
                s.arrays[k] = (Layer('L', [(single_atom(g), ZERO, n_) for g, n_ in zip(gv, k.shape)], gv, TRUE, vite(cond, va, vb)),)
                continue
            for l in sa:
                out.append(Layer(l.kind, l.vars, l.digits, f_and(cond, l.guard), l.value))
            nc = fnot(cond)
            for l in sb:
                out.append(Layer(l.kind, l.vars, l.digits, f_and(nc, l.guard), l.value))
            s.arrays[k] = tuple(out)
        return s

    def initial_field(self, k):
        raise Unsupported('field %s' % (k,))

    # -------------------------------------------------- loops
    def loop(self, st, lo, hi, body, name='i', step=1):
        """for v in lo..hi-1 (step 1): st = body(st, v).  Returns the state
        after the loop.  body(st, v) -> state (mutating a copy)."""
        lo, hi = P(lo), P(hi)
        c = self.ctx(st)
        n = hi - lo
        if n.is_const() and n.const_val() <= 0:
            return st
        if n.is_const() and n.const_val() <= 64:
            for k in range(int(n.const_val())):
                st = body(st.copy(), lo + k)
            return st
        if c.prove(le(hi, lo)):
            return st
        for A, B in self.split_dims:
            # one flat index running over a two-dimensional range
            if n == A * B:
                return self.loop(st, ZERO, A, lambda s1, a: self.loop(s1, ZERO, B, lambda s2, b: body(s2, lo + a * B + b), name), name)
        self.loop_id += 1
        tag = '@%d' % self.loop_id
        v = fresh(name)
        vid = single_atom(v)
        rng = (le(lo, v), lt(v, hi))
        # fixpoint of the modified set
        mod_env, mod_heap, mod_arr = set(), set(), set()
        sy_env, sy_heap = {}, {}
        entry_deferred = self.deferred
        for _ in range(12):
            self.deferred = False
            s0 = st.copy()
            s0.pc = st.pc + rng
            for k in mod_env:
                s0.env[k] = sy_env[k]
            for k in mod_heap:
                s0.heap[k] = sy_heap[k]
            for b in mod_arr:
                s0.arrays[b] = (b.name + tag,)
                self.havocs[b.name + tag] = b
            self.dry += 1
            self.loop_stack.append(v)
            try:
                s1 = body(s0.copy(), v)
            finally:
                self.dry -= 1
                self.loop_stack.pop()
            ne = {k for k in st.env if k in s1.env and not same(s1.env[k], s0.env[k])}
            nh = {k for k in s1.heap if k not in s0.heap or not same(s1.heap[k], s0.heap[k])}
            na = {b for b in s1.arrays if s1.arrays[b] is not s0.arrays.get(b) and s1.arrays[b] != s0.arrays.get(b, ())}
            # arrays allocated inside the body do not survive
            na = {b for b in na if self.alive_before(b, st)}
            if ne <= mod_env and nh <= mod_heap and na <= mod_arr:
                break
            for k in ne - mod_env:
                sy_env[k] = self.havoc_value(('e', k), st.env[k], str(k) + tag)
            for k in nh - mod_heap:
                old = st.heap[k] if k in st.heap else self.initial_field(k)
                sy_heap[k] = self.havoc_value(('h', k), old, str(k) + tag)
            mod_env |= ne
            mod_heap |= nh
            mod_arr |= na
        else:
            raise Unsupported('loop frame does not stabilise')
        # final (recorded) run of the body in the generic iteration
        self._cur_loop = None
        inv = LoopSummary(self, st, v, lo, hi, tag, mod_env, mod_heap, mod_arr, sy_env, sy_heap)
        if self.deferred:
            # closed forms of the scalars first, then the array accesses
            inv.solve(s1, arrays=False)
            s0 = st.copy()
            s0.pc = st.pc + rng
            for key in inv.sy:
                (s0.env if key[0] == 'e' else s0.heap)[key[1]] = inv.at(key)
            for b in mod_arr:
                s0.arrays[b] = (b.name + tag,)
            self.deferred = False
            self.dry += 1
            self.loop_stack.append(v)
            try:
                s1 = body(s0.copy(), v)
            finally:
                self.dry -= 1
                self.loop_stack.pop()
            if self.deferred:
                if not self.dry:
                    raise Unsupported('cannot decompose an index in the loop body')
                out = inv.state_after(arrays=False)
                for b in mod_arr:
                    out.arrays[b] = (b.name + tag + 'x',)
                    self.havocs[b.name + tag + 'x'] = b
                return out
            inv.solve_arrays(s1)
        else:
            inv.solve(s1)
        self.deferred = entry_deferred
        # obligations are generated by executing the body once more under the
        # invariant (summary at v)
        sv = inv.state_at(v)
        sv.pc = st.pc + rng
        self.loop_stack.append(v)
        try:
            s2 = body(sv, v)
        finally:
            self.loop_stack.pop()
        inv.check_preserved(s2, rng)
        out = inv.state_after()
        return out

    def alive_before(self, b, st):
        return b in self.known_blocks or b in st.arrays

    def sort_of(self, key, old):
        return 'i' if old.is_int() else 'r'

    def havoc_value(self, key, old, name):
        if isinstance(old, Poly):
            return fresh('h_' + name, self.sort_of(key, old))
        if isinstance(old, tuple):
            return ('bs', 'h_%s_%d' % (name, next(T._fresh)))
        if isinstance(old, Poison):
            return Poison('loop')
        if type(old).__name__ == 'StatusVal':
            return type(old)(('bs', 'h_%s_%d' % (name, next(T._fresh))), None if old.value is None else self.havoc_value(key, old.value, name))
        raise Unsupported('loop-modified value %r' % (old,))


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def poly_divmod(p, d):
    """p = q*d + r by multivariate division on d's leading monomial"""
    if d.is_const():
        c = d.const_val()
        if c == 1:
            return p, ZERO
        q, r = {}, {}
        for m, k in p.d.items():
            a, b = divmod(k, c)
            if m == ():
                if a:
                    q[m] = a
                if b:
                    r[m] = b
            else:
                if b == 0:
                    q[m] = a
                else:
                    # keep small coefficients in the remainder
                    if a:
                        q[m] = a
                    r[m] = b
        return Poly(q), Poly(r)
    # leading monomial: the one of highest degree
    lead = max(d.d, key=lambda m: (sum(e for _, e in m), m))
    lc = d.d[lead]
    q = ZERO
    r = p
    for _ in range(60):
        hit = None
        for m, k in r.d.items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in lead) and (isinstance(k, int) and k % lc == 0):
                hit = (m, k)
                break
        if hit is None:
            break
        m, k = hit
        im = tuple((a, -e) for a, e in lead)
        t = Poly({T.mono_mul(m, im): k // lc})
        q = q + t
        r = r - t * d
    return q, r


class LoopSummary:
    """inferred loop invariant: value of every modified location at the start
    of iteration v as a closed term over the loop-entry state"""

    def __init__(self, M, st, v, lo, hi, tag, me, mh, ma, se, sh):
        self.M, self.st, self.v, self.lo, self.hi, self.tag = M, st, v, lo, hi, tag
        self.vid = single_atom(v)
        self.hinted, self.keep = {}, []
        self.me, self.mh, self.ma = me, mh, ma
        self.sy = {}
        for k in me:
            self.sy[('e', k)] = se[k]
        for k in mh:
            self.sy[('h', k)] = sh[k]
        self.ctx0 = M.ctx(st)
        self.ctxv = M.ctx(st, le(lo, v), lt(v, hi))

    def entry(self, key):
        k, x = key
        if k == 'e':
            return self.st.env[x]
        if x in self.st.heap:
            return self.st.heap[x]
        return self.M.initial_field(x)

    def solve_arrays(self, s1):
        self.arr_layers = {b: s1.arrays[b] for b in self.ma}
        for b in self.ma:
            if b.name not in getattr(self.M.K, 'unwatched', ()):
                self.arr_kind(b)

    def solve(self, s1, arrays=True):
        M = self.M
        self.s1 = s1
        # new values after a generic iteration
        self.post = {}
        for key in self.sy:
            self.post[key] = s1.env[key[1]] if key[0] == 'e' else s1.heap[key[1]]
        self.arr_layers = {}
        self.hav_atoms = {}   # atom id of scalar havoc symbol -> key
        for key, s in self.sy.items():
            if isinstance(s, Poly):
                self.hav_atoms[single_atom(s)] = key
        self.bool_syms = {s[1]: key for key, s in self.sy.items() if isinstance(s, tuple)}
        self.arr_names = {b.name + self.tag: b for b in self.ma}
        self.memo = {}
        self.busy = set()
        self.kind = {}
        if arrays:
            self.arr_layers = {b: s1.arrays[b] for b in self.ma}
        for key in self.sy:
            self.at(key)
        if arrays:
            self.solve_arrays(s1)

    # ---- dependence on loop-carried values
    def carried(self, p):
        if isinstance(p, Poly):
            deps = poly_deps(p)
        elif isinstance(p, tuple):
            deps = formula_deps(p)
        else:
            return set()
        out = set()
        for a in deps:
            if a in self.hav_atoms:
                out.add(self.hav_atoms[a])
            else:
                t = T.atom(a)
                if t[0] == 'sel' and t[1] in self.arr_names:
                    out.add(('a', a))
        if self.bool_syms:
            out |= self._bools(p)
        return out

    def _bools(self, p):
        s = p.key() if isinstance(p, Poly) else f_str(p)
        return {k for n, k in self.bool_syms.items() if n in s}

    def resolve(self, p):
        """replace loop-carried atoms in a term (generic iteration v) by their
        closed forms"""
        for _ in range(60):
            cs = self.carried(p)
            if not cs:
                return p
            if any(k[0] == 'a' and T.has_bvar(k[1]) for k in cs):
                q = self.resolve_sums(p)
                if q == p:
                    raise Unsupported('loop-carried array under a sum')
                p = q
                continue
            mp = {}
            for k in cs:
                if k[0] == 'a':
                    a = k[1]
                    t = T.atom(a)
                    if any(self.carried(q) for q in t[2]):
                        continue
                    mp[a] = self.arr_at(self.arr_names[t[1]], t[2])
                else:
                    val = self.at(k)
                    if isinstance(self.sy[k], Poly):
                        mp[single_atom(self.sy[k])] = val
                    else:
                        p = bool_subst(p, self.sy[k], val)
            if not mp:
                if any(k[0] != 'a' and isinstance(self.sy[k], tuple) for k in cs):
                    continue
                raise Unsupported('cyclic loop-carried dependency')
            p = vsubst(p, mp, self.ctxv)
        raise Unsupported('resolve')

    def resolve_sums(self, p):
        """the same inside sums, with the ranges of the summation indices known"""
        if not isinstance(p, Poly):
            return p
        mp = {}
        for a in T.sums_in(p):
            t = T.atom(a)
            base = T.t_sum_base(t)
            fv = [fresh('b') for _ in t[1]]
            ren = {T.bvar_id(base + n): fv[n] for n in range(len(fv))}
            vs = [(single_atom(v), subst(lo, ren), subst(hi, ren)) for v, (lo, hi) in zip(fv, t[1])]
            gs = [fsubst(g, ren) for g in t[2]]
            old = self.ctxv
            self.ctxv = old.extend(*[f_and(le(lo, Poly.atom(v)), lt(Poly.atom(v), hi)) for v, lo, hi in vs], *gs)
            try:
                q = mksum(vs, gs, self.resolve(subst(t[3], ren)), old)
            finally:
                self.ctxv = old
            if q != Poly.atom(a):
                mp[a] = q
        return subst(p, mp, self.ctxv) if mp else p

    def at(self, key):
        """closed form of scalar `key` at the start of iteration v"""
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.busy:
            raise Unsupported('loop-carried recurrence on %s' % (key[1],))
        self.busy.add(key)
        try:
            e = self.post[key]
            s = self.sy[key]
            init = self.entry(key)
            v, lo = self.v, self.lo
            r = None
            if isinstance(e, Poison) or isinstance(s, Poison):
                r = Poison('loop')
                self.kind[key] = 'poison'
            elif isinstance(s, Poly):
                sa = single_atom(s)
                if isinstance(e, tuple):
                    e = ite(e, ONE, ZERO)
                    self.post[key] = e
                if sa not in poly_deps(e):
                    e2 = self.resolve(e)
                    self.nohav(e2)
                    prev = subst(e2, {self.vid: v - 1}, self.ctxv)
                    r = ite(eq(v, lo), init, prev)
                    self.kind[key] = ('carry', e2)
                else:
                    d = e - s
                    if sa not in poly_deps(d):
                        d2 = self.resolve(d)
                        self.nohav(d2)
                        t = fresh('t')
                        acc = mksum([(single_atom(t), lo, v)], [], subst(d2, {self.vid: t}, self.ctxv), self.ctxv)
                        r = P(init) + acc
                        self.kind[key] = ('acc', d2)
                    else:
                        r = self._special(key, e, s, sa, init)
            elif isinstance(s, tuple):
                if s[1] not in f_str(e):
                    e2 = self.resolve(e)
                    prev = fsubst(e2, {self.vid: v - 1}, self.ctxv)
                    r = f_or(f_and(eq(v, lo), init), f_and(ne(v, lo), prev))
                    self.kind[key] = ('carry', e2)
                elif getattr(self.M.K, 'opaque_scans', False):
                    r = f_or(f_and(eq(v, lo), init), f_and(ne(v, lo), eq(self.scan_atom(key, v), ONE)))
                    self.kind[key] = ('opaque', eq(self.scan_atom(key, P(self.hi)), ONE))
                else:
                    raise Unsupported('boolean loop-carried recurrence')
            else:
                raise Unsupported('loop value')
            self.memo[key] = r
            return r
        finally:
            self.busy.discard(key)

    def _special(self, key, e, s, sa, init):
        v, lo = self.v, self.lo
        # conditional last-write with loop-constant condition / guarded sum
        # x' = ite(c, e1, x): split when c is loop invariant
        d = self._delta(e, s, sa)
        if d is not None:
            d2 = self.resolve(d)
            t = fresh('t')
            acc = mksum([(single_atom(t), lo, v)], [], subst(d2, {self.vid: t}, self.ctxv), self.ctxv)
            self.kind[key] = ('acc', d2)
            return P(init) + acc
        # first-order multiplicative recurrence x' = x * f
        cr = e.coeff_of(sa)
        if cr is not None:
            co, rest = cr
            if sa not in poly_deps(co) and sa not in poly_deps(rest):
                co = self.resolve(co)
                rest = self.resolve(rest)
                return self._affine(key, co, rest, init)
        if getattr(self.M.K, 'opaque_scans', False) and isinstance(e, Poly):
            # nothing is known about the scalar but that it is a function of the iteration
            self.kind[key] = ('opaque', self.scan_atom(key, P(self.hi)))
            return ite(eq(v, lo), init, self.scan_atom(key, v))
        raise Unsupported('recurrence on %s' % (key[1],))

    def scan_atom(self, key, v):
        return Poly.atom(intern_atom(('fn', 'scan:%s:%s' % (key[1], self.M.where), tuple(self.M.loop_stack) + (v,), 'r')))

    def _delta(self, e, s, sa, depth=0):
        """e - s as a term free of s when e is an accumulation into s under
        guards that do not depend on s; None otherwise"""
        d = e - s
        if sa not in poly_deps(d):
            return d
        if depth > 8:
            return None
        for m, k in e.d.items():
            if k != 1 or len(m) != 1 or m[0][1] != 1:
                continue
            at = T.atom(m[0][0])
            if at[0] != 'ite' or sa not in poly_deps(Poly.atom(m[0][0])):
                continue
            rest = Poly({q: w for q, w in e.d.items() if q != m})
            if sa in poly_deps(rest):
                return None
            _, c, x, y = at
            if sa in formula_deps(c):
                return None
            dx, dy = self._delta(x, s, sa, depth + 1), self._delta(y, s, sa, depth + 1)
            if dx is None or dy is None:
                return None
            return rest + ite(c, dx, dy)
        return None

    def _affine(self, key, co, rest, init):
        """x' = co*x + rest"""
        v, lo = self.v, self.lo
        if self.vid not in poly_deps(co) and rest.is_zero():
            self.kind[key] = ('geo', co, rest)
            return P(init) * powi(co, v - lo, self.ctxv)
        if self.vid not in poly_deps(co):
            # x_v = init*co^(v-lo) + sum_t rest(t) co^(v-1-t)
            t = fresh('t')
            self.kind[key] = ('geo', co, rest)
            acc = mksum([(single_atom(t), lo, v)], [], subst(rest, {self.vid: t}, self.ctxv) * powi(co, v - 1 - t, self.ctxv), self.ctxv)
            return P(init) * powi(co, v - lo, self.ctxv) + acc
        raise Unsupported('affine recurrence with varying coefficient')

    # ---- arrays
    def new_layers(self, b):
        if b not in self.arr_layers:
            raise Unsupported('scalar depends on array %s with unresolved indices' % b.name)
        ls = self.arr_layers[b]
        if ls and ls[0] == b.name + self.tag:
            return ls[1:], True
        return ls, False     # fully replaced (an 'L' layer at the bottom)

    def arr_kind(self, b):
        k = self.kind.get(b)
        if k is not None:
            return k
        if ('kind', b) in self.busy:
            raise Unsupported('recurrence through array %s' % b.name)
        self.busy.add(('kind', b))
        try:
            k = self._arr_kind(b)
            self.kind[b] = k
            return k
        finally:
            self.busy.discard(('kind', b))

    def _arr_kind(self, b):
        M = self.M
        ls, top = self.new_layers(b)
        if top and all(isinstance(l, Layer) and l.kind in 'WA' for l in ls):
            if not self.cross_overlap(b, ls):
                return 'disjoint'
            if all(l.kind == 'A' for l in ls):
                return 'acc'
        return 'carry'

    def res_layer(self, l):
        """resolve carried scalars in a layer's digits/guard/bounds (not value)"""
        key = ('lay', id(l))
        r = self.memo.get(key)
        if r is None:
            r = Layer(l.kind, [(v, self.resolve(lo), self.resolve(hi)) for v, lo, hi in l.vars],
                      [self.resolve(d) for d in l.digits], self.resolve(l.guard), l.value)
            self.memo[key] = r
        return r

    def rename(self, l, mp):
        """fresh copies of the layer's own variables"""
        ren = {v: fresh('w') for v, _, _ in l.vars}
        full = dict(ren)
        full.update(mp)
        return Layer(l.kind, [(single_atom(ren[v]), subst(lo, full), subst(hi, full)) for v, lo, hi in l.vars],
                     [subst(d, full) for d in l.digits], fsubst(l.guard, full), l.value)

    def cross_overlap(self, b, ls):
        """can two different iterations touch the same cell?"""
        v = self.v
        t1, t2 = fresh('p'), fresh('q')
        rl = [self.res_layer(l) for l in ls]
        base = [le(self.lo, t1), lt(t1, t2), lt(t2, self.hi)]
        seen = set()
        for i, a in enumerate(rl):
            for c in rl:
                sig = (a.digits, a.guard, a.vars, c.digits, c.guard, c.vars)
                if sig in seen:
                    continue
                seen.add(sig)
                x = self.rename(a, {self.vid: t1})
                y = self.rename(c, {self.vid: t2})
                if any(eq(d, e) == FALSE for d, e in zip(x.digits, y.digits)):
                    continue
                fs = list(base)
                for l in (x, y):
                    for w, lo, hi in l.vars:
                        fs += [le(lo, Poly.atom(w)), lt(Poly.atom(w), hi)]
                    fs.append(l.guard)
                fs += [eq(d, e) for d, e in zip(x.digits, y.digits)]
                if FALSE in fs:
                    continue
                if not self.ctx0.extend(*fs).inconsistent():
                    return True
        return False

    def arr_at(self, b, digits, upto=None):
        """content of array b at `digits` at the start of iteration v"""
        M = self.M
        key = ('arrat', b, tuple(digits))
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            raise Unsupported('recurrence through array %s' % b.name)
        self.busy.add(key)
        try:
            r = self._arr_at(b, digits)
            self.memo[key] = r
            return r
        finally:
            self.busy.discard(key)

    def _arr_at(self, b, digits):
        M = self.M
        ls, top = self.new_layers(b)
        c = self.ctxv
        if self.scratch(b):
            return fn(self.hav(b), self.v, *digits)
        k = self.arr_kind(b)
        if k in ('disjoint', 'acc'):
            # which earlier iterations may have touched this cell?
            t = fresh('t')
            used = []
            for l in ls:
                x = self.rename(self.res_layer(l), {self.vid: t})
                fs = [le(self.lo, t), lt(t, self.v), x.guard]
                for w, lo, hi in x.vars:
                    fs += [le(lo, Poly.atom(w)), lt(Poly.atom(w), hi)]
                fs += [eq(d, e) for d, e in zip(x.digits, digits)]
                if FALSE in fs or c.extend(*fs).inconsistent():
                    continue
                used.append(l)
            base = M.read_layers(b, M.layers(self.st, b), tuple(digits), c)
            if not used:
                return base
            gl = [self.general(l, self.v) for l in used]
            return M.read_layers(b, M.layers(self.st, b) + tuple(gl), tuple(digits), c)
        R, X, gv = self.carry_fn(b)
        base = M.read_layers(b, M.layers(self.st, b), tuple(digits), c)
        mp = {single_atom(g): d for g, d in zip(gv, digits)}
        mp[self.vid] = self.v - 1
        mp[single_atom(X)] = base
        val = subst(R, mp, c)
        return ite(eq(self.v, self.lo), base, val)

    def scratch(self, b):
        """work array whose contents between iterations nothing relies on: its
        content at the start of an iteration is an arbitrary function"""
        if b.name in getattr(self.M.K, 'unwatched', ()):
            return True
        return b.name.split('#')[0] in getattr(self.M.K, 'scratch', ()) and self.arr_kind(b) == 'carry'

    def hav(self, b):
        return 'hav_%s_%s_%d' % (b.name, self.tag, id(self))

    def nohav(self, p):
        if (getattr(self.M.K, 'scratch', ()) or getattr(self.M.K, 'unwatched', ())) and 'hav_' in (p.key() if isinstance(p, Poly) else f_str(p)):
            raise Unsupported('value depends on left-over contents of a work array')

    def carry_fn(self, b):
        """R(g, v, X): content of cell g after iteration v, X the entry content"""
        key = ('carry', b)
        if key in self.memo:
            return self.memo[key]
        M = self.M
        gv = [fresh('g') for _ in b.shape]
        rngs = [f_and(ge(g, 0), lt(g, n)) for g, n in zip(gv, b.shape)]
        c = self.ctxv.extend(*rngs)
        R = M.read_layers(b, self.arr_layers[b], tuple(gv), c)
        own = intern_atom(('sel', b.name + self.tag, tuple(gv), b.sort))
        X = fresh('X', b.sort)
        R = subst(R, {own: X}, c)
        if self.carried(R):
            if any(kk[0] == 'a' and T.atom(kk[1])[1] == b.name + self.tag for kk in self.carried(R)):
                raise Unsupported('array recurrence in %s' % b.name)
            R = self.resolve(R)
        self.nohav(R)
        # X-free, or ite(c,e,X) with c independent of the loop variable
        if single_atom(X) in poly_deps(R):
            if not self._keeps(R, single_atom(X)):
                raise Unsupported('partial overwrite of %s depends on the iteration' % b.name)
        self.memo[key] = (R, X, gv)
        return self.memo[key]

    def _keeps(self, R, xa):
        a = single_atom(R)
        if a is None:
            return False
        if a == xa:
            return True
        t = T.atom(a)
        if t[0] != 'ite':
            return False
        if xa in formula_deps(t[1]) or self.vid in formula_deps(t[1]):
            return False
        for q in (t[2], t[3]):
            if xa in poly_deps(q) and not self._keeps(q, xa):
                return False
        return True

    def general(self, l, upto):
        """the layer accumulated over all iterations t in [lo, upto)"""
        rl = self.res_layer(l)
        val = self.layer_value(l)
        if isinstance(val, (Poly, tuple)):
            self.nohav(val)
        if not isinstance(val, Poly) and not isinstance(val, tuple):
            raise Unsupported('layer value')
        t = fresh('t')
        ren = {v: fresh('w') for v, _, _ in l.vars}
        mp = dict(ren)
        mp[self.vid] = t
        c = self.ctx0
        return Layer(l.kind, ((single_atom(t), self.lo, upto),) +
                     tuple((single_atom(ren[v]), subst(lo, mp, c), subst(hi, mp, c)) for v, lo, hi in rl.vars),
                     [subst(d, mp, c) for d in rl.digits], fsubst(rl.guard, mp, c), vsubst(val, mp, c))

    def layer_value(self, l):
        """value written by layer l in iteration v as a closed term; a loop that
        computes array cells from cells it wrote earlier needs a candidate
        invariant from the contract, which is then proved by induction"""
        if id(l) in self.hinted:
            return self.hinted[id(l)]
        b = self.layer_block(l)
        hints = (self.M.recur.get(b.name) or self.M.recur.get(b.name.split('#')[0], ())) if b is not None else ()
        old, had = self.ctxv, None
        try:
            if l.vars or l.guard != TRUE:
                # the cells are written within the layer's own ranges and under its guard
                rl = self.res_layer(l)
                fs = [f_and(le(lo, Poly.atom(w)), lt(Poly.atom(w), hi)) for w, lo, hi in rl.vars] + ([rl.guard] if rl.guard != TRUE else [])
                had = set(self.memo)
                self.ctxv = old.extend(*fs)
            r = self.resolve(l.value)
            return self.hinted.get(id(l), r)
        except Unsupported:
            if not hints:
                raise
        finally:
            self.ctxv = old
            if had is not None:
                for k in [k for k in self.memo if k not in had]:
                    del self.memo[k]
        from .equal import check_equal
        rl = self.res_layer(l)
        rngs = [f_and(le(lo, Poly.atom(w)), lt(Poly.atom(w), hi)) for w, lo, hi in rl.vars]
        c = self.ctxv.extend(*(rngs + ([rl.guard] if rl.guard != TRUE else [])))
        why = None
        for h in hints:
            memo, busy = dict(self.memo), set(self.busy)
            self.busy = {x for x in self.busy if not (isinstance(x, tuple) and x[0] in ('arrat', 'kind'))}
            hv = h(c, *rl.digits)
            if l.kind == 'A':
                hv = hv - self.M.read_layers(b, self.M.layers(self.st, b), tuple(rl.digits), c)
            self.hinted[id(l)] = hv
            self.keep.append(l)
            try:
                got = self.resolve(l.value)
                want = self.hinted[id(l)]
                if self.M.dry:
                    # exploratory run inside an enclosing loop: the contents at
                    # loop entry are still unknown there (the recorded run
                    # below checks the real ones)
                    mp = {}
                    for p in (got, want):
                        for a in poly_deps(p):
                            t = T.atom(a)
                            if t[0] == 'sel' and t[1] in self.M.havocs:
                                mp[a] = sel(self.M.havocs[t[1]].name, t[2], t[3])
                    if mp:
                        got, want = subst(got, mp, c), subst(want, mp, c)
                r = check_equal(got, want, c)
                if r:
                    if not self.M.dry:
                        self.M.obls.append(Obligation('loop-inv', 'recurrence for array %s: induction step' % b.name, 'discharged', self.M.where))
                    self.busy = busy
                    return self.hinted[id(l)]
                why = r.diff
            except Unsupported as e:
                why = e
            del self.hinted[id(l)]
            self.memo, self.busy = memo, busy
        raise Unsupported('recurrence through array %s: no candidate invariant is inductive (%s)' % (b.name, str(why)[:600]))

    def layer_block(self, l):
        for b, ls in self.arr_layers.items():
            if any(x is l for x in ls):
                return b
        return None

    def arr_final_layers(self, b, upto, ctx, empty_possible=True):
        """layers describing array b after iterations lo..upto-1"""
        M = self.M
        ls, top = self.new_layers(b)
        sc = self.scratch(b)
        base = M.layers(self.st, b)
        if not sc and self.arr_kind(b) in ('disjoint', 'acc'):
            return base + tuple(self.general(l, upto) for l in ls)
        if sc:
            fg = [fresh('g') for _ in b.shape]
            return (Layer('L', [(single_atom(g), ZERO, n) for g, n in zip(fg, b.shape)], fg, TRUE, fn(self.hav(b), upto, *fg)),)
        R, X, gv = self.carry_fn(b)
        fresh_g = [fresh('g') for _ in gv]
        bv = M.read_layers(b, base, tuple(fresh_g), self.ctx0)
        mp = {single_atom(g): f for g, f in zip(gv, fresh_g)}
        mp[self.vid] = upto - 1
        mp[single_atom(X)] = bv
        val = subst(R, mp, ctx)
        if not ctx.prove(lt(self.lo, upto)):
            val = ite(lt(self.lo, upto), val, bv)
        # keep a W layer with the write region when the bottom is symbolic
        return (Layer('L', [(single_atom(g), ZERO, n) for g, n in zip(fresh_g, b.shape)], fresh_g, TRUE, val),)

    # ---- states
    def state_at(self, v):
        """the invariant as a state at the start of iteration v"""
        M = self.M
        s = self.st.copy()
        for key in self.sy:
            val = self.at(key)
            if key[0] == 'e':
                s.env[key[1]] = val
            else:
                s.heap[key[1]] = val
        for b in self.ma:
            s.arrays[b] = self.arr_final_layers(b, self.v, self.ctxv)
        return s

    def check_preserved(self, s2, rng):
        """the body maps invariant(v) to invariant(v+1): checked for scalars and,
        for carried arrays, by re-execution (recorded as one obligation each)"""
        M = self.M
        if M.dry:
            return
        from .equal import check_equal
        c = M.ctx(self.st, *rng)
        for key in self.sy:
            val = s2.env[key[1]] if key[0] == 'e' else s2.heap.get(key[1], None)
            if self.kind[key][0] == 'opaque':
                continue
            if isinstance(val, Poly) and isinstance(self.memo[key], Poly):
                want = subst(self.memo[key], {self.vid: self.v + 1}, c)
                if self.kind[key][0] == 'acc':
                    # x + d(v): preservation is the definition of the prefix sum
                    want = self.memo[key] + self.kind[key][1]
                r = check_equal(val, want, c, norm=split_last(self.v) if self.kind[key][0] == 'geo' else None)
                M.obls.append(Obligation('loop-inv', 'inferred invariant for %s is preserved' % (key[1],),
                                         'discharged' if r.ok else 'unknown', M.where, None if r.ok else {'diff': str(r.diff)[:500]}))
                if not r.ok:
                    raise Unsupported('inferred invariant for %s not preserved' % (key[1],))
        for b in self.ma:
            if self.scratch(b):
                continue
            # arbitrary cell
            gv = [fresh('k') for _ in b.shape]
            cg = c.extend(*[f_and(ge(g, 0), lt(g, n)) for g, n in zip(gv, b.shape)])
            got = M.read_layers(b, s2.arrays.get(b, ()), tuple(gv), cg)
            nxt = self.arr_final_layers(b, self.v + 1, cg)
            want = M.read_layers(b, nxt, tuple(gv), cg)
            if isinstance(got, Poly):
                r = check_equal(got, want, cg, norm=split_last(self.v))
                M.obls.append(Obligation('loop-inv', 'inferred invariant for array %s is preserved' % b.name,
                                         'discharged' if r.ok else 'unknown', M.where, None if r.ok else {'diff': str(r.diff)[:500]}))
                if not r.ok:
                    raise Unsupported('inferred invariant for array %s not preserved: %s' % (b.name, str(r.diff)[:300]))

    def state_after(self, arrays=True):
        M = self.M
        s = self.st.copy()
        c = self.ctx0
        hi, lo = self.hi, self.lo
        nonempty = c.prove(lt(lo, hi))
        for key in self.sy:
            k = self.kind[key]
            init = self.entry(key)
            if k[0] == 'carry':
                val = vsubst(k[1], {self.vid: hi - 1}, c)
                if not nonempty:
                    val = vite(lt(lo, hi), val, init)
            elif k[0] == 'acc':
                t = fresh('t')
                val = P(init) + mksum([(single_atom(t), lo, hi)], [], subst(k[1], {self.vid: t}, c), c)
            elif k[0] == 'geo':
                val = subst(self.memo[key], {self.vid: hi}, c)
                if not c.prove(le(lo, hi)):
                    val = ite(lt(lo, hi), val, init)
            elif k[0] == 'opaque':
                val = vite(lt(lo, hi), k[1], init)
            else:
                val = Poison('loop')
            if isinstance(val, Poly):
                val = c.simp(val)
            if key[0] == 'e':
                s.env[key[1]] = val
            else:
                s.heap[key[1]] = val
        if arrays:
            for b in self.ma:
                s.arrays[b] = self.arr_final_layers(b, hi, c)
        return s


def powi(x, n, ctx):
    if n.is_const():
        k = n.const_val()
        if isinstance(k, int) and 0 <= k <= 16:
            return x ** k
    if x == ONE:
        return ONE
    return Poly.atom(intern_atom(('fn', 'powi', (x, n), 'r')))


def split_last(v):
    """normaliser: SUM_{t=lo}^{v} e  ->  SUM_{t=lo}^{v-1} e + e(v) (definition of
    a finite sum; used only to check preservation of accumulators)"""
    def norm(d, ctx):
        for _ in range(30):
            mp = {}
            for a in d.atoms():
                t = T.atom(a)
                if t[0] != 'sum':
                    continue
                bounds, guards, body = t[1:]
                base = t_sum_base(t)
                for n, (lo, hi) in enumerate(bounds):
                    if single_atom(v) in hi.free() and hi == v + 1:
                        others = [i for i in range(len(bounds)) if i != n]
                        bid = bvar_id(base + n)
                        if any(bid in bounds[i][0].free() or bid in bounds[i][1].free() for i in others):
                            continue
                        fv = {i: fresh('b') for i in range(len(bounds))}
                        ren = {bvar_id(base + i): fv[i] for i in range(len(bounds))}
                        bb = {i: (subst(bounds[i][0], ren), subst(bounds[i][1], ren)) for i in range(len(bounds))}
                        gg = [fsubst(g, ren) for g in guards]
                        bd = subst(body, ren)
                        first = mksum([(single_atom(fv[i]), bb[i][0], v if i == n else bb[i][1]) for i in range(len(bounds))], gg, bd, ctx)
                        m2 = {single_atom(fv[n]): v}
                        last = mksum([(single_atom(fv[i]), subst(bb[i][0], m2), subst(bb[i][1], m2)) for i in others],
                                     [fsubst(g, m2) for g in gg], subst(bd, m2), ctx)
                        mp[a] = first + last
                        break
                if mp:
                    break
            if not mp:
                return d
            d = subst(d, mp, ctx)
        return d
    return norm


def split_first(top):
    """normaliser: SUM_{t=0}^{top-1} e(t)  ->  e(0) + SUM_{t=0}^{top-2} e(t+1) (definition of a finite sum, top >= 1)"""
    def norm(d, ctx):
        for _ in range(30):
            mp = {}
            for a in d.atoms():
                t = T.atom(a)
                if t[0] != 'sum':
                    continue
                bounds, guards, body = t[1:]
                base = t_sum_base(t)
                for n, (lo, hi) in enumerate(bounds):
                    if hi == top and lo.is_zero():
                        others = [i for i in range(len(bounds)) if i != n]
                        bid = bvar_id(base + n)
                        if any(bid in bounds[i][0].free() or bid in bounds[i][1].free() for i in others):
                            continue
                        fv = {i: fresh('b') for i in range(len(bounds))}
                        ren = {bvar_id(base + i): fv[i] for i in range(len(bounds))}
                        bb = {i: (subst(bounds[i][0], ren), subst(bounds[i][1], ren)) for i in range(len(bounds))}
                        gg = [fsubst(g, ren) for g in guards]
                        bd = subst(body, ren)
                        m1 = {single_atom(fv[n]): fv[n] + 1}
                        first = mksum([(single_atom(fv[i]), ZERO if i == n else subst(bb[i][0], m1), top - 1 if i == n else subst(bb[i][1], m1)) for i in range(len(bounds))], [fsubst(g, m1) for g in gg], subst(bd, m1), ctx)
                        m2 = {single_atom(fv[n]): ZERO}
                        last = mksum([(single_atom(fv[i]), subst(bb[i][0], m2), subst(bb[i][1], m2)) for i in others],
                                     [fsubst(g, m2) for g in gg], subst(bd, m2), ctx)
                        mp[a] = first + last
                        break
                if mp:
                    break
            if not mp:
                return d
            d = subst(d, mp, ctx)
        return d
    return norm


def bool_subst(p, bs, val):
    """replace boolean symbol bs (formula) by formula val inside p"""
    from .equal import map_lit, frepl
    if isinstance(p, Poly):
        return map_lit(p, bs, val, {})
    return frepl(p, bs, val, {})
