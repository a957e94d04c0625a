"""Contracts: one object per function under contract.  The same specification
is used symbolically (every element of every reachable array, for all sizes and
contents) and numerically (to replay counterexamples on the compiled code and
as an executable sanity check of the contract itself)."""
import math
import random
import time
from fractions import Fraction
from .terms import *
from . import terms as T
from . import smt
from .smt import Ctx, model_value
from .heap import Block, ArrRef, State, Unsupported, Poison, Layer, VecExpr
from .equal import check_equal
from .cexec import CExec, Obj, ObjVec, RefVal, StatusVal, TupleVal, Aborted, StrVal
from .terms import TRUE, FALSE
from . import cfront


# ----------------------------------------------------------------- algebras
class SymE:
    num = False
    pi = P(math.pi)
    sqrt2 = P(math.sqrt(2))

    def __init__(self, ctx=None):
        self.ctx = ctx

    eq = staticmethod(lambda a, b: eq(P(a), P(b)))
    ne = staticmethod(lambda a, b: ne(P(a), P(b)))
    and_ = staticmethod(lambda *a: f_and(*[_f(x) for x in a]))
    or_ = staticmethod(lambda *a: f_or(*[_f(x) for x in a]))
    not_ = staticmethod(lambda a: fnot(_f(a)))
    implies = staticmethod(lambda a, b: implies(_f(a), _f(b)))

    def ite(self, c, a, b):
        return ite(_f(c), P(a), P(b))

    def sum(self, lo, hi, f, guard=None):
        v = fresh('s')
        return mksum([(single_atom(v), P(lo), P(hi))], [] if guard is None else [_f(guard(v))], P(f(v)), self.ctx)

    sqrt = staticmethod(lambda x: sqrt_(P(x)))
    cos = staticmethod(lambda x: cos_(P(x)))
    sin = staticmethod(lambda x: sin_(P(x)))
    abs = staticmethod(lambda x: absr(P(x)))
    idiv = staticmethod(lambda a, b: idiv(P(a), P(b)))
    imod = staticmethod(lambda a, b: imod(P(a), P(b)))
    pow = staticmethod(lambda a, n: pow_(P(a), P(n)))

    def max(self, a, b):
        return ite(le(P(a), P(b)), P(b), P(a))

    def min(self, a, b):
        return ite(le(P(a), P(b)), P(a), P(b))

    def fn(self, name, *a):
        return fn(name, *[P(x) for x in a])

    frac = staticmethod(lambda a, b: P(Fraction(a, b)))
    isfinite = staticmethod(lambda x: ('pred', 'isfinite', (P(x),)))


def _f(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return x


class NumE:
    num = True
    pi = math.pi
    sqrt2 = math.sqrt(2)
    eq = staticmethod(lambda a, b: a == b)
    ne = staticmethod(lambda a, b: a != b)
    and_ = staticmethod(lambda *a: all(a))
    or_ = staticmethod(lambda *a: any(a))
    not_ = staticmethod(lambda a: not a)
    implies = staticmethod(lambda a, b: (not a) or b)

    def ite(self, c, a, b):
        return a if c else b

    def sum(self, lo, hi, f, guard=None):
        return math.fsum(f(i) for i in range(int(lo), int(hi)) if guard is None or guard(i)) if True else 0

    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else float('nan'))
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    abs = staticmethod(abs)
    idiv = staticmethod(lambda a, b: int(a / b) if False else (abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1))
    imod = staticmethod(lambda a, b: a - b * ((abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1)))
    pow = staticmethod(lambda a, n: a ** n)
    max = staticmethod(max)
    min = staticmethod(min)
    frac = staticmethod(lambda a, b: a / b)
    isfinite = staticmethod(math.isfinite)
    fns = {}

    def fn(self, name, *a):
        return {'tanh': math.tanh, 'exp': math.exp, 'log': math.log, 'atan': math.atan, 'tan': math.tan, **self.fns}[name](*a)


class NS:
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]

    def __setitem__(self, k, x):
        self.__dict__[k] = x


def lazy_branch(E, c, a, b):
    """ite with thunks (numeric side evaluates only the taken branch)"""
    if E.num:
        return a() if c else b()
    return E.ite(c, a(), b())


class Contract:
    """declarative contract; see contracts/*.py for instances"""

    def __init__(self, name, src, func, cls=None, nparams=None, **kw):
        self.name, self.src, self.func, self.cls, self.nparams = name, src, func, cls, nparams
        self.is_text = kw.pop('is_text', False)
        self.filt = kw.pop('filt', 'vmecpp')
        self.ints = {}      # name -> (lo, hi) sampling range
        self.bools = []
        self.reals = {}     # name -> (lo, hi)
        self.pre = lambda E, v: []
        self.arrays = {}    # name -> shape fn(v)
        self.sorts = {}
        self.array_facts = {}   # array -> fn(E, v, old, *digits): precondition on every element (instantiated by the solver)
        self.rng = {}       # array -> (lo,hi) sampling range; default +-(0.3..1.7)
        self.post = {}      # array -> fn(E, v, old, *digits)
        self.ret = None     # fn(E, v, old) for a scalar result
        self.retnames = []
        self.outs = {}      # scalar output -> (getter(M, st, retval), fn(E,v,old))
        self.args = None    # fn(K, M) -> (args, this)
        self.glue = None    # C++ text
        self.gen = None     # fn(rng, v) adjusts sampled ints
        self.fill = None    # fn(rng, v, arrays) adjusts sampled arrays
        self.local_shapes = {}
        self.split = None
        self.contracts = {}
        self.field_hook = None
        self.cuts = {}      # intermediate assertions on arrays
        self.cut_log = []
        self.free = ()      # arrays without postcondition (scratch)
        self.region = {}    # array -> fn(E,v,*digits) cond where post applies
        self.norm = None
        self.rtol = 1e-9
        self.cases = 12
        self.check_abort = True
        self.post_extra = None  # fn(K, M, st, val, E, v, old) -> list of (name, formula)
        self.notes = []
        self.dynamic = None
        self.dyn = {}       # output container -> (getter -> ArrRef, shape fn(E,v), spec fn(E,v,old,*digits))
        self.rec = {}       # recursive spec functions: name -> def(E, v, old, *args)
        self.recur = {}     # array -> [fn(E, v, old, *digits)]: candidate invariants
                            # for loops writing that array from its own earlier cells
        self.lemmas = None      # fn(K) -> list of (name, bool, info)
        for k, x in kw.items():
            setattr(self, k, x)

    # ---- symbolic side
    def symbols(self):
        d = {n: sym(n, 'i') for n in self.ints}
        d.update({n: ('bs', n) for n in self.bools})
        d.update({n: sym(n, 'r') for n in self.reals})
        return NS(d)

    def R(self, name, E, v, old, *args):
        """application of a recursively defined specification function"""
        if E.num:
            key = (name, args)
            memo = old.__dict__.setdefault('memo', {}) if hasattr(old, '__dict__') else {}
            if key not in memo:
                memo[key] = self.rec[name](E, v, old, *args)
            return memo[key]
        return fn('rec_' + name, *[P(a) for a in args])

    def setup_rec(self, M=None):
        from . import equal
        equal.REC.clear()
        for n, d in self.rec.items():
            equal.REC['rec_' + n] = (lambda d: lambda ctx, *a: d(SymE(ctx), self.v, self.old, *a))(d)
        if M is not None:
            M.recur = {a: [(lambda h: lambda ctx, *g: P(h(SymE(ctx), self.v, self.old, *g)))(h) for h in hs] for a, hs in self.recur.items()}

    def block(self, name):
        b = self._blocks.get(name)
        if b is None:
            b = self._blocks[name] = Block(name, [P(x) for x in self.arrays[name](self.v)], self.sorts.get(name, 'r'))
        return b

    def ref(self, name):
        b = self.block(name)
        return ArrRef(b, (), ZERO, b.total(), self.matdims(name))

    def matdims(self, name):
        m = getattr(self, 'mats', {})
        if name in m:
            return tuple(P(x) for x in m[name](self.v))
        return None

    def symbolic(self, tu, log=None):
        """returns Result"""
        t0 = time.time()
        self._blocks = {}
        self.v = v = self.symbols()
        E = SymE()
        smt.set_axioms({a: (lambda f: lambda *d: _f(f(SymE(), v, self.old, *d)))(f) for a, f in self.array_facts.items()})
        pre = [_f(x) for x in self.pre(E, v)]
        res = Result(self.name)
        res.pre = pre
        c0 = Ctx(tuple(pre))
        r, m = c0.check([])
        if r != 'sat':
            res.status = 'unknown'
            res.why = 'precondition not satisfiable (%s)' % r
            return res
        res.vacuity = 'precondition satisfiable'
        try:
            f = tu.find(self.func, self.cls, self.nparams, getattr(self, 'pred', None))
            f = f[0] if len(f) == 1 else None
        except Exception as e:
            f = None
        if f is None:
            res.status = 'unsupported'
            res.why = 'function %s not found in %s' % (self.func, self.src if not self.is_text else 'translation unit')
            return res
        try:
            M = CExec(tu, pre, contracts=self.contracts, field_hook=self.field_hook, local_shapes=self.local_shapes,
                      check_abort=self.check_abort)
            M.K = self
            self.M = M
            self.setup_rec(M)
            if self.split is not None:
                M.split_dims = [(P(a), P(b)) for a, b in self.split(self.v)]
            a = self.args(self, M)
            args, this = a if isinstance(a, tuple) else (a, None)
            st0 = State()
            rets = M.run(f, args, this, st0)
            res.rets = len(rets)
            for st, val in rets:
                self.check_post(M, st, val, res)
            res.obls.extend(M.obls)
            res.inlined = sorted(str(x) for x in M.inlined)
            res.called_contracts = sorted(M.called_contracts)
            res.lib = sorted(M.lib_used)
        except (Unsupported, Aborted) as e:
            res.status = 'unsupported'
            res.why = '%s (%s)' % (e, getattr(self, 'M', None) and self.M.where)
            if getattr(self, 'M', None):
                res.obls.extend(self.M.obls)
        except RecursionError as e:
            if getattr(self, "debug", False):
                raise
            res.status = 'unsupported'
            res.why = 'recursion limit'
        except Exception as e:
            import traceback
            res.status = 'unsupported'
            res.why = 'engine error: %s' % traceback.format_exc()[-1500:]
        if self.lemmas and res.status is None:
            for nm, ok, info in self.lemmas(self):
                res.add('lemma', nm, 'discharged' if ok else 'unknown', info)
        res.finish(time.time() - t0)
        return res

    def old(self, name, *digits):
        b = self.block(name)
        d = tuple(P(x) for x in digits)
        if len(d) != len(b.shape):
            raise ValueError('%s takes %d indices' % (name, len(b.shape)))
        if b.sort == 'b':
            return ('bsel', name, d)
        return sel(name, d, b.sort)

    def check_post(self, M, st, val, res):
        v = self.v
        for name, _ in self.cut_log:
            res.add('assert', '%s (intermediate assertion)' % name, 'discharged', None)
        for name in self.arrays:
            if name in self.free:
                continue
            b = self.block(name)
            ls = M.layers(st, b)
            spec = self.post.get(name)
            if spec is not None and ls == (name + '#cut',):
                res.add('post', '%s (at the intermediate assertion)' % name, 'discharged', None)
                continue
            if spec is None and not ls:
                res.add('frame', '%s unchanged' % name, 'discharged', None)
                continue
            ds = [fresh('d') for _ in b.shape]
            rg = []
            for d, n in zip(ds, b.shape):
                rg += [le(ZERO, d), lt(d, n)]
            if name in self.region:
                rg.append(_f(self.region[name](SymE(), v, *ds)))
            c = M.ctx(st, *rg)
            if c.inconsistent():
                res.add('post', '%s (empty)' % name, 'discharged', None)
                continue
            got = M.read_layers(b, ls, tuple(ds), c)
            if spec is None:
                exp = self.old(name, *ds)
            else:
                exp = spec(SymE(c), v, self.old, *ds)
            kind = 'post' if spec else 'frame'
            self.check_value(kind, '%s[%s]' % (name, ','.join(map(str, ds))), got, exp, c, res, dict(zip(map(str, ds), ds)))
        if self.ret is not None:
            c = M.ctx(st)
            self.check_value('post', 'result', self.unret(val), self.ret(SymE(c), v, self.old), c, res)
        for nm, (getter, spec) in self.outs.items():
            c = M.ctx(st)
            self.check_value('post', nm, getter(self, M, st, val), spec(SymE(c), v, self.old), c, res)
        for nm, (getter, shp, spec) in self.dyn.items():
            c = M.ctx(st)
            ref = getter(self, M, st, val)
            if isinstance(ref, VecExpr):
                ref = M.materialize(st, ref)
            if not isinstance(ref, ArrRef):
                res.add('post', nm, 'unknown', {'why': 'no array: %r' % (ref,)})
                continue
            shape = [P(x) for x in shp(SymE(c), v)]
            tot = ONE
            for x in shape:
                tot = tot * x
            ln = M.length(st, ref)
            self.check_value('post', 'size of ' + nm, ln, tot, c, res)
            ds = [fresh('d') for _ in shape]
            rg = []
            for d, n in zip(ds, shape):
                rg += [le(ZERO, d), lt(d, n)]
            c = M.ctx(st, *rg)
            if c.inconsistent():
                res.add('post', nm + ' (empty)', 'discharged', None)
                continue
            st2 = st.copy()
            st2.pc = st.pc + tuple(rg)
            lin = ZERO
            for d, n in zip(ds, shape):
                lin = lin * n + d
            try:
                got = M.read(st2, ref, lin)
            except Unsupported as e:
                res.add('post', nm, 'unknown', {'why': str(e)})
                continue
            self.check_value('post', '%s[%s]' % (nm, ','.join(map(str, ds))), got, spec(SymE(c), v, self.old, *ds), c, res)
        if self.post_extra:
            for nm, f in self.post_extra(self, M, st, val, SymE(M.ctx(st)), v, self.old):
                c = M.ctx(st)
                if c.prove(f):
                    res.add('post', nm, 'discharged', None)
                else:
                    r, m = c.check([fnot(f)])
                    res.add('post', nm, 'discharged' if r == 'unsat' else ('refuted' if r == 'sat' else 'unknown'),
                            {'ctx': c, 'goal': f, 'model': str(m)[:1500]})

    def unret(self, val):
        return val

    def check_value(self, kind, nm, got, exp, c, res, info=None):
        if exp is None:
            return      # left to the concrete runs (bounded); the contract's notes say so
        if isinstance(got, Poison) or got is None:
            res.add(kind, nm, 'unknown', {'why': 'no value: %r' % (got,)})
            return
        if isinstance(got, tuple) or isinstance(exp, tuple):
            if isinstance(got, Poly):
                got = ne(got, ZERO)
            if isinstance(exp, Poly):
                exp = ne(exp, ZERO)
            if c.prove(iff(_f(got), _f(exp))):
                res.add(kind, nm, 'discharged', None)
            else:
                res.add(kind, nm, 'refuted', {'ctx': c, 'goal': iff(_f(got), _f(exp)), 'got': f_str(got), 'exp': f_str(_f(exp))})
            return
        got, exp = P(got), P(exp)
        r = check_equal(got, exp, c, norm=self.norm)
        if r:
            res.add(kind, nm, 'discharged', None)
        else:
            res.add(kind, nm, 'refuted' if r.reason == 'nonzero difference' else 'unknown',
                    {'ctx': r.ctx, 'diff': str(r.diff)[:1500], 'why': r.reason, 'got': str(got)[:1500], 'exp': str(exp)[:1500]})

    # ---- numeric side
    def sample(self, rng, override=None):
        for _ in range(2000):
            d = {n: rng.randint(lo, hi) for n, (lo, hi) in self.ints.items()}
            d.update({n: bool(rng.getrandbits(1)) for n in self.bools})
            for n, (lo, hi) in self.reals.items():
                d[n] = rng.uniform(lo, hi)
            if override:
                d.update({k: x for k, x in override.items() if k in d})
            v = NS(d)
            if self.gen and not override:
                self.gen(rng, v)
            try:
                ok = all(bool(x) for x in self.pre(NumE(), v))
            except Exception:
                ok = False
            if ok:
                return v
            if override:
                return None
        return None

    def make_case(self, rng, override=None, elems=None):
        v = self.sample(rng, override)
        if v is None:
            return None
        arr = {}
        for name, shp in self.arrays.items():
            s = tuple(int(x) for x in shp(v))
            tot = 1
            for x in s:
                tot *= max(0, x)
            if tot > 2000000:
                return None
            so = self.sorts.get(name, 'r')
            lo, hi = self.rng.get(name, (None, None))
            if so == 'r':
                if lo is None:
                    vals = [rng.choice((-1, 1)) * rng.uniform(0.3, 1.7) for _ in range(tot)]
                else:
                    vals = [rng.uniform(lo, hi) for _ in range(tot)]
            elif so == 'b':
                vals = [rng.getrandbits(1) for _ in range(tot)]
            else:
                lo, hi = (0, 5) if lo is None else (lo, hi)
                vals = [rng.randint(lo, hi) for _ in range(tot)]
            arr[name] = [s, vals]
        if self.fill:
            self.fill(rng, v, arr)
        for (name, dig), x in (elems or {}).items():
            if name in arr:
                s, vals = arr[name]
                if len(dig) == len(s) and all(0 <= a < b for a, b in zip(dig, s)):
                    vals[flat(dig, s)] = x
        return {'v': v, 'arr': arr}

    def expected(self, case):
        v, arr = case['v'], case['arr']
        E = NumE()

        def old(name, *dig):
            s, vals = arr[name]
            for a, b in zip(dig, s):
                if not 0 <= a < b:
                    raise IndexError('%s%r outside %r' % (name, dig, s))
            return vals[flat(dig, s)]
        out = {}
        for name, (s, vals) in arr.items():
            if name in self.free:
                continue
            spec = self.post.get(name)
            if spec is None:
                out[name] = list(vals)
            else:
                reg = self.region.get(name)
                r = []
                for dig in digits_of(s):
                    if reg is not None and not reg(E, v, *dig):
                        r.append(None)
                    else:
                        r.append(spec(E, v, old, *dig))
                out[name] = r
        if self.ret is not None:
            out['ret'] = [self.ret(E, v, old)]
        for nm, (g, spec) in self.outs.items():
            out[nm] = [spec(E, v, old)]
        for nm, (g, shp, spec) in self.dyn.items():
            s = tuple(int(x) for x in shp(E, v))
            out[nm] = [spec(E, v, old, *dig) for dig in digits_of(s)]
        if self.dynamic:
            self.dynamic(E, v, old, out)
        return out


def flat(dig, s):
    r = 0
    for a, b in zip(dig, s):
        r = r * b + a
    return r


def digits_of(s):
    if not s:
        yield ()
        return
    import itertools
    yield from itertools.product(*[range(max(0, x)) for x in s])


class Obl:
    __slots__ = ('kind', 'desc', 'status', 'where', 'info')

    def __init__(self, kind, desc, status, where, info):
        self.kind, self.desc, self.status, self.where, self.info = kind, desc, status, where, info


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = None
        self.why = ''
        self.rets = 0
        self.inlined, self.called_contracts, self.lib = [], [], []
        self.vacuity = ''
        self.wall = 0

    def add(self, kind, desc, status, info):
        self.obls.append(Obl(kind, desc, status, '', info))

    def finish(self, wall):
        self.wall = wall
        bad = [o for o in self.obls if o.status != 'discharged']
        if self.status is None:
            if not self.obls:
                self.status, self.why = 'unknown', 'no obligations generated'
            elif not bad:
                self.status = 'proved'
            elif any(o.status == 'refuted' for o in bad):
                self.status = 'refuted'
                self.why = '; '.join('%s %s' % (o.kind, o.desc) for o in bad)[:600]
            else:
                self.status = 'unknown'
                self.why = '; '.join('%s %s' % (o.kind, o.desc) for o in bad)[:600]

    def seeds(self, K, limit=6):
        """concrete starting points (ints, booleans, array elements) from the
        contexts of undischarged obligations"""
        out = []
        for o in self.obls:
            if o.status == 'discharged' or not o.info or 'ctx' not in o.info:
                continue
            c = o.info['ctx']
            if c is None:
                continue
            g = [fnot(o.info['goal'])] if 'goal' in o.info else []
            try:
                out.extend(concretise(K, c, g))
            except Exception as e:
                pass
            if len(out) >= limit:
                break
        return out[:limit]


def concretise(K, c, extra):
    """small model of a context -> list of (ints override, element values)"""
    res = []
    small = []
    for n in K.ints:
        small += [le(sym(n, 'i'), P(40)), le(P(-40), sym(n, 'i'))]
    for hint in (small, []):
        r, m = c.check(list(extra) + hint, timeout=3000)
        if r == 'sat' and m is not None:
            ov = {}
            for n in K.ints:
                ov[n] = int(model_value(m, sym(n, 'i')))
            for n in K.bools:
                import z3
                ov[n] = z3.is_true(m.eval(smt.zform(('bs', n)), model_completion=True))
            deps = set()
            lits = list(c.asm) + list(extra)
            for f in lits:
                deps |= set(formula_deps(f))
            for n in K.reals:
                if single_atom(sym(n, 'r')) in deps:
                    x = model_value(m, sym(n, 'r'))
                    if x is not None:
                        ov[n] = float(x)
            elems = {}
            for a in deps:
                t = T.atom(a)
                if t[0] == 'sel' and t[1] in K.arrays:
                    try:
                        dig = tuple(int(model_value(m, d)) for d in t[2])
                        x = model_value(m, Poly.atom(a))
                        if x is not None:
                            elems[(t[1], dig)] = x
                    except Exception:
                        pass
            res.append((ov, elems))
            break
    return res


def flatsig(K, ret=None, ns='vmecpp'):
    """args and C++ glue from K.sig: list of parameter names"""
    def args(K, M):
        out = []
        for n in K.sig:
            out.append(K.ref(n) if n in K.arrays else K.v[n])
        return out
    K.args = args
    g = []
    for n in K.sig:
        if n in K.arrays:
            g.append('C.p("%s")' % n)
        elif n in K.reals:
            g.append('C.r("%s")' % n)
        elif n in K.bools:
            g.append('C.b("%s")' % n)
        else:
            g.append('C.i("%s")' % n)
    K.glue = '%s::%s(%s);' % (ns, K.func, ', '.join(g))
    return K


def field(name, objname='this'):
    """getter of a field of the receiver after the call"""
    def g(K, M, st, val):
        return M.get_field(st, getattr(K, objname + '_obj'), name)
    return g


def prove_lemma(name, pre, goal, timeout=None):
    c = Ctx(tuple(_f(x) for x in pre))
    if c.inconsistent():
        return (name, False, {'why': 'hypotheses contradictory'})
    return (name, c.prove(_f(goal)), None)


def eq_lemma(name, pre, a, b, norm=None):
    c = Ctx(tuple(_f(x) for x in pre))
    r = check_equal(P(a), P(b), c, norm=norm)
    return (name, bool(r), {'diff': str(r.diff)[:800]} if not r else None)


def facets(K, groups):
    """the same contract split into several, each watching one group of outputs (the other
    outputs are arbitrary in that proof); every run executes the whole function"""
    import copy
    out = []
    for i, g in enumerate(groups):
        q = copy.copy(K)
        q.name = '%s_%s' % (K.name, g[0] if isinstance(g[0], str) and len(groups) > 1 else i)
        q.post = {n: f for n, f in K.post.items() if n in g[1]}
        q.unwatched = tuple(n for n in K.post if n not in g[1])
        q.free = tuple(K.free) + q.unwatched
        out.append(q)
    assert sorted(n for q in out for n in q.post) == sorted(K.post)
    return out
