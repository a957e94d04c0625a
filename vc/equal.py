"""Decide equality of two Polys under a context (case splitting on ite,
integer equalities propagated by substitution, rational normal form)."""
import random
from fractions import Fraction
from .terms import *
from . import terms as T
from .smt import Ctx


class Refuted(Exception):
    pass


def solve_eqs(ctx, polys):
    """use integer equalities in ctx with a +-1 unit symbol to eliminate"""
    asm = list(ctx.asm)
    changed = True
    mp_total = []
    guard = 0
    while changed and guard < 40:
        guard += 1
        changed = False
        for f in asm:
            if f[0] == 'eq':
                p = f[1]
                cand = None
                for m, c in p.d.items():
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                        a = m[0][0]
                        t = T.atom(a)
                        if t[0] != 'sym':
                            continue
                        rest = p - Poly({m: c})
                        if a in poly_deps(rest):
                            continue
                        if cand is None or t[1].startswith('k!') or t[1] > T.atom(cand[0])[1]:
                            cand = (a, rest * (-c) if c == 1 else rest)
                if cand:
                    a, val = cand
                    mp = {a: val}
                    mp_total.append(mp)
                    asm = [fsubst(g, mp) for g in asm if g is not f]
                    asm = [g for g in asm if g != TRUE]
                    polys = [subst(q, mp) for q in polys]
                    changed = True
                    break
    c = Ctx(asm)
    c.elim = ctx.elim + tuple(mp_total)
    return c, polys


def top_ites(p):
    out = []
    for a in p.atoms():
        _collect(a, out)
    return out


def _collect(a, out):
    t = T.atom(a)
    if t[0] == 'ite':
        # split innermost conditions first
        for l in T.formula_deps(t[1]):
            if T.atom(l)[0] == 'ite':
                _collect(l, out)
        if a not in out:
            out.append(a)
    elif t[0] in ('sel', 'fn'):
        for q in t[2]:
            for b in q.atoms():
                _collect(b, out)


def reduce_poly(p):
    """clear inv atoms and sqrt powers of p == 0 (denominators assumed nonzero)"""
    for _ in range(200):
        # sqrt(x)^n
        target = None
        for m in p.d:
            for a, e in m:
                t = T.atom(a)
                if t[0] == 'fn' and t[1] == 'sqrt' and (e >= 2 or e < 0):
                    target = (a, 'sqrt')
                    break
                if t[0] == 'fn' and t[1] == 'inv':
                    target = target or (a, 'inv')
                if t[0] == 'fn' and t[1] == 'sin' and e >= 2:
                    target = target or (a, 'sin')
            if target and target[1] == 'sqrt':
                break
        if target is None:
            # clear negative exponents
            neg = {}
            for m in p.d:
                for a, e in m:
                    if e < 0:
                        neg[a] = min(neg.get(a, 0), e)
            if neg:
                f = tuple(sorted((a, -e) for a, e in neg.items()))
                p = p * Poly({f: 1})
                continue
            return p
        a, kind = target
        t = T.atom(a)
        x = t[2][0]
        if kind == 'inv':
            # choose an inv atom not nested in others' args
            k = max(dict(m).get(a, 0) for m in p.d)
            kmin = min(dict(m).get(a, 0) for m in p.d)
            out = ZERO
            for m, c in p.d.items():
                e = dict(m).get(a, 0)
                rest = tuple((b, f) for b, f in m if b != a)
                out = out + Poly({rest: c}) * (x ** (k - e))
            p = out
        elif kind == 'sqrt':
            out = ZERO
            for m, c in p.d.items():
                e = dict(m).get(a, 0)
                rest = tuple((b, f) for b, f in m if b != a)
                q, r = divmod(e, 2)
                tt = Poly({rest: c})
                if q > 0:
                    tt = tt * x ** q
                elif q < 0:
                    tt = tt * inv(x) ** (-q)
                if r:
                    tt = tt * Poly.atom(a)
                out = out + tt
            p = out
        elif kind == 'sin':
            co = Poly.atom(T.intern_atom(('fn', 'cos', (x,), 'r')))
            out = ZERO
            for m, c in p.d.items():
                e = dict(m).get(a, 0)
                rest = tuple((b, f) for b, f in m if b != a)
                tt = Poly({rest: c})
                q, r = divmod(e, 2)
                tt = tt * (ONE - co * co) ** q
                if r:
                    tt = tt * Poly.atom(a)
                out = out + tt
            p = out
        if len(p.d) > 200000:
            return p
    return p


def congruence(p, ctx):
    """merge sel/fn atoms whose arguments are provably equal"""
    deps = [a for a in poly_deps(p) if T.atom(a)[0] in ('sel', 'fn')]
    groups = {}
    for a in deps:
        t = T.atom(a)
        if t[0] == 'fn' and t[1] == 'inv':
            continue
        groups.setdefault((t[0], t[1], len(t[2])), []).append(a)
    mp = {}
    for k, g in groups.items():
        if len(g) < 2 or len(g) > 40:
            continue
        g.sort()
        reps = []
        for a in g:
            t = T.atom(a)
            for b in reps:
                u = T.atom(b)
                if all(x.is_int() and y.is_int() for x, y in zip(t[2], u[2])):
                    if T._atom_free[a] == T._atom_free[b] or True:
                        if all(x == y or ctx.prove(eq(x, y)) for x, y in zip(t[2], u[2])):
                            mp[a] = Poly.atom(b)
                            break
            else:
                reps.append(a)
    if mp:
        return subst(p, mp)
    return p


class EqResult:
    def __init__(self, ok, reason='', ctx=None, diff=None):
        self.ok = ok
        self.reason = reason
        self.ctx = ctx
        self.diff = diff

    def __bool__(self):
        return self.ok


def check_equal(a, b, ctx, depth=0, norm=None):
    """EqResult"""
    d = P(a) - P(b)
    return zero(d, ctx, 0, norm)


MAX_DEPTH = 40


def zero(d, ctx, depth=0, norm=None):
    if d.is_zero():
        return EqResult(True)
    ctx, (d,) = solve_eqs(ctx, [d])
    if FALSE in ctx.asm:
        return EqResult(True)
    if d.is_zero():
        return EqResult(True)
    # resolve / split ites
    ites = top_ites(d)
    for a in ites:
        t = T.atom(a)
        lits = fliterals(t[1])
        # pick first undecided literal
        for l in lits:
            r = ctx.decide(l)
            if r is None:
                r = decide_sums(l, ctx, norm)
            if r is None:
                if depth > MAX_DEPTH:
                    return EqResult(False, 'case-split depth', ctx, d)
                for val, lf in ((True, l), (False, fnot(l))):
                    d2 = assume_lit(d, l, val, ctx)
                    res = zero(d2, ctx.extend(lf), depth + 1, norm)
                    if not res:
                        return res
                return EqResult(True)
            else:
                d2 = assume_lit(d, l, r, ctx)
                if d2 == d:
                    return EqResult(False, 'undetermined condition', ctx, d)
                return zero(d2, ctx, depth, norm)
    if norm is not None:
        d = norm(d, ctx)
        if d.is_zero():
            return EqResult(True)
    d2 = flat_digits(d, ctx)
    if d2 != d and depth < MAX_DEPTH:
        return zero(d2, ctx, depth + 1, norm)
    d1 = congruence(d, ctx)
    r = reduce_poly(d1)
    if r.is_zero():
        return EqResult(True)
    r2 = congruence(r, ctx)
    if r2 != r:
        r = reduce_poly(r2)
        if r.is_zero():
            return EqResult(True)
    # resum with context (guards decided, closed forms)
    r3 = resum(r, ctx)
    if r3 != r:
        return zero(r3, ctx, depth + 1, norm)
    # conditions on the outer state that sit inside sums: split on them
    for l in sum_lits(r):
        v = ctx.decide(l)
        if v is not None:
            r4 = assume_lit(r, l, v, ctx)
            if r4 != r:
                return zero(r4, ctx, depth + 1, norm)
        elif depth <= MAX_DEPTH:
            for val, lf in ((True, l), (False, fnot(l))):
                res = zero(assume_lit(r, l, val, ctx), ctx.extend(lf), depth + 1, norm)
                if not res:
                    return res
            return EqResult(True)
    # sums with shifted index ranges: start every range at zero
    r3 = resum(r, ctx, True)
    if r3 != r:
        return zero(r3, ctx, depth + 1, norm)
    r3 = expand_const(r, ctx)
    if r3 != r:
        return zero(r3, ctx, depth + 1, norm)
    if depth < MAX_DEPTH:
        r3 = powers(r, ctx)
        if r3 != r:
            return zero(r3, ctx, depth + 1, norm)
        r3 = upwards(r, ctx)
        if r3 != r:
            return zero(r3, ctx, depth + 1, norm)
    r3 = adjacent(r, ctx)
    if r3 != r:
        return zero(r3, ctx, depth + 1, norm)
    # integer residue?
    if r.is_int() or all(isinstance(T.atom(a), tuple) and T._atom_sort[a] == 'i' for a in poly_deps(r)):
        if ctx.prove(eq(r, ZERO)):
            return EqResult(True)
    if ctx.inconsistent():
        return EqResult(True)
    if REC and depth < MAX_DEPTH:
        r4 = unfold(r, ctx)
        if r4 != r:
            return zero(r4, ctx, depth + 1, norm)
    # parities of non-negative indices
    if depth < MAX_DEPTH:
        for a in sorted(poly_deps(r)):
            t = T.atom(a)
            if t[0] == 'fn' and t[1] == 'imod' and t[2][1] == P(2) and any(x == a for m in r.d for x, _ in m) and ctx.prove(le(ZERO, t[2][0])):
                for val in (0, 1):
                    c2 = ctx.extend(eq(Poly.atom(a), P(val)))
                    if c2.inconsistent():
                        continue
                    res = zero(subst(r, {a: P(val)}, c2), c2, depth + 1, norm)
                    if not res:
                        return res
                return EqResult(True)
    new = implied_eqs(r, ctx)
    if new and depth < MAX_DEPTH:
        return zero(r, ctx.extend(*new), depth + 1, norm)
    return EqResult(False, 'nonzero difference', ctx, r)


def flat_digits(d, ctx):
    """(q*n + r) / n and (q*n + r) % n with 0 <= r < n"""
    from vc.heap import poly_divmod
    mp = {}
    for a in sorted(poly_deps(d)):
        t = T.atom(a)
        if t[0] == 'fn' and t[1] in ('idiv', 'imod') and not t[2][1].is_const():
            x, n = t[2]
            q, r = poly_divmod(x, n)
            if q.is_zero():
                continue
            for k in (0, -1, 1):
                r2 = r - n * k
                if ctx.prove(f_and(le(ZERO, r2), lt(r2, n))) and ctx.prove(le(ZERO, x)):
                    mp[a] = q + k if t[1] == 'idiv' else r2
                    break
    return subst(d, mp, ctx) if mp else d


def decide_sums(l, ctx, norm):
    """a comparison of sums that is the same as one already assumed, written
    differently"""
    if l[0] not in ('rle', 'lt') or not any(T.atom(a)[0] == 'sum' for a in poly_deps(l[1])):
        return None
    for f in ctx.asm:
        if f[0] in ('rle', 'lt') and f[1] is not l[1] and any(T.atom(a)[0] == 'sum' for a in poly_deps(f[1])):
            plain = Ctx([g for g in ctx.asm if g is not f])
            if (f[0] == 'lt' or l[0] == 'rle') and zero(l[1] - f[1], plain, MAX_DEPTH - 10, norm):
                return True
            if (f[0] == 'lt' or l[0] == 'lt') and zero(l[1] + f[1], plain, MAX_DEPTH - 10, norm):
                return False
    return None


def implied_eqs(r, ctx):
    """inequalities of the context that hold with equality (i <= k and k <= i)"""
    deps = poly_deps(r)
    have = {f[1] for f in ctx.asm if f[0] == 'eq'}
    for f in ctx.asm:
        if f[0] not in ('le', 'rle') or f[1] in have or -f[1] in have:
            continue
        pd = poly_deps(f[1])
        if not pd or not all(T.atom(a)[0] == 'sym' for a in pd) or not any(a in deps for a in pd):
            continue
        if f[0] == 'rle' and le(-f[1], ZERO) not in ctx.asm:
            continue
        e = eq(f[1], ZERO)
        if e[0] == 'eq' and ctx.prove(e):
            return [e]
    return []


# recursively defined specification functions of the contract being checked:
# name -> definition(ctx, *args)
REC = {}


def rec_atoms(p):
    return {x for x in poly_deps(p) if T.atom(x)[0] == 'fn' and T.atom(x)[1] in REC}


def rec_apply(a, ctx):
    t = T.atom(a)
    e = P(REC[t[1]](ctx, *t[2]))
    for mp in ctx.elim:
        e = subst(e, mp)
    return ctx.simp(e)


def rec_def(a, ctx, have=()):
    """definition of the application a; base cases reached are unfolded too"""
    e = rec_apply(a, ctx)
    _, (e,) = solve_eqs(ctx, [e])
    mp = {}
    for x in rec_atoms(e) - set(have):
        tx = T.atom(x)
        for y in have:
            ty = T.atom(y)
            if y != a and ty[1] == tx[1] and len(ty[2]) == len(tx[2]) and ctx.prove(f_and(*[eq(p, q) for p, q in zip(tx[2], ty[2])])):
                mp[x] = Poly.atom(y)
                break
        if x in mp:
            continue
        d = rec_apply(x, ctx)
        if not rec_atoms(d):
            mp[x] = d
    return subst(e, mp, ctx) if mp else e


def unfold(r, ctx):
    """replace one application F(x) by its definition when every recursive
    application in the definition already occurs in r (or none does)"""
    have = rec_atoms(r)
    ds = [(a, rec_def(a, ctx, have)) for a in sorted(have)]
    for ok in (lambda n: n and n <= have, lambda n: n & have, lambda n: not n):
        for a, e in ds:
            if ok(rec_atoms(e) - {a}):
                return subst(r, {a: e}, ctx)
    # unfold further, a few levels, if that ends in base cases or known stages
    for a, e in ds:
        for _ in range(5):
            n = rec_atoms(e) - have
            if not n:
                return subst(r, {a: e}, ctx)
            if len(n) > 6:
                break
            e = subst(e, {x: rec_def(x, ctx, have) for x in n}, ctx)
    return r


def sum_lits(p):
    out = []

    def lit(f):
        for l in fliterals(f):
            if l not in out and not any(T.atom(x)[0] == 'sym' and T.atom(x)[1].startswith('$') for x in T.formula_deps(l)):
                out.append(l)

    seen = set()

    def poly(q):
        for x in q.atoms():
            if x in seen:
                continue
            seen.add(x)
            t = T.atom(x)
            if t[0] == 'ite':
                lit(t[1])
                poly(t[2])
                poly(t[3])
            elif t[0] in ('sel', 'fn'):
                for y in t[2]:
                    poly(y)
            elif t[0] == 'sum':
                for lo, hi in t[1]:
                    poly(lo)
                    poly(hi)
                for g in t[2]:
                    for x2 in T.formula_deps(g):
                        poly(Poly.atom(x2))
                poly(t[3])

    for a in p.atoms():
        if T.atom(a)[0] == 'sum':
            poly(Poly.atom(a))
    return out


def lower_powers(p, ctx):
    """x^n -> x * x^(n-1) where n >= 1"""
    mp = {}
    for a in p.atoms():
        t = T.atom(a)
        if t[0] == 'fn' and t[1] == 'powi':
            x, n = t[2]
            if n.is_const():
                k = n.const_val()
                if isinstance(k, int) and 0 <= k <= 16:
                    mp[a] = x ** k
            elif ctx.prove(le(ONE, n)):
                mp[a] = x * Poly.atom(intern_atom(('fn', 'powi', (x, n - 1), 'r')))
            elif ctx.prove(eq(n, ZERO)):
                mp[a] = ONE
    return subst(p, mp) if mp else p


def powers(p, ctx):
    if not any(T.atom(a)[0] == 'fn' and T.atom(a)[1] == 'powi' for a in poly_deps(p)):
        return p
    q = lower_powers(p, ctx)
    if q != p:
        return q
    mp = {}
    for a in p.atoms():
        t = T.atom(a)
        if t[0] == 'sum':
            bounds, guards, body = t[1:]
            base = t_sum_base(t)
            fv = [fresh('b') for _ in bounds]
            ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
            bs = [(single_atom(v), subst(lo, ren), subst(hi, ren)) for v, (lo, hi) in zip(fv, bounds)]
            gs = [fsubst(g, ren) for g in guards]
            b = subst(body, ren)
            c = ctx.extend(*gs, *[f for (i, lo, hi) in bs for f in (le(lo, Poly.atom(i)), lt(Poly.atom(i), hi))])
            if c.inconsistent():
                mp[a] = ZERO
                continue
            b2 = lower_powers(b, c)
            if b2 != b:
                mp[a] = mksum(bs, gs, b2, ctx)
    return subst(p, mp) if mp else p


def upwards(p, ctx):
    """sums over one index: run through the range in the direction in which the first array element is read upwards"""
    mp = {}
    for a in p.atoms():
        t = T.atom(a)
        if t[0] != 'sum' or len(t[1]) != 1:
            continue
        bounds, guards, body = t[1:]
        v = fresh('b')
        ren = {bvar_id(t_sum_base(t)): v}
        i = single_atom(v)
        b = subst(body, ren)
        lo, hi = bounds[0]
        for x in sorted(b.atoms(), key=lambda x: str(T.atom(x)[1]) if T.atom(x)[0] == 'sel' else '~'):
            tx = T.atom(x)
            if tx[0] == 'sel':
                cr = [q.coeff_of(i) for q in tx[2]]
                cr = [q[0] for q in cr if q is not None and not q[0].is_zero()]
                if cr:
                    if cr[0].is_const() and cr[0].const_val() < 0:
                        m = {i: lo + hi - 1 - v}
                        mp[a] = mksum([(i, lo, hi)], [fsubst(fsubst(g, ren), m) for g in guards], subst(b, m), ctx)
                    break
    return subst(p, mp) if mp else p


def open_sum(a, fp=lambda x: x, ff=lambda x: x, ctx=None):
    t = T.atom(a)
    bounds, guards, body = t[1:]
    base = t_sum_base(t)
    fv = [fresh('b') for _ in bounds]
    ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
    return mksum([(single_atom(v), fp(subst(lo, ren)), fp(subst(hi, ren))) for v, (lo, hi) in zip(fv, bounds)],
                 [ff(fsubst(g, ren)) for g in guards], fp(subst(body, ren)), ctx)


def tighten(a, ctx):
    """a guard x <= c that is stronger than the range's end becomes the end"""
    t = T.atom(a)
    bounds, guards, body = t[1:]
    base = t_sum_base(t)
    fv = [fresh('b') for _ in bounds]
    ids = [single_atom(x) for x in fv]
    ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
    vs = [[i, subst(lo, ren), subst(hi, ren)] for i, (lo, hi) in zip(ids, bounds)]
    gs, done = [], False
    for g in guards:
        g = fsubst(g, ren)
        if g[0] == 'le':
            for w in vs:
                cr = g[1].coeff_of(w[0])
                if cr is None or not cr[0].is_const() or cr[0].const_val() not in (1, -1):
                    continue
                if cr[0].const_val() == -1:
                    c = cr[1]
                    if poly_deps(c) & set(ids) or not ctx.prove(f_and(le(w[1], c), le(c, w[2]))):
                        continue
                    rest = [fsubst(x, ren) for x in guards]
                    rest.remove(g)
                    b = subst(body, ren)
                    return mksum([tuple(x) for x in vs], rest, b, ctx) - \
                        mksum([tuple(x) if x is not w else (w[0], w[1], c) for x in vs], rest, b, ctx)
                h = ONE - cr[1]
                if poly_deps(h) & set(ids):
                    continue
                if ctx.prove(le(h, w[2])):
                    w[2] = h
                    g, done = None, True
                    break
        if g is not None:
            gs.append(g)
    return mksum([tuple(w) for w in vs], gs, subst(body, ren), ctx) if done else None


def expand_const(p, ctx):
    """write out sums over a small constant range"""
    mp = {}
    for a in p.atoms():
        t = T.atom(a)
        if t[0] != 'sum':
            continue
        bounds, guards, body = t[1:]
        pick = None
        for n, (lo, hi) in enumerate(bounds):
            if lo.is_const() and hi.is_const() and hi.const_val() - lo.const_val() <= 16:
                pick = n
                break
        if pick is None:
            continue
        base = t_sum_base(t)
        fv = [fresh('b') for _ in bounds]
        ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
        lo, hi = bounds[pick]
        me = single_atom(fv[pick])
        q = ZERO
        for k in range(int(lo.const_val()), int(hi.const_val())):
            mk = {me: P(k)}
            f = lambda x: subst(subst(x, ren), mk)
            g = lambda x: fsubst(fsubst(x, ren), mk)
            q = q + mksum([(single_atom(v), f(l), f(h)) for n, (v, (l, h)) in enumerate(zip(fv, bounds)) if n != pick],
                          [g(x) for x in guards], f(body), ctx)
        mp[a] = q
    return subst(p, mp) if mp else p


def adjacent(p, ctx):
    """sums of the same terms whose upper bounds differ by a small constant:
    split the extra terms off the longer one"""
    from itertools import permutations
    sums = [a for a in sorted(p.atoms()) if T.atom(a)[0] == 'sum']
    for a in sums:
        for b in sums:
            ta, tb = T.atom(a), T.atom(b)
            N = len(ta[1])
            if a == b or len(tb[1]) != N or N > 4 or len(ta[2]) != len(tb[2]) or len(ta[3].d) != len(tb[3].d):
                continue
            fv = [fresh('b') for _ in ta[1]]
            ba, bb = t_sum_base(ta), t_sum_base(tb)
            ren = {bvar_id(ba + q): fv[q] for q in range(N)}
            A = [(subst(lo, ren), subst(hi, ren)) for lo, hi in ta[1]]
            ga, bodya = [fsubst(g, ren) for g in ta[2]], subst(ta[3], ren)
            ids = {single_atom(v) for v in fv}
            for perm in permutations(range(N)):
                rb = {bvar_id(bb + q): fv[perm[q]] for q in range(N)}
                B = [None] * N
                for q, (lo, hi) in enumerate(tb[1]):
                    B[perm[q]] = (subst(lo, rb), subst(hi, rb))
                dif = [n for n in range(N) if A[n] != B[n]]
                if len(dif) != 1:
                    continue
                n = dif[0]
                (la, ha), (lb, hb) = A[n], B[n]
                k = ha - hb
                if la != lb or not k.is_const() or not 1 <= k.const_val() <= 3:
                    continue
                if subst(tb[3], rb) != bodya or set(fsubst(g, rb) for g in tb[2]) != set(ga):
                    continue
                if any(poly_deps(x) & ids for x in (la, ha, hb)) or not ctx.prove(le(la, hb)):
                    continue
                tot = Poly.atom(b)
                for c in range(int(k.const_val())):
                    at = {single_atom(fv[n]): hb + c}
                    vs = [(single_atom(v), subst(lo, at), subst(hi, at)) for q, (v, (lo, hi)) in enumerate(zip(fv, A)) if q != n]
                    gs = [fsubst(g, at) for g in ga]
                    f = subst(bodya, at)
                    tot = tot + (mksum(vs, gs, f, ctx) if vs else ite(f_and(*gs), f, ZERO) if gs else f)
                return subst(p, {a: tot})
    return p


def resum(p, ctx, shift=False):
    if shift:
        mp = {}
        for a in p.atoms():
            t = T.atom(a)
            if t[0] == 'sum' and any(not lo.is_zero() for lo, hi in t[1]):
                bounds, guards, body = t[1:]
                base = t_sum_base(t)
                fv = [fresh('b') for _ in bounds]
                ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
                sh = {}
                vs = []
                for v, (lo, hi) in zip(fv, bounds):
                    lo, hi = subst(subst(lo, ren), sh), subst(subst(hi, ren), sh)
                    if any(single_atom(w) in poly_deps(lo) for w in fv):
                        vs.append((single_atom(v), lo, hi))
                        continue
                    sh[single_atom(v)] = v + lo
                    vs.append((single_atom(v), ZERO, hi - lo))
                q = mksum(vs, [fsubst(fsubst(g, ren), sh) for g in guards], subst(subst(body, ren), sh), ctx)
                if q != Poly.atom(a):
                    mp[a] = q
            elif t[0] == 'sum' and t[2]:
                q = tighten(a, ctx)
                if q is not None:
                    mp[a] = q
        return subst(p, mp) if mp else p
    mp = {}
    for a in p.atoms():
        t = T.atom(a)
        if t[0] == 'sum':
            bounds, guards, body = t[1:]
            base = t_sum_base(t)
            fv = [fresh('b') for _ in bounds]
            ren = {bvar_id(base + n): fv[n] for n in range(len(bounds))}
            q = mksum([(single_atom(v), subst(lo, ren), subst(hi, ren)) for v, (lo, hi) in zip(fv, bounds)],
                      [fsubst(g, ren) for g in guards], subst(body, ren), ctx)
            if q != Poly.atom(a):
                mp[a] = q
    if mp:
        return subst(p, mp)
    return p


def assume_lit(d, l, val, ctx):
    """replace literal l by val inside all ite conditions of d"""
    return map_lit(d, l, TRUE if val else FALSE, {})


def map_lit(p, l, v, cache):
    r = cache.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.d.items():
        t = Poly({(): c})
        for a, e in m:
            q = _map_atom(a, l, v, cache)
            t = t * (q ** e if e > 0 else inv(q) ** (-e))
        out = out + t
    cache[p] = out
    return out


def _map_atom(a, l, v, cache):
    t = T.atom(a)
    k = t[0]
    if k == 'ite':
        c = frepl(t[1], l, v, cache)
        return ite(c, map_lit(t[2], l, v, cache), map_lit(t[3], l, v, cache))
    if k == 'sel':
        return Poly.atom(T.intern_atom(('sel', t[1], tuple(map_lit(q, l, v, cache) for q in t[2]), t[3])))
    if k == 'fn':
        return T.mkfn(t[1], [map_lit(q, l, v, cache) for q in t[2]], t[3])
    if k == 'sum':
        return open_sum(a, lambda q: map_lit(q, l, v, cache), lambda f: frepl(f, l, v, cache))
    return Poly.atom(a)


def frepl(f, l, v, cache):
    if f == l:
        return v
    if f[0] in ('le', 'lt', 'rle') and fnot(f) == l:
        return fnot(v)
    k = f[0]
    if k == 'not':
        return fnot(frepl(f[1], l, v, cache))
    if k == 'and':
        return f_and(*[frepl(x, l, v, cache) for x in f[1]])
    if k == 'or':
        return f_or(*[frepl(x, l, v, cache) for x in f[1]])
    if k in ('le', 'lt', 'rle', 'eq') and isinstance(f[1], Poly):
        q = map_lit(f[1], l, v, cache)
        if q != f[1]:
            if k == 'le':
                return T.le0(q)
            if k == 'eq':
                return eq(q, ZERO)
            if k == 'lt':
                return lt(q, ZERO)
            return le(q, ZERO)
    return f
