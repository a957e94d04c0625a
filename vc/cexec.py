"""Symbolic execution of C++ functions from the clang AST."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .heap import *
from .heap import Poison
from .smt import Ctx
from . import cfront
from .cfront import params, body, qtype


class Obj:
    """a struct/class instance (also used for pointers/references to it)"""
    _n = 0

    def __init__(self, name, cls=None, fields=None, local=False):
        self.name = name
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.local = local
        Obj._n += 1
        self.uid = Obj._n

    def __repr__(self):
        return 'Obj(%s)' % self.name


class ObjVec:
    """vector of (pointers to) objects; of(index) gives the object"""
    def __init__(self, of, length=None):
        self.of = of
        self.len = length


class RefVal:
    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, RefVal) and self.loc == o.loc

    def __hash__(self):
        return hash(self.loc)


class LamVal:
    def __init__(self, node, this, env=None):
        self.node = node
        self.this = this


class StatusVal:
    """absl::Status / StatusOr: ok formula plus (for StatusOr) the value"""
    def __init__(self, ok, value=None):
        self.ok = ok
        self.value = value


class StrVal:
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrVal) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class TupleVal(list):
    pass


class Outcome:
    __slots__ = ('normal', 'rets', 'brk', 'cont')

    def __init__(self, normal=None, rets=None, brk=None, cont=None):
        self.normal = normal
        self.rets = rets or []
        self.brk = brk or []
        self.cont = cont or []


class Aborted(Exception):
    pass


class EarlyExit(Unsupported):
    """a loop body that leaves the loop"""


FLOATS = ('double', 'float', 'long double')


def strip(t):
    t = re.sub(r'\b(const|volatile|__restrict|struct|class|enum)\b', '', t)
    return re.sub(r'\s+', ' ', t).strip()


def is_float_t(t):
    return strip(t).rstrip('& ') in FLOATS or strip(t).rstrip('& ') in ('Eigen::Index',) and False


def is_bool_t(t):
    return strip(t).rstrip('& ') == 'bool'


INTS = ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'std::size_t', 'long long', 'unsigned long long',
        'short', 'char', 'Eigen::Index', 'Index', 'unsigned char', 'std::ptrdiff_t', 'int64_t', 'int32_t', 'uint64_t', 'difference_type', 'size_type')


def is_int_t(t):
    return strip(t).rstrip('& ') in INTS


def is_container_t(t):
    return bool(re.search(r'VectorX|std::vector|RowMatrixX|MatrixX|Eigen::Matrix|Eigen::Array', t)) and '*' not in t and 'span' not in t


class CExec(Machine):
    def __init__(self, tu, pre=(), shapes=None, contracts=None, field_hook=None, local_shapes=None, check_abort=True):
        super().__init__(pre)
        self.tu = tu
        self.shapes = shapes or {}
        self.contracts = contracts or {}
        self.field_hook = field_hook
        self.local_shapes = local_shapes or {}
        self.this = None
        self.vt = {}          # env key -> 'i'|'r'|'b'
        self.init_memo = {}
        self.check_abort = check_abort
        self.inlined = set()
        self.called_contracts = set()
        self.lib_used = set()
        self.depth = 0
        self.const_memo = {}
        self.ctor_objs = set()
        self.var_names = {}
        self.ref_vars = set()
        self.K = None

    # ------------------------------------------------------------ fields
    def initial_field(self, k):
        if k in self.init_memo:
            return self.init_memo[k]
        obj, f = k
        v = None
        if f in obj.fields:
            v = obj.fields[f]
            if callable(v):
                v = v()
        elif self.field_hook:
            v = self.field_hook(obj, f)
        if v is None:
            t = self.field_type(obj, f)
            if t is None:
                raise Unsupported('unknown field %s.%s' % (obj.name, f))
            nm = obj.name + '.' + f
            s = strip(t)
            if is_float_t(s):
                v = sym(nm, 'r')
            elif is_int_t(s):
                v = sym(nm, 'i')
            elif is_bool_t(s):
                v = ('bs', nm)
            else:
                base = s.rstrip('&* ').split('::')[-1]
                if base in self.tu.records and not base.startswith('span'):
                    v = Obj(nm, base)
                elif (obj in self.ctor_objs or obj.local) and is_container_t(s):
                    srt = 'i' if re.search(r'VectorXi|<int|<long|<size_t|<bool', s) else 'r'
                    v = ArrRef(Block(nm, [ZERO], srt, ZERO), (), ZERO, ZERO)
                else:
                    raise Unsupported('no contract shape for field %s of type %s' % (nm, t))
        if isinstance(v, ArrRef):
            self.known_blocks.add(v.block)
        self.init_memo[k] = v
        return v

    def field_type(self, obj, f):
        rec = self.tu.records.get(obj.cls)
        seen = 0
        while rec is not None and seen < 5:
            for c in rec.get('inner', []):
                if c.get('kind') == 'FieldDecl' and c.get('name') == f:
                    return qtype(c)
            bases = rec.get('bases', [])
            if not bases:
                break
            rec = self.tu.records.get(bases[0]['type']['qualType'].split('::')[-1])
            seen += 1
        return None

    def get_field(self, st, obj, f):
        k = (obj, f)
        if k in st.heap:
            return st.heap[k]
        return self.initial_field(k)

    def set_field(self, st, obj, f, v):
        self.store(st, ('heap', (obj, f)), v)

    def contract_args(self, c, nodes, st):
        """arguments of a callee known by contract only: c.refs names the
        positions handed over by reference, c.raw skips the others"""
        refs = getattr(c, 'refs', ())
        out = []
        for i, a in enumerate(nodes):
            if i in refs:
                out.append(RefVal(self.lv(a, st)))
            else:
                out.append(None if getattr(c, 'raw', False) else self.ev(a, st))
        return out

    def sort_of(self, key, old):
        k, x = key
        if k == 'e':
            s = self.vt.get(x)
            if s:
                return s
        else:
            t = self.field_type(x[0], x[1])
            if t:
                return 'r' if is_float_t(t) else 'i'
        return 'i' if old.is_int() else 'r'

    # ------------------------------------------------------------ entry
    def bind_params(self, st, f, args):
        for p, a in zip(params(f), args):
            self.bind(st, p, a)

    def bind(self, st, p, a):
        key = p['id']
        t = qtype(p)
        if '&' in t:
            self.ref_vars.add(key)
        self.vt[key] = 'r' if is_float_t(t) else ('b' if is_bool_t(t) else 'i')
        if isinstance(a, RefVal) and '&' not in t and '*' not in t:
            a = self.load(st, a.loc)
        st.env[key] = a
        if isinstance(a, ArrRef):
            self.known_blocks.add(a.block)

    def run(self, f, args, this=None, st=None, ctor_inits=True):
        """execute function node f; returns list of (state, value)"""
        if st is None:
            st = State()
        self.this = this
        self.bind_params(st, f, args)
        if f['kind'] == 'CXXConstructorDecl':
            self.ctor_init(f, this, st)
        o = self.exec(body(f), st)
        rets = list(o.rets)
        if o.normal is not None:
            rets.append((o.normal, None))
        return rets

    def ctor_init(self, f, this, st):
        self.ctor_objs.add(this)
        for c in f.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer' and 'delegatingInit' in c and c.get('inner'):
                e = c['inner'][0]
                while e['kind'] in ('ExprWithCleanups',):
                    e = e['inner'][0]
                args = [a for a in e.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
                ct = e.get('ctorType', {}).get('qualType', '')
                g = [x for x in self.tu.find(f['name'], f['name']) if x.get('type', {}).get('qualType') == ct]
                if len(g) != 1:
                    raise Unsupported('delegating constructor')
                a = self.args_for(g[0], args, st)
                s = st.copy()
                self.bind_params(s, g[0], a)
                self.ctor_init(g[0], this, s)
                st.heap, st.arrays = s.heap, s.arrays
                self.inline(g[0], a, this, st)
            if c.get('kind') == 'CXXCtorInitializer':
                fld = c.get('anyInit', {}).get('name')
                if fld and c.get('inner'):
                    e = c['inner'][0]
                    t = qtype(e)
                    if fld in this.fields:
                        continue
                    if '&' in c.get('anyInit', {}).get('type', {}).get('qualType', '') or '*' in t:
                        v = self.ev(e, st)
                    else:
                        try:
                            v = self.ev(e, st)
                        except Unsupported:
                            continue
                    if v is not None:
                        st.heap[(this, fld)] = v

    # ------------------------------------------------------------ statements
    def exec_list(self, stmts, st):
        out = Outcome()
        cur = st
        for i, s in enumerate(stmts):
            if cur is None:
                break
            snap = cur.copy() if s.get('kind') == 'DeclStmt' else None
            try:
                o = self.exec(s, cur)
            except NeedSplit as e:
                if snap is None:
                    raise
                o = self.fork(e.cond, snap, lambda q: self.exec_list(stmts[i:], q))
                out.rets += o.rets
                out.brk += o.brk
                out.cont += o.cont
                out.normal = o.normal
                return out
            out.rets += o.rets
            out.brk += o.brk
            out.cont += o.cont
            cur = o.normal
        out.normal = cur
        return out

    def exec(self, n, st):
        k = n.get('kind')
        ln = cfront.line_of(n)
        if ln:
            self.where = str(ln)
        m = getattr(self, 'st_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        try:
            self.ev(n, st, True)
        except Aborted:
            return Outcome()
        return Outcome(st)

    def st_CompoundStmt(self, n, st):
        return self.exec_list(n.get('inner', []), st)

    def st_NullStmt(self, n, st):
        return Outcome(st)

    def st_AttributedStmt(self, n, st):
        return self.exec(n['inner'][-1], st)

    def st_DeclStmt(self, n, st):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.declare(d, st)
            elif d['kind'] == 'DecompositionDecl':
                raise Unsupported('structured binding')
            elif d['kind'] == 'EnumDecl':
                self.tu._enum(d)
            elif d['kind'] in ('TypeAliasDecl', 'TypedefDecl'):
                self.tu.aliases[d.get('name', '')] = qtype(d)
        return Outcome(st)

    def elem_stride(self, t):
        """number of scalars per step of a pointer of type t (pointer to array)"""
        m = re.search(r'\(\*[^)]*\)\s*\[(\d+)\]', t)
        if m:
            return int(m.group(1))
        m = re.match(r'(?:const )?(\w+)(?: const)? \*', t)
        if m:
            m = re.search(r'\[(\d+)\]$', self.tu.aliases.get(m.group(1), ''))
            if m:
                return int(m.group(1))
        return 1

    def declare(self, d, st):
        self.var_names[d['id']] = d.get('name')
        if d.get('tls') or d.get('storageClass') == 'static':
            h = self.local_shapes.get(d.get('name'))
            if h is None or 'const' in qtype(d):
                if d.get('tls') or 'const' not in qtype(d):
                    raise Unsupported('static local %s' % d.get('name'))
            else:
                # contents left over from earlier calls: arbitrary, of the declared shape
                st.env[d['id']] = ArrRef(Block('%s#%d' % (d['name'], Block._n + 1), [P(x) for x in h(self.K.v)], 'r', None))
                st.arrays[st.env[d['id']].block] = ()
                return
        key = d['id']
        t = qtype(d)
        name = d.get('name', '')
        init = None
        for c in d.get('inner', []):
            if 'kind' in c and c['kind'] not in ('FullComment', 'AlignedAttr', 'UnusedAttr', 'MaybeUnusedAttr') and not c['kind'].endswith('Attr'):
                init = c
        s = strip(t)
        self.vt[key] = 'r' if is_float_t(t) else ('b' if is_bool_t(t) else 'i')
        if '&' in t:
            self.ref_vars.add(key)
            loc = self.lv(init, st)
            v = self.loc_container(st, loc)
            if v is None:
                v = RefVal(loc)
            st.env[key] = v
            return
        if is_float_t(s) or is_int_t(s) or is_bool_t(s):
            if init is None:
                # uninitialised: fresh unknown
                st.env[key] = fresh('uninit_' + name, 'r' if is_float_t(s) else 'i') if not is_bool_t(s) else ('bs', 'uninit_%s' % key)
            else:
                v = self.conv(self.ev(init, st), s)
                st.env[key] = v
            return
        v = self.ev(init, st) if init is not None else None
        st.env[key] = self.own(st, v, t, name)

    def own(self, st, v, t, name):
        """value semantics for a declared variable of type t"""
        s = strip(t)
        if isinstance(v, VecExpr):
            return self.materialize(st, v, name)
        if isinstance(v, TupleVal) and len(v) == 1 and isinstance(v[0], TupleVal) and s.startswith('std::array<'):
            v = v[0]
        m = re.match(r'std::array<(std::span<.*>|.*\*), (\d+)>$', s)
        if m and isinstance(v, TupleVal):
            o = Obj('views#%d' % (Obj._n + 1), 'array-of-views', {}, local=True)
            for i in range(int(m.group(2))):
                o.fields['[%d]' % i] = v[i] if i < len(v) else TupleVal()
            return o
        if isinstance(v, TupleVal) and re.match(r'std::array<(double|int)', s) and v and all(isinstance(x, (Poly, int)) for x in v):
            r = self.alloc(st, name, [P(len(v))], 'r' if 'double' in s[:18] else 'i')
            r.block.fresh_alloc = False
            if all(P(x) == P(v[0]) for x in v):
                self.assign_array(st, r, P(v[0]))
            else:
                for i, x in enumerate(v):
                    self.store(st, self.element(st, r, P(i)), P(x))
            return r
        if isinstance(v, ArrRef) and (s.startswith('Eigen::Matrix') or s.startswith('std::vector') or s.startswith('std::array')) and '*' not in s:
            if getattr(v.block, 'fresh_alloc', False):
                v.block.fresh_alloc = False
                if name in self.local_shapes and len(v.block.shape) == 1 and isinstance(v.block.base, Poly) and not st.arrays.get(v.block):
                    return self.shaped(st, v, name, v.block.shape[0])
                return v
            return self.copy_array(st, v, name)
        if isinstance(v, Obj) and not v.local and '*' not in s and '&' not in s:
            return v
        return v

    def shaped(self, st, v, name, n):
        """a constant local vector of n elements, indexed as the shape the contract gives for it (elements beyond that shape are out of reach)"""
        shape = self.hint_shape(name, n)
        if not self.ctx(st).prove(ge(n, ZERO)) or self.ctx(st).prove(eq(n, ZERO)):
            return v
        tot = ONE
        for d in shape:
            tot = tot * d
        self.oblige('bounds', '%s holds the contract shape' % name, st, le(tot, n))
        r = self.alloc(st, name, shape, v.block.sort, v.block.base)
        r.block.fresh_alloc = False
        return r

    def loc_container(self, st, loc):
        """if loc denotes an array/object, the value itself"""
        if loc[0] == 'tmp':
            return loc[1]
        v = None
        if loc[0] in ('env', 'heap'):
            v = self.load(st, loc)
        if isinstance(v, (ArrRef, Obj, ObjVec, VecExpr, LamVal, StatusVal, TupleVal)):
            return v
        return None

    def st_ReturnStmt(self, n, st):
        v = None
        if n.get('inner'):
            v = None
            if self.ret_ref:
                loc = self.lv(n['inner'][0], st)
                v = RefVal(loc) if loc[0] in ('elem', 'env', 'heap') else loc[1]
            else:
                v = self.ev(n['inner'][0], st)
        return Outcome(None, [(st, v)])

    def st_BreakStmt(self, n, st):
        return Outcome(None, brk=[st])

    def st_ContinueStmt(self, n, st):
        return Outcome(None, cont=[st])

    def st_IfStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit'):
            o = self.exec(inner.pop(0), st)
            st = o.normal
        if n.get('hasVar'):
            raise Unsupported('if with declaration')
        if n.get('isConstexpr'):
            pass
        c = self.cond(inner[0], st)
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        d = self.ctx(st).decide(c)
        if d is True:
            return self.exec(then, st)
        if d is False:
            return self.exec(els, st) if els is not None else Outcome(st)
        return self.fork(c, st, lambda q: self.exec(then, q), lambda q: self.exec(els, q) if els is not None else Outcome(q))

    def fork(self, c, st, fa, fb=None):
        """execute under c and under not c, and merge"""
        base = st.pc
        sa = st.copy()
        sa.pc = base + (c,)
        sb = st.copy()
        sb.pc = base + (fnot(c),)
        oa = fa(sa)
        ob = (fb or fa)(sb)
        out = Outcome(None, oa.rets + ob.rets, oa.brk + ob.brk, oa.cont + ob.cont)
        if oa.normal is None:
            out.normal = ob.normal
        elif ob.normal is None:
            out.normal = oa.normal
        else:
            # facts established inside (aborts, returns) are kept as implications
            xa = oa.normal.pc[len(base) + 1:]
            xb = ob.normal.pc[len(base) + 1:]
            pc = base
            if xa or xb:
                pc = base + (f_and(implies(c, f_and(*xa)), implies(fnot(c), f_and(*xb))),)
            out.normal = self.merge(c, oa.normal, ob.normal, pc)
        return out

    def merge_many(self, states, base):
        """merge states whose pcs partition base"""
        res = states[0]
        for s in states[1:]:
            cond = f_and(*s.pc[len(base):])
            alt = f_and(*res.pc[len(base):])
            res = self.merge(cond, s, res, base + (f_or(cond, alt),))
        if len(res.pc) > len(base) and len(states) > 1:
            x = f_and(*res.pc[len(base):])
            if x == TRUE or Ctx(self.pre + base).prove(x):
                res.pc = base
        return res

    def st_ForStmt(self, n, st):
        if getattr(self.K, 'cuts', None) and not self.fornest and not self.dry:
            self.try_cuts(st)
        self.fornest += 1
        try:
            return self.for_stmt(n, st)
        finally:
            self.fornest -= 1

    fornest = 0

    def try_cuts(self, st):
        """intermediate assertions K.cuts {array: contents}: as soon as an array has the stated contents at an outermost
        loop, the rest of the function is verified for an arbitrary array named <array>#cut with these contents"""
        from .contract import SymE
        from .equal import check_equal
        K = self.K
        for name, spec in K.cuts.items():
            b = K.block(name)
            ls = self.layers(st, b)
            if not ls or isinstance(ls[-1], str) or any(x[0] == name for x in K.cut_log):
                continue
            ds = [fresh('d') for _ in b.shape]
            rg = []
            for d, m in zip(ds, b.shape):
                rg += [le(ZERO, d), lt(d, m)]
            c = self.ctx(st, *rg)
            if c.inconsistent():
                continue
            got = self.read_layers(b, ls, tuple(ds), c)
            if check_equal(got, P(spec(SymE(c), K.v, K.old, *ds)), c, norm=K.norm):
                K.cut_log.append((name, len(ls)))
                st.arrays[b] = (name + '#cut',)

    def for_stmt(self, n, st):
        init, _, cond, inc, bd = n['inner']
        ivar = None
        outer_decl = True
        if init.get('kind') == 'DeclStmt':
            ds = [d for d in init['inner'] if d['kind'] == 'VarDecl']
            for d in ds:
                self.declare(d, st)
            ivar = ds[0]['id']
            outer_decl = False
        elif init.get('kind'):
            self.ev(init, st, True)
        inv = self.invariant_for(n)
        if inv is not None and cond.get('kind'):
            return self.inv_loop(st, cond, inc, bd, inv)
        if not cond.get('kind') or not inc.get('kind'):
            raise Unsupported('non-canonical for loop')
        # induction variable from the increment
        step, iv = self.increment(inc, st)
        if ivar is None:
            ivar = iv
        if ivar != iv:
            raise Unsupported('loop increment of another variable')
        lo = st.env[ivar]
        if not isinstance(lo, Poly):
            raise Unsupported('loop variable')
        extra = None
        op, bound_node = self.loop_cond(cond, ivar)
        hi = self.num(self.ev(bound_node, st))
        if step == 1:
            if op == '<=':
                hi2 = hi + 1
            elif op in ('<',):
                hi2 = hi
            elif op == '!=':
                hi2 = hi
                self.oblige('loop-bound', 'start <= end of != loop', st, le(lo, hi))
            else:
                raise Unsupported('loop condition ' + op)
            count = hi2 - lo
            at = lambda t: lo + t
            L, H = lo, hi2
            mk = lambda v: v
        elif step == -1:
            if op == '>=':
                H = lo - hi + 1
            elif op == '>':
                H = lo - hi
            else:
                raise Unsupported('loop condition ' + op)
            L = ZERO
            mk = lambda v: lo - v
        elif step > 1:
            if op == '<=':
                hi = hi + 1
            elif op != '<':
                raise Unsupported('loop condition ' + op)
            L = ZERO
            H = idiv(hi - lo + (step - 1), P(step))
            # integer division semantics need a non-negative numerator
            if not self.ctx(st).prove(ge(hi - lo, 0)):
                raise Unsupported('strided loop with unknown direction')
            mk = lambda v: lo + v * step
        else:
            raise Unsupported('loop step')
        name = 'i'
        d0 = self.tu.by_id.get(ivar)

        searching = []

        def bodyfn(s, v):
            s.env[ivar] = mk(v)
            b2 = self.num(self.ev(bound_node, s.copy()))
            if op == '<=' and step > 1:
                b2 = b2 + 1
            if b2 != hi:
                if not self.ctx(s).prove(eq(b2, hi)):
                    raise Unsupported('loop bound changes during the loop')
            o = self.exec(bd, s)
            if (o.brk or o.rets and not self.error_exits(o.rets)) and not searching:
                raise EarlyExit('return/break inside a loop')
            ss = ([o.normal] if o.normal is not None else []) + o.cont
            if not ss:
                raise Unsupported('loop body never completes')
            base = st.pc
            r = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
            if not same(r.env.get(ivar), mk(v)):
                raise Unsupported('loop variable modified in the body')
            # drop: restore variable so it is not part of the frame
            r.env[ivar] = lo
            return r

        n_ = H - L
        if n_.is_const() and n_.const_val() <= 64:
            # exact unrolling, break/return allowed
            return self.unroll(n, st, ivar, [mk(L + k) for k in range(max(0, int(n_.const_val())))], bd, mk(L + max(0, int(n_.const_val()))))
        st.env[ivar] = lo
        try:
            out = self.loop(st.copy(), L, H, bodyfn, name)
        except EarlyExit:
            if self.depth_of_search > 2:
                raise
            searching.append(1)

            def last(s, v):
                s.env[ivar] = mk(v)
                o = self.exec(bd, s)
                return o.rets, o.brk
            out, rets, brk = self.search_loop(st, L, H, bodyfn, last)
            if out is not None and outer_decl:
                out.env[ivar] = mk(H)
            ss = ([out] if out is not None else []) + brk
            norm = None
            if ss:
                norm = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
            return Outcome(norm, rets)
        if outer_decl:
            c = self.ctx(out)
            fin = mk(H)
            out.env[ivar] = fin if c.prove(le(L, H)) else ite(le(L, H), fin, lo)
        return Outcome(out)

    depth_of_search = 0

    def search_loop(self, st, L, H, bodyfn, last):
        """a loop left early in some iteration e: the iterations before e took the path that stays inside.
        bodyfn(s, v): one iteration on the staying path; last(s, v) -> (returns, breaks) of iteration v.
        Of the fact that no iteration before e leaves, the instances at e - 1 and at the contract's
        witnesses are used."""
        self.depth_of_search += 1
        try:
            e = fresh('exit')

            def at(i, s):
                return self.loop(s.copy(), L, i, bodyfn, 'i')

            def leaves(i, pc):
                s = st.copy()
                s.pc = st.pc + pc
                self.dry += 1
                try:
                    s = at(i, s)
                    n = len(s.pc)
                    r, b = last(s.copy(), i)
                finally:
                    self.dry -= 1
                return f_or(*[f_and(*q.pc[n:]) for q in [x[0] for x in r] + list(b)])

            def stayed(upto, s):
                w = fresh('w')
                fs = []
                f = leaves(w, (le(L, w), lt(w, upto)))
                for i in [upto - 1] + [P(x) for x in getattr(self.K, 'exit_witness', lambda v: [])(self.K.v)]:
                    g = fsubst(fnot(f), {single_atom(w): i}, self.ctx(s))
                    fs.append(implies(f_and(le(L, i), lt(i, upto)), g))
                return tuple(fs)

            def leave_at(e):
                se = st.copy()
                se.pc = st.pc + (le(L, e),) + ((lt(e, H),) if H is not None else ())
                se = at(e, se)
                se.pc = se.pc + stayed(e, se)
                return last(se, e)
            for w in [P(x) for x in getattr(self.K, 'exit_witness', lambda v: [])(self.K.v)]:
                # the exit index is the witness itself whenever that follows from the facts
                self.dry += 1
                try:
                    r, b = leave_at(e)
                finally:
                    self.dry -= 1
                if all(self.ctx(q).prove(eq(e, w)) for q in [x[0] for x in r] + list(b)):
                    e = w
                    break
            rets, brk = leave_at(e)
            out = None
            if H is not None:
                out = self.loop(st.copy(), L, H, bodyfn, 'i')
                out.pc = out.pc + stayed(H, out)
                if self.ctx(out).inconsistent():
                    out = None
            return out, [r for r in rets if not self.ctx(r[0]).inconsistent()], [b for b in brk if not self.ctx(b).inconsistent()]
        finally:
            self.depth_of_search -= 1

    def error_exits(self, rets):
        """early returns of an error status: with K.error_returns the contract speaks only about runs that end
        without one"""
        if not getattr(self.K, 'error_returns', False) or self.depth:
            return False
        for r in rets:
            v = r[1] if isinstance(r, tuple) else getattr(r, 'ret', None)
            if not isinstance(v, StatusVal) or v.ok != FALSE:
                return False
        return True

    def unroll(self, n, st, ivar, vals, bd, last):
        out = Outcome()
        cur = st
        brk = []
        base = st.pc
        for v in vals:
            if cur is None:
                break
            cur.env[ivar] = v
            o = self.exec(bd, cur)
            out.rets += o.rets
            brk += o.brk
            ss = ([o.normal] if o.normal is not None else []) + o.cont
            cur = None
            if ss:
                cur = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
        if cur is not None:
            cur.env[ivar] = last
        ss = ([cur] if cur is not None else []) + brk
        if ss:
            out.normal = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
        return out

    def increment(self, inc, st):
        k = inc['kind']
        if k == 'ExprWithCleanups' or k == 'ParenExpr':
            return self.increment(inc['inner'][0], st)
        if k == 'UnaryOperator' and inc['opcode'] in ('++', '--'):
            return (1 if inc['opcode'] == '++' else -1), self.var_of(inc['inner'][0])
        if k == 'CompoundAssignOperator' and inc['opcode'] in ('+=', '-='):
            c = self.num(self.ev(inc['inner'][1], st))
            if c.is_const():
                return (c.const_val() if inc['opcode'] == '+=' else -c.const_val()), self.var_of(inc['inner'][0])
        raise Unsupported('loop increment')

    def var_of(self, n):
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl']['id']
        raise Unsupported('loop variable expression')

    def loop_cond(self, cond, ivar):
        while cond['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr'):
            cond = cond['inner'][0]
        if cond['kind'] == 'BinaryOperator' and cond['opcode'] in ('<', '<=', '>', '>=', '!='):
            a, b = cond['inner']
            op = cond['opcode']
            try:
                if self.var_of_casts(a) == ivar:
                    return op, b
            except Unsupported:
                pass
            if self.var_of_casts(b) == ivar:
                return {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op], a
        raise Unsupported('loop condition')

    def var_of_casts(self, n):
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl']['id']
        raise Unsupported('loop variable expression')

    def st_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        # [init?] range begin end cond inc loopvar body
        rng = [c for c in inner if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range')][0]
        rexpr = [c for c in rng['inner'][0]['inner'] if 'kind' in c][-1]
        var = [c for c in inner if c.get('kind') == 'DeclStmt'][-1]['inner'][0]
        bd = inner[-1]
        r = self.loc_container(st, self.lv(rexpr, st))
        byref = '&' in qtype(var)
        key = var['id']
        t = qtype(var)
        self.vt[key] = 'r' if is_float_t(t) else ('b' if is_bool_t(t) else 'i')
        if isinstance(r, TupleVal):
            cur = st
            out = Outcome()
            for v in r:
                cur.env[key] = v
                o = self.exec(bd, cur)
                out.rets += o.rets
                if o.brk:
                    raise Unsupported('break in range loop')
                ss = ([o.normal] if o.normal is not None else []) + o.cont
                if not ss:
                    return out
                cur = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
            out.normal = cur
            return out
        if not isinstance(r, ArrRef):
            raise Unsupported('range-for over %r' % (r,))
        ln = self.length(st, r)

        def bodyfn(s, v):
            el = self.element(s, r, v)
            if byref and isinstance(el, tuple) and el[0] == 'elem':
                s.env[key] = RefVal(el)
            elif isinstance(el, tuple) and el[0] == 'elem':
                s.env[key] = self.load(s, el)
            else:
                s.env[key] = el
            o = self.exec(bd, s)
            if o.rets or o.brk:
                raise Unsupported('return/break inside a loop')
            ss = ([o.normal] if o.normal is not None else []) + o.cont
            r2 = ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))
            r2.env.pop(key, None)
            return r2
        st.env.pop(key, None)
        return Outcome(self.loop(st, ZERO, ln, bodyfn, 'r'))

    def st_WhileStmt(self, n, st):
        inv = self.invariant_for(n)
        if inv is not None:
            return self.inv_loop(st, n['inner'][-2], None, n['inner'][-1], inv)
        if self.depth_of_search > 2:
            raise Unsupported('while loop')
        cond, bd = n['inner'][-2], n['inner'][-1]

        def bodyfn(s, v):
            s.pc = s.pc + (self.cond(cond, s),)
            o = self.exec(bd, s)
            ss = ([o.normal] if o.normal is not None else []) + o.cont
            if not ss:
                raise Unsupported('loop body never completes')
            return ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss))

        def last(s, v):
            c = self.cond(cond, s)
            s1, s2 = s.copy(), s.copy()
            s1.pc = s.pc + (fnot(c),)
            s2.pc = s.pc + (c,)
            o = self.exec(bd, s2)
            return o.rets, [s1] + o.brk
        _, rets, brk = self.search_loop(st, ZERO, None, bodyfn, last)
        norm = None
        if brk:
            norm = brk[0] if len(brk) == 1 else self.merge_many(brk, common_prefix(brk))
        return Outcome(norm, rets)

    def invariant_for(self, n):
        f = getattr(self.K, 'loop_inv', None)
        if f is None or self.depth or (self.in_inv and not getattr(self.K, 'nested_inv', False)):
            return None
        return f

    in_inv = 0

    def inv_loop(self, st, cond, inc, bd, inv):
        """loop with a user-supplied invariant inv(M, st) -> [formula]: holds
        on entry, is kept by one arbitrary iteration, and is all that is known
        afterwards about what the loop changes"""
        self.loop_id += 1
        tag = '@%d' % self.loop_id
        self.weak = True
        self.loop_var = None
        if inc is not None and inc.get('kind'):
            try:
                self.loop_var = self.increment(inc, st)[1]
            except Unsupported:
                pass

        def once(s):
            c = self.cond(cond, s)
            s.pc = s.pc + (c,)
            o = self.exec(bd, s)
            ends = ([o.normal] if o.normal is not None else []) + o.cont
            for e in ends:
                if inc is not None and inc.get('kind'):
                    self.ev(inc, e, True)
            return o, ends

        mod_env, mod_heap, mod_arr = set(), set(), set()
        sy_env, sy_heap = {}, {}

        def head():
            s0 = st.copy()
            for k in mod_env:
                s0.env[k] = sy_env[k]
            for k in mod_heap:
                s0.heap[k] = sy_heap[k]
            for b in mod_arr:
                s0.arrays[b] = (b.name + tag,)
                self.havocs[b.name + tag] = b
            s0.pc = st.pc + tuple(inv(self, s0, st))
            return s0
        self.in_inv += 1
        try:
            for _ in range(12):
                s0 = head()
                self.dry += 1
                try:
                    o, ends = once(s0.copy())
                finally:
                    self.dry -= 1
                ne, nh, na = set(), set(), set()
                for s1 in ends + o.brk:
                    ne |= {k for k in st.env if k in s1.env and not same(s1.env[k], s0.env[k])}
                    nh |= {k for k in s1.heap if k not in s0.heap or not same(s1.heap[k], s0.heap[k])}
                    na |= {b for b in s1.arrays if s1.arrays[b] is not s0.arrays.get(b) and s1.arrays[b] != s0.arrays.get(b, ())}
                na = {b for b in na if self.alive_before(b, st)}
                nh = {k for k in nh if not k[0].local or k in st.heap}
                if ne <= mod_env and nh <= mod_heap and na <= mod_arr:
                    break
                for k in ne - mod_env:
                    sy_env[k] = self.havoc_value(('e', k), st.env[k], str(k) + tag)
                for k in nh - mod_heap:
                    old = st.heap[k] if k in st.heap else self.initial_field(k)
                    sy_heap[k] = self.havoc_value(('h', k), old, str(k) + tag)
                mod_env |= ne
                mod_heap |= nh
                mod_arr |= na
            else:
                raise Unsupported('loop frame does not stabilise')
            for q in inv(self, st, st):
                self.oblige('invariant', 'holds on entry', st, q)
            s0 = head()
            o, ends = once(s0.copy())
            for e in ends:
                for q in inv(self, e, st):
                    self.oblige('invariant', 'kept by the loop body', e, q)
            s2 = s0.copy()
            s2.pc = s2.pc + (fnot(self.cond(cond, s2)),)
            ss = [s2] + o.brk
            out = Outcome(ss[0] if len(ss) == 1 else self.merge_many(ss, common_prefix(ss)), o.rets)
            return out
        finally:
            self.in_inv -= 1

    def st_DoStmt(self, n, st):
        c = n['inner'][1]
        if c.get('kind') == 'CXXBoolLiteralExpr' and not c.get('value'):
            return self.exec(n['inner'][0], st)
        raise Unsupported('do loop')

    def st_SwitchStmt(self, n, st):
        inner = [c for c in n['inner']]
        v = self.num(self.ev(inner[0], st))
        bd = inner[-1]
        entries = []   # flattened (labels, stmt)
        for c in bd.get('inner', []):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(self.num(self.ev(c['inner'][0], st)))
                    c = c['inner'][-1]
                else:
                    labels.append('default')
                    c = c['inner'][-1]
            entries.append((labels, c))
        out = Outcome()
        base = st.pc
        allv = [l for ls, _ in entries for l in ls if l != 'default']
        ends = []
        has_default = any('default' in ls for ls, _ in entries)
        for i, (ls, _) in enumerate(entries):
            for l in ls:
                if l == 'default':
                    cond = f_and(*[ne(v, x) for x in allv])
                else:
                    cond = eq(v, l)
                d = self.ctx(st).decide(cond)
                if d is False:
                    continue
                s = st.copy()
                s.pc = base + (cond,)
                o = self.exec_list([x for _, x in entries[i:]], s)
                out.rets += o.rets
                out.cont += o.cont
                ends += o.brk + ([o.normal] if o.normal is not None else [])
        if not has_default:
            cond = f_and(*[ne(v, x) for x in allv])
            if self.ctx(st).decide(cond) is not False:
                s = st.copy()
                s.pc = base + (cond,)
                ends.append(s)
        if ends:
            out.normal = ends[0] if len(ends) == 1 else self.merge_many(ends, base)
            if len(ends) == 1:
                pass
        return out

    # ------------------------------------------------------------ locations
    def load(self, st, loc):
        k = loc[0]
        if k == 'env':
            if loc[1] not in st.env:
                raise Unsupported('variable not in scope')
            v = st.env[loc[1]]
            if isinstance(v, RefVal):
                return self.load(st, v.loc)
            if isinstance(v, Poison):
                raise Unsupported('use of ' + repr(v))
            return v
        if k == 'heap':
            v = self.get_field(st, loc[1][0], loc[1][1])
            if isinstance(v, RefVal):
                return self.load(st, v.loc)
            if isinstance(v, Poison):
                raise Unsupported('use of ' + repr(v))
            return v
        if k == 'elem':
            return self.read_digits(st, loc[1], loc[2])
        if k == 'tmp':
            return loc[1]
        raise Unsupported('load')

    def store(self, st, loc, v):
        k = loc[0]
        if k == 'env':
            cur = st.env.get(loc[1])
            if isinstance(cur, RefVal):
                return self.store(st, cur.loc, v)
            st.env[loc[1]] = v
        elif k == 'heap':
            cur = None
            if loc[1] in st.heap:
                cur = st.heap[loc[1]]
            elif loc[1] in self.init_memo:
                cur = self.init_memo[loc[1]]
            if isinstance(cur, RefVal):
                return self.store(st, cur.loc, v)
            if loc[1][0].name:
                try:
                    self.initial_field(loc[1])
                except Unsupported:
                    pass
            st.heap[loc[1]] = v
        elif k == 'elem':
            self.write_full(st, loc[1], loc[2], v, False)
        else:
            raise Unsupported('store to temporary')

    def lv(self, n, st):
        """location of an lvalue expression (or ('tmp', value))"""
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXConstCastExpr'):
            return self.lv(n['inner'][0], st)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr'):
            ck = n.get('castKind')
            if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
                return self.lv(n['inner'][0], st)
            return ('tmp', self.ev(n, st))
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['id'] in st.env:
                v = st.env[rd['id']]
                if isinstance(v, RefVal):
                    return v.loc
                return ('env', rd['id'])
            return ('tmp', self.ev(n, st))
        if k == 'MemberExpr':
            obj = self.obj_of(n['inner'][0], st)
            if isinstance(obj, Obj):
                return ('heap', (obj, n['name']))
            return ('tmp', self.ev(n, st))
        if k == 'ArraySubscriptExpr':
            a = self.ev(n['inner'][0], st)
            i = self.num(self.ev(n['inner'][1], st))
            w = self.elem_stride(qtype(n['inner'][0]))
            if w != 1 and isinstance(a, ArrRef):
                return ('tmp', ArrRef(a.block, a.pre, a.off + i * w, P(w)))
            el = self.element(st, a, i)
            return el if isinstance(el, tuple) and el and el[0] == 'elem' else ('tmp', el)
        if k == 'CXXOperatorCallExpr':
            op = self.callee_name(n['inner'][0])
            if op in ('operator[]', 'operator()'):
                a = self.loc_container(st, self.lv(n['inner'][1], st))
                if isinstance(a, (ArrRef, VecExpr, TupleVal)):
                    idx = [self.num(self.ev(x, st)) for x in n['inner'][2:]]
                    el = self.element(st, a, *idx)
                    return el if isinstance(el, tuple) and el and el[0] == 'elem' else ('tmp', el)
                if isinstance(a, ObjVec):
                    i = self.num(self.ev(n['inner'][2], st))
                    if a.len is not None:
                        self.oblige('bounds', '0 <= %s < %s (vector of objects)' % (i, a.len), st, f_and(ge(i, 0), lt(i, a.len)))
                    return ('tmp', a.of(i))
                if isinstance(a, Obj) and a.cls == 'array-of-views':
                    i = self.num(self.ev(n['inner'][2], st))
                    if not i.is_const() or '[%d]' % i.const_val() not in a.fields:
                        raise Unsupported('index into an array of views')
                    return ('heap', (a, '[%d]' % i.const_val()))
                if op == 'operator[]' or not isinstance(a, LamVal):
                    return ('tmp', self.ev(n, st))
            return self.call_lv(n, st)
        if k == 'CallExpr':
            return self.call_lv(n, st)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(n['inner'][0], st)
            if isinstance(v, ArrRef):
                if is_container_t(n.get('type', {}).get('desugaredQualType') or n['type']['qualType']):
                    return ('tmp', v)       # pointer to a vector
                el = self.element(st, v, ZERO)
                return el if isinstance(el, tuple) and el[0] == 'elem' else ('tmp', el)
            if isinstance(v, RefVal):
                return v.loc
            return ('tmp', v)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            self.ev(n, st)
            return self.lv(n['inner'][0], st)
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            if me['kind'] == 'MemberExpr' and me.get('name') in ('at', 'coeffRef', 'coeff', 'operator()', 'operator[]'):
                a = self.obj_of(me['inner'][0], st)
                if isinstance(a, ArrRef):
                    idx = [self.num(self.ev(x, st)) for x in n['inner'][1:]]
                    el = self.element(st, a, *idx)
                    return el if isinstance(el, tuple) and el[0] == 'elem' else ('tmp', el)
            if me['kind'] == 'MemberExpr' and me.get('name') in ('back', 'front'):
                a = self.obj_of(me['inner'][0], st)
                if isinstance(a, ArrRef):
                    i = ZERO if me['name'] == 'front' else self.length(st, a) - 1
                    el = self.element(st, a, i)
                    return el if isinstance(el, tuple) and el[0] == 'elem' else ('tmp', el)
            return self.call_lv(n, st)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '<=', '>=', '!='):
            self.ev(n, st)
            return self.lv(n['inner'][0], st)
        return ('tmp', self.ev(n, st))

    def obj_of(self, n, st):
        """value of an object expression (base of a member access)"""
        v = self.loc_container(st, self.lv(n, st))
        if v is None:
            v = self.ev(n, st)
        return v

    def length(self, st, a):
        if isinstance(a, VecExpr):
            return a.len
        if a.len is not None:
            return a.len
        if len(a.pre) == 0 or True:
            sh = a.block.shape[len(a.pre):]
            if getattr(a.block, 'nested', 0) > len(a.pre):
                return sh[0]
            r = ONE
            for s in sh:
                r = r * s
            return r - a.off

    def element(self, st, a, *idx):
        """location (or sub-array) of element idx"""
        if isinstance(a, TupleVal):
            if idx[0].is_const():
                return a[idx[0].const_val()]
            raise Unsupported('symbolic index into tuple')
        if isinstance(a, VecExpr):
            if len(idx) == 2:
                return a.f(st, idx[0], idx[1])
            return a.f(st, idx[0])
        if not isinstance(a, ArrRef):
            raise Unsupported('indexing %r' % (a,))
        nest = getattr(a.block, 'nested', 0)
        if nest > len(a.pre) and len(idx) == 1:
            n = a.block.shape[len(a.pre)]
            d = a.off + idx[0]
            self.oblige('bounds', '0 <= %s < %s (%s)' % (d, n, a.block.name), st, f_and(ge(d, 0), lt(d, n)))
            return ArrRef(a.block, a.pre + (d,))
        if len(idx) == 2:
            if a.dims is None:
                sh = a.block.shape[len(a.pre):]
                if len(sh) == 2 and a.off.is_zero():
                    for d, n in zip(idx, sh):
                        self.oblige('bounds', '0 <= %s < %s (%s)' % (d, n, a.block.name), st, f_and(ge(d, 0), lt(d, n)))
                    return ('elem', a.block, a.pre + tuple(idx))
                raise Unsupported('2-d access to %s' % a.block.name)
            r, c = a.dims
            self.oblige('bounds', 'row/col of matrix view of %s' % a.block.name, st,
                        f_and(ge(idx[0], 0), lt(idx[0], r), ge(idx[1], 0), lt(idx[1], c)))
            digits = self.decompose(a.block, a.pre, a.off + idx[0] * c + idx[1], st, 'access')
            return ('elem', a.block, a.pre + digits)
        if a.len is not None and not self.dry:
            self.oblige('bounds', '0 <= %s < %s (view of %s)' % (idx[0], a.len, a.block.name), st, f_and(ge(idx[0], 0), lt(idx[0], a.len)))
        digits = self.decompose(a.block, a.pre, a.off + idx[0], st, 'access')
        return ('elem', a.block, a.pre + digits)

    # ------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, tuple):
            return ite(v, ONE, ZERO)
        if isinstance(v, bool):
            return P(int(v))
        raise Unsupported('number expected, got %r' % (v,))

    def boolean(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Poly):
            return ne(v, 0)
        if isinstance(v, StatusVal):
            return v.ok
        raise Unsupported('bool expected, got %r' % (v,))

    def cond(self, n, st):
        return self.boolean(self.ev(n, st))

    def conv(self, v, t):
        if is_bool_t(t):
            return self.boolean(v)
        if is_float_t(t) or is_int_t(t):
            return self.num(v)
        return v

    def ev(self, n, st, discard=False):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s' % k)
        r = m(n, st)
        if isinstance(r, RefVal) and k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.load(st, r.loc)
        return r

    def call_lv(self, n, st):
        r = getattr(self, 'ex_' + n['kind'])(n, st)
        return r.loc if isinstance(r, RefVal) else ('tmp', r)

    def ex_pass(self, n, st):
        return self.ev(n['inner'][0], st)
    ex_ParenExpr = ex_ExprWithCleanups = ex_MaterializeTemporaryExpr = ex_CXXBindTemporaryExpr = ex_ConstantExpr = ex_pass
    ex_SubstNonTypeTemplateParmExpr = ex_CXXConstCastExpr = ex_pass

    def ex_CharacterLiteral(self, n, st):
        return P(int(n['value']))

    def ex_IntegerLiteral(self, n, st):
        return P(int(n['value']))

    def ex_FloatingLiteral(self, n, st):
        return P(Fraction(float(n['value'])))

    def ex_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n['value'] else FALSE

    def ex_StringLiteral(self, n, st):
        return StrVal(n['value'])

    def ex_CXXNullPtrLiteralExpr(self, n, st):
        return None

    def ex_CXXThisExpr(self, n, st):
        return self.this

    def ex_ImplicitValueInitExpr(self, n, st):
        return ZERO

    def ex_CXXScalarValueInitExpr(self, n, st):
        return ZERO

    def ex_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        return DEFAULT_ARG

    def ex_CXXDefaultInitExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        raise Unsupported('default member init')

    def ex_cast(self, n, st):
        ck = n.get('castKind')
        inner = n['inner'][-1]
        if ck == 'LValueToRValue':
            loc = self.lv(inner, st)
            return self.load(st, loc)
        v = self.ev(inner, st)
        t = qtype(n)
        if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, (Poly, tuple)):
                if is_bool_t(t):
                    return self.boolean(v)
                return self.num(v)
            return v
        if ck == 'FloatingToIntegral':
            v = self.num(v)
            if v.is_int():
                return v
            # truncation
            if v.is_const():
                return P(int(Fraction(v.const_val())))
            return fn('trunc', v, sort='i')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return self.boolean(v)
        if ck == 'ToVoid':
            return None
        if ck == 'PointerToBoolean':
            if v is None:
                return FALSE
            if isinstance(v, (ArrRef, Obj)):
                return TRUE
        return v
    ex_ImplicitCastExpr = ex_CXXStaticCastExpr = ex_CStyleCastExpr = ex_CXXFunctionalCastExpr = ex_CXXReinterpretCastExpr = ex_cast

    def ex_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['id'] in st.env:
            return self.load(st, ('env', rd['id']))
        if rd['kind'] == 'EnumConstantDecl':
            if rd['id'] in self.tu.enums:
                return P(self.tu.enums[rd['id']])
            raise Unsupported('enum constant %s' % rd.get('name'))
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncVal(rd)
        if rd['kind'] == 'VarDecl':
            key = rd['id']
            if key in self.const_memo:
                return self.const_memo[key]
            d = self.tu.by_id.get(key)
            if d is not None and d.get('inner'):
                ini = [c for c in d['inner'] if 'kind' in c and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
                if ini:
                    v = self.conv(self.ev(ini[-1], State()), qtype(d))
                    if isinstance(v, TupleVal) and len(v) == 1 and isinstance(v[0], TupleVal):
                        v = v[0]
                    self.const_memo[key] = v
                    return v
            if rd.get('name') in ('pi', 'pi_v'):
                import math
                return P(Fraction(math.pi))
            if rd.get('name') in ('sqrt2', 'sqrt2_v', 'sqrt3', 'e', 'ln2'):
                import math
                nm = rd['name'].split('_')[0]
                return P(Fraction({'sqrt2': math.sqrt(2.0), 'sqrt3': math.sqrt(3.0), 'e': math.e, 'ln2': math.log(2)}[nm]))
        raise Unsupported('reference to %s' % rd.get('name'))

    def ex_MemberExpr(self, n, st):
        obj = self.obj_of(n['inner'][0], st)
        nm = n.get('name')
        if isinstance(obj, Obj):
            return self.load(st, ('heap', (obj, nm)))
        mid = n.get('referencedMemberDecl')
        d = self.tu.by_id.get(mid)
        if d is not None and d['kind'] == 'VarDecl' and d.get('inner'):
            return self.ev([c for c in d['inner'] if 'kind' in c][-1], State())
        if isinstance(obj, TupleVal) and nm in ('first', 'second'):
            return obj[0 if nm == 'first' else 1]
        raise Unsupported('member %s of %r' % (nm, obj))

    def ex_ArraySubscriptExpr(self, n, st):
        return self.load(st, self.lv(n, st))

    def ex_ConditionalOperator(self, n, st):
        c = self.cond(n['inner'][0], st)
        d = self.ctx(st).decide(c)
        if d is True:
            return self.ev(n['inner'][1], st)
        if d is False:
            return self.ev(n['inner'][2], st)
        a = self.under(st, c, lambda s: self.ev(n['inner'][1], s))
        b = self.under(st, fnot(c), lambda s: self.ev(n['inner'][2], s))
        try:
            return vite(c, a, b)
        except Unsupported as e:
            raise NeedSplit(c, str(e))

    def under(self, st, c, f):
        s = st.copy()
        s.pc = st.pc + (c,)
        r = f(s)
        if s.arrays != st.arrays or any(not same(s.env[k], st.env[k]) for k in st.env):
            raise Unsupported('side effect in conditional expression')
        return r

    def ex_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.ev(b, st)
            loc = self.lv(a, st)
            cur = self.loc_container(st, loc) if loc[0] != 'elem' else None
            if isinstance(cur, ArrRef) and '*' not in qtype(a):
                self.assign_array(st, cur, v)
                return v
            if is_bool_t(qtype(a)):
                v = self.boolean(v)
            elif is_float_t(qtype(a)) or is_int_t(qtype(a)):
                v = self.num(v)
            self.store(st, loc, v)
            return v
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            x = self.cond(a, st)
            d = self.ctx(st).decide(x)
            if op == '&&':
                if d is False:
                    return FALSE
                if d is True:
                    return self.cond(b, st)
                return f_and(x, self.under(st, x, lambda s: self.cond(b, s)))
            if d is True:
                return TRUE
            if d is False:
                return self.cond(b, st)
            return f_or(x, self.under(st, fnot(x), lambda s: self.cond(b, s)))
        x = self.ev(a, st)
        y = self.ev(b, st)
        return self.binop(op, x, y, st, qtype(n), qtype(a))

    def binop(self, op, x, y, st, t='double', ta='double'):
        if op in ('+', '-') and isinstance(x, ArrRef) and isinstance(y, (Poly, tuple)):
            y = self.num(y) * self.elem_stride(ta)
            return ArrRef(x.block, x.pre, x.off + (y if op == '+' else -y), None, None)
        if isinstance(x, (VecExpr, ArrRef)) or isinstance(y, (VecExpr, ArrRef)):
            if op in ('==', '!=') and (x is None or y is None):
                return FALSE if op == '==' else TRUE
            return self.vecop(op, x, y, st)
        if op in ('==', '!='):
            if isinstance(x, tuple) and isinstance(y, tuple):
                f = iff(x, y)
            elif isinstance(x, StrVal) and isinstance(y, StrVal):
                f = TRUE if x.s == y.s else FALSE
            elif (x is None) != (y is None):
                f = FALSE
            else:
                f = eq(self.num(x), self.num(y))
            return f if op == '==' else fnot(f)
        x, y = self.num(x), self.num(y)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if is_int_t(t):
                return self.int_div(x, y, st)
            if y.is_zero():
                raise Unsupported('division by zero')
            if y.is_const() is False and y.is_zero():
                raise Unsupported('division by zero')
            return x / y
        if op == '%':
            return self.int_mod(x, y, st)
        if op == '<':
            return lt(x, y)
        if op == '<=':
            return le(x, y)
        if op == '>':
            return gt(x, y)
        if op == '>=':
            return ge(x, y)
        if op == '<<' and y.is_const():
            return x * (2 ** y.const_val())
        if op == '&' and y == ONE:
            return imod(x, P(2))
        raise Unsupported('operator %s' % op)

    def int_div(self, x, y, st):
        c = self.ctx(st)
        self.oblige('div', 'divisor nonzero', st, ne(y, 0))
        if not c.prove(gt(y, 0)):
            raise Unsupported('integer division by a possibly negative number')
        if c.prove(ge(x, 0)):
            q, r = poly_divmod(x, y)
            if not q.is_zero() and c.prove(f_and(ge(r, 0), lt(r, y))):
                return q
            return idiv(x, y)
        return ite(ge(x, 0), idiv(x, y), -idiv(-x, y))

    def int_mod(self, x, y, st):
        c = self.ctx(st)
        self.oblige('div', 'divisor nonzero', st, ne(y, 0))
        if not c.prove(gt(y, 0)):
            raise Unsupported('modulus by a possibly negative number')
        if c.prove(ge(x, 0)):
            if c.prove(lt(x, y)):
                return x
            q, r = poly_divmod(x, y)
            if not q.is_zero() and c.prove(f_and(ge(r, 0), lt(r, y))):
                return r
            if c.prove(le(x, y)):
                return ite(eq(x, y), ZERO, x)
            return imod(x, y)
        return ite(ge(x, 0), imod(x, y), -imod(-x, y))

    def ex_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = self.ev(b, st)
        loc = self.lv(a, st)
        if loc[0] == 'elem' and op in ('+', '-') and loc[1].sort == 'r':
            y = self.num(y)
            self.write_full(st, loc[1], loc[2], y if op == '+' else -y, True)
            return None
        x = self.load(st, loc)
        if isinstance(x, ArrRef):
            v = self.binop(op, x, y, st)
        else:
            t = qtype(a)
            v = self.binop(op, x, y, st, t)
        self.store(st, loc, v)
        return v

    def ex_UnaryOperator(self, n, st):
        op = n['opcode']
        a = n['inner'][0]
        if op in ('++', '--'):
            loc = self.lv(a, st)
            x = self.load(st, loc)
            if isinstance(x, ArrRef):
                v = self.binop('+' if op == '++' else '-', x, ONE, st)
            else:
                v = self.num(x) + (1 if op == '++' else -1)
            self.store(st, loc, v)
            return x if n.get('isPostfix') else v
        if op == '-':
            v = self.ev(a, st)
            if isinstance(v, (VecExpr, ArrRef)):
                return self.vecmap(v, lambda x: -x, st)
            return -self.num(v)
        if op == '+':
            return self.ev(a, st)
        if op == '!':
            return fnot(self.cond(a, st))
        if op == '*':
            return self.load(st, self.lv(n, st))
        if op == '&':
            q = a
            while q['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                q = q['inner'][0]
            bi = None
            if q['kind'] == 'CXXOperatorCallExpr' and len(q['inner']) == 3 and self.callee_name(q['inner'][0]) in ('operator[]', 'operator()'):
                bi = q['inner'][1:]
            elif q['kind'] == 'ArraySubscriptExpr':
                bi = q['inner']
            if bi is not None:
                base = self.obj_of(bi[0], st)
                if isinstance(base, ArrRef) and not is_container_t(q['type'].get('desugaredQualType') or q['type']['qualType']):
                    i = self.num(self.ev(bi[1], st))
                    self.lv(a, st)      # bounds of the element
                    return self.binop('+', base, i, st)
            loc = self.lv(a, st)
            v = self.loc_container(st, loc)
            if v is not None:
                return v
            if loc[0] == 'elem':
                # pointer to element: linear offset is lost; rebuild
                raise Unsupported('address of array element')
            return RefVal(loc)
        raise Unsupported('unary %s' % op)

    # ------------------------------------------------------------ vectors
    def asvec(self, v, st):
        if isinstance(v, VecExpr):
            return v
        ln = self.length(st, v)
        if v.dims is not None or (len(v.block.shape) - len(v.pre) == 2 and getattr(v.block, 'matrix', False)):
            dims = v.dims or v.block.shape[len(v.pre):]
            return VecExpr(ln, lambda s, *ij: self.load(s, self.element(s, v, *ij)), dims)
        # reads are deferred: capture the current array contents
        lays = st.arrays.get(v.block, ())

        def f(s, i):
            digits = self.decompose(v.block, v.pre, v.off + i, s, 'vector read')
            return self.read_layers(v.block, lays, v.pre + digits, self.ctx(s))
        return VecExpr(ln, f)

    def vecmap(self, v, g, st):
        v = self.asvec(v, st)
        return VecExpr(v.len, lambda s, *i: g(v.f(s, *i)), v.dims)

    def vecop(self, op, x, y, st):
        sc = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
        if op in ('==', '!=') and isinstance(x, ArrRef) and isinstance(y, ArrRef) and x.block is y.block and x.pre == y.pre:
            # iterators into one array
            return eq(x.off, y.off) if op == '==' else fnot(eq(x.off, y.off))
        if op not in sc:
            raise Unsupported('vector operator %s' % op)
        g = sc[op]
        for a, b in ((x, y), (y, x)):
            if isinstance(a, ArrRef) and getattr(a.block, 'const_alloc', False) and isinstance(b, Poly) and not st.arrays.get(a.block):
                # constant container times a number: again one
                r = self.alloc(st, 'const', list(a.block.shape), 'r', g(a.block.base, b) if a is x else g(b, a.block.base))
                r.block.const_alloc = True
                r.block.matrix = getattr(a.block, 'matrix', False)
                return r
        if isinstance(x, (Poly, tuple)):
            x = self.num(x)
            v = self.asvec(y, st)
            return VecExpr(v.len, lambda s, *i: g(x, v.f(s, *i)), v.dims)
        if isinstance(y, (Poly, tuple)):
            y = self.num(y)
            v = self.asvec(x, st)
            return VecExpr(v.len, lambda s, *i: g(v.f(s, *i), y), v.dims)
        u, v = self.asvec(x, st), self.asvec(y, st)
        if op == '*' and not getattr(self, 'array_ctx', True):
            raise Unsupported('matrix product')
        if u.len is not None and v.len is not None:
            self.oblige('bounds', 'vector sizes agree', st, eq(u.len, v.len))
        return VecExpr(u.len, lambda s, *i: g(u.f(s, *i), v.f(s, *i)), u.dims)

    def matprod(self, x, y, st):
        """Eigen matrix * vector and matrix * matrix"""
        u, v = self.asvec(x, st), self.asvec(y, st)
        if u.dims is None:
            raise Unsupported('vector on the left of a matrix product')
        n = u.dims[1]
        self.oblige('bounds', 'inner dimensions of the product agree', st, eq(n, v.dims[0] if v.dims is not None else v.len))

        def f(s, i, *j):
            t = fresh('s')
            q = self.with_range(s, t, ZERO, n)
            return mksum([(single_atom(t), ZERO, n)], [], u.f(q, i, t) * v.f(q, t, *j), self.ctx(s))
        if v.dims is None:
            return VecExpr(u.dims[0], f)
        return VecExpr(u.dims[0] * v.dims[1], f, (u.dims[0], v.dims[1]))

    def with_range(self, st, v, lo, hi):
        s = st.copy()
        s.pc = st.pc + (le(lo, v), lt(v, hi))
        return s

    def vecsum(self, v, st):
        v = self.asvec(v, st)
        if v.dims is not None:
            i, j = fresh('s'), fresh('s')
            s = self.with_range(st, i, ZERO, v.dims[0])
            s = self.with_range(s, j, ZERO, v.dims[1])
            return mksum([(single_atom(i), ZERO, v.dims[0]), (single_atom(j), ZERO, v.dims[1])], [], v.f(s, i, j), self.ctx(st))
        t = fresh('s')
        s = self.with_range(st, t, ZERO, v.len)
        return mksum([(single_atom(t), ZERO, v.len)], [], v.f(s, t), self.ctx(st))

    def alloc(self, st, name, shape, sort='r', base=None):
        b = Block('%s#%d' % (name, Block._n + 1), shape, sort, base)
        b.fresh_alloc = True
        st.arrays[b] = ()
        return ArrRef(b)

    def sized(self, st, v, name):
        """container `name` taking size and constant value of Zero(...), Ones(...), Constant(...)"""
        n = ONE
        for d in v.block.shape:
            n = n * d
            self.oblige('bounds', 'size of %s is non-negative' % name, st, ge(d, ZERO))
        shape = list(v.block.shape)
        if name in self.local_shapes:
            shape = self.hint_shape(name, n)
            tot = ONE
            for d in shape:
                tot = tot * d
            self.oblige('bounds', 'size given to %s is the contract shape' % name, st, eq(tot, n))
        r = self.alloc(st, name, shape, 'r', v.block.base)
        r.block.fresh_alloc = False
        if len(shape) == 2 and len(v.block.shape) == 2:
            r.block.matrix = True
        return r

    def hint_shape(self, name, n):
        h = self.local_shapes.get(name)
        if h is not None:
            if callable(h):
                h = h(self.K.v)
            return [P(x) for x in h]
        return [n]

    def materialize(self, st, v, name='tmp'):
        if v.dims is not None:
            r = self.alloc(st, name, list(v.dims))
            r.block.matrix = True
        else:
            r = self.alloc(st, name, self.hint_shape(name, v.len))
        r.block.fresh_alloc = False
        self.assign_array(st, r, v)
        return r

    def copy_array(self, st, v, name):
        sh = v.block.shape[len(v.pre):]
        if v.off.is_zero() and v.len is None:
            r = self.alloc(st, name, list(sh), v.block.sort)
            r.block.fresh_alloc = False
            gv = [fresh('g') for _ in sh]
            s = st
            for g, m in zip(gv, sh):
                s = self.with_range(s, g, ZERO, m)
            val = self.read_layers(v.block, self.layers(st, v.block), v.pre + tuple(gv), self.ctx(s))
            st.arrays[r.block] = (Layer('L', [(single_atom(g), ZERO, m) for g, m in zip(gv, sh)], gv, TRUE, val),)
            for at in ('nested', 'matrix'):
                if hasattr(v.block, at):
                    setattr(r.block, at, getattr(v.block, at))
            return r
        r = self.alloc(st, name, [v.len])
        r.block.fresh_alloc = False
        self.assign_array(st, r, v)
        return r

    def assign_array(self, st, dst, v, acc=False, op=None):
        """dst (elementwise) = v"""
        blk = dst.block
        if isinstance(v, (Poly, tuple)):
            c = self.num(v)
            v = VecExpr(None, lambda s, *i: c)
            scalar = True
        else:
            scalar = False
            if isinstance(v, ArrRef) and getattr(v.block, 'fresh_alloc', False) and dst.off.is_zero() and not dst.pre and dst.len is None and blk.shape is not None and len(v.block.shape) == len(blk.shape):
                pass
            v = self.asvec(v, st)
        sh = blk.shape[len(dst.pre):]
        whole = dst.off.is_zero() and dst.len is None
        if not whole and dst.off.is_zero() and dst.len is not None:
            tot = ONE
            for s in sh:
                tot = tot * s
            whole = dst.len == tot
        snap = st.copy()
        if whole and len(sh) >= 1:
            gv = [fresh('g') for _ in sh]
            s = snap
            flat = ZERO
            for g, m in zip(gv, sh):
                s = self.with_range(s, g, ZERO, m)
                flat = flat * m + g
            if v.len is not None and not self.dry and not scalar:
                tot = ONE
                for m in sh:
                    tot = tot * m
                self.oblige('bounds', 'assigned vector sizes agree (%s)' % blk.name, st, eq(v.len, tot))
            if v.dims is not None:
                if len(sh) != 2:
                    raise Unsupported('matrix assigned to %s' % blk.name)
                val = v.f(s, gv[0], gv[1])
            else:
                val = v.f(s, flat)
            l = Layer('A' if acc else 'W', [(single_atom(g), ZERO, m) for g, m in zip(gv, sh)], dst.pre + tuple(gv), TRUE, val)
            st.arrays[blk] = self.layers(st, blk) + (l,)
            return
        if dst.dims is not None:
            i, j = fresh('g'), fresh('g')
            s = self.with_range(snap, i, ZERO, dst.dims[0])
            s = self.with_range(s, j, ZERO, dst.dims[1])
            digits = self.decompose(blk, dst.pre, dst.off + i * dst.dims[1] + j, s, 'matrix write')
            val = v.f(s, i, j)
            l = Layer('A' if acc else 'W', [(single_atom(i), ZERO, dst.dims[0]), (single_atom(j), ZERO, dst.dims[1])], dst.pre + digits, TRUE, val)
            st.arrays[blk] = self.layers(st, blk) + (l,)
            return
        ln = dst.len
        if ln is None:
            ln = self.length(st, dst)
        if v.len is not None and not self.dry and not scalar:
            self.oblige('bounds', 'assigned vector sizes agree (%s)' % blk.name, st, eq(v.len, ln))
        t = fresh('g')
        s = self.with_range(snap, t, ZERO, ln)
        guard = TRUE
        digits = None
        self.strict += 1
        n_ob = len(self.obls)
        try:
            digits = self.decompose(blk, dst.pre, dst.off + t, s, 'range write')
            if any(T.atom(a)[:2] in (('fn', 'idiv'), ('fn', 'imod')) and single_atom(t) in poly_deps(Poly.atom(a)) for d in digits for a in d.atoms()):
                digits = None
        except Unsupported:
            pass
        finally:
            self.strict -= 1
        rows = None
        if digits is None:
            # exactly one row of an outer dimension
            for i in range(1, len(sh)):
                inner = ONE
                for m in sh[i:]:
                    inner = inner * m
                if inner == ln:
                    rows = i
        if digits is not None:
            vars_ = [(single_atom(t), ZERO, ln)]
            flat = t
        elif rows is not None and (lead := self.row_of(blk, dst, sh, rows, snap, n_ob)) is not None:
            gv = [fresh('g') for _ in sh[rows:]]
            s = snap
            flat = ZERO
            for g, m in zip(gv, sh[rows:]):
                s = self.with_range(s, g, ZERO, m)
                flat = flat * m + g
            digits = lead + tuple(gv)
            vars_ = [(single_atom(g), ZERO, m) for g, m in zip(gv, sh[rows:])]
        else:
            # a flat range over several rows: every cell (g0, g1, ...) whose
            # flat position lies in [off, off + ln), compared row-wise
            del self.obls[n_ob:]
            inner = ONE
            for m in sh[1:]:
                inner = inner * m
            tot = inner * sh[0]
            gv = [fresh('g') for _ in sh]
            s = snap
            rest = ZERO
            s = self.with_range(s, gv[0], ZERO, sh[0])
            for g, m in zip(gv[1:], sh[1:]):
                s = self.with_range(s, g, ZERO, m)
                rest = rest * m + g
            least = blk.lo if blk.lo is not None and not dst.pre else ZERO
            most = blk.hi if blk.hi is not None and not dst.pre else tot
            self.oblige('bounds', 'flat range of %s' % blk.name, st, f_or(le(ln, 0), f_and(ge(dst.off, least), le(dst.off + ln, most))))

            def below(x):
                """flat position < x"""
                if x == tot:
                    return TRUE
                if blk.hi is not None and (x == blk.hi or x == blk.lo):
                    # the valid part of a padded array
                    return lt(gv[0] * inner + rest, x)
                q, r = poly_divmod(x, inner)
                if not self.ctx(st).prove(f_and(ge(r, 0), le(r, inner))):
                    raise Unsupported('flat range of %s' % blk.name)
                return f_or(lt(gv[0], q), f_and(eq(gv[0], q), lt(rest, r)))
            guard = f_and(fnot(below(dst.off)), below(dst.off + ln))
            if guard != TRUE:
                s.pc = s.pc + (guard,)
            digits = tuple(gv)
            flat = gv[0] * inner + rest - dst.off
            vars_ = [(single_atom(g), ZERO, m) for g, m in zip(gv, sh)]
        val = v.f(s, flat)
        l = Layer('A' if acc else 'W', vars_, dst.pre + digits, guard, val)
        st.arrays[blk] = self.layers(st, blk) + (l,)

    def row_of(self, blk, dst, sh, rows, snap, n_ob):
        """leading digits of a write that covers one whole row"""
        self.strict += 1
        try:
            d = self.decompose(blk, dst.pre, dst.off, snap, 'row write')
        except Unsupported:
            return None
        finally:
            self.strict -= 1
        if any(not x.is_zero() for x in d[rows:]):
            del self.obls[n_ob:]
            return None
        return tuple(d[:rows])

    # ------------------------------------------------------------ calls
    def callee_name(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl'].get('name')
        if n['kind'] == 'MemberExpr':
            return n.get('name')
        return None

    def callee_ref(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl']
        return None

    def args_for(self, f, nodes, st):
        out = []
        ps = params(f)
        for i, a in enumerate(nodes):
            t = qtype(ps[i]) if i < len(ps) else ''
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'):
                ini = [c for c in ps[i].get('inner', []) if 'kind' in c]
                if not ini:
                    d = self.default_param(f, i)
                    if d is None:
                        raise Unsupported('default argument')
                    ini = [d]
                out.append(self.ev(ini[-1], State()))
                continue
            if '&' in t and '&&' not in t:
                loc = self.lv(a, st)
                v = self.loc_container(st, loc)
                if v is None:
                    v = RefVal(loc) if loc[0] != 'tmp' else loc[1]
                if 'span' in t and isinstance(v, VecExpr):
                    v = self.materialize(st, v)
                out.append(v)
            else:
                v = self.ev(a, st)
                if isinstance(v, VecExpr):
                    v = self.materialize(st, v)
                elif isinstance(v, ArrRef) and (strip(t).startswith('Eigen::Matrix') or strip(t).startswith('std::vector')):
                    v = self.copy_array(st, v, 'arg')
                out.append(v)
        return out

    def default_param(self, f, i):
        m = f.get('mangledName')
        for n in self.tu.by_id.values():
            if n.get('kind') == f['kind'] and n.get('mangledName') == m:
                ps = params(n)
                if i < len(ps):
                    ini = [c for c in ps[i].get('inner', []) if 'kind' in c]
                    if ini:
                        return ini[-1]
        return None

    def inline(self, f, args, this, st):
        nm = f.get('name')
        c = self.contracts.get(nm)
        if c is not None and nm not in getattr(self, 'no_contract', ()):
            self.called_contracts.add(nm)
            return c(self, st, this, args)
        if self.depth > 12:
            raise Unsupported('inlining depth')
        self.inlined.add(nm)
        saved = self.this, self.ret_ref
        self.this = this
        self.ret_ref = bool(re.match(r'^(auto )?(const )?(double|int|float|bool|long|unsigned[a-z ]*|std::size_t|size_t) &', f.get('type', {}).get('qualType', '')) or
                            re.search(r'-> (const )?(double|int|float|bool) &', f.get('type', {}).get('qualType', '')))
        self.depth += 1
        try:
            base = st.pc
            s = st.copy()
            self.bind_params(s, f, args)
            o = self.exec(body(f), s)
        finally:
            self.this, self.ret_ref = saved
            self.depth -= 1
        outs = list(o.rets)
        if o.normal is not None:
            outs.append((o.normal, None))
        if not outs:
            raise Aborted()
        if len(outs) == 1:
            r, v = outs[0]
        else:
            r, v = outs[0]
            for s2, v2 in outs[1:]:
                cond = f_and(*s2.pc[len(base):])
                alt = f_and(*r.pc[len(base):])
                v = self.merge_ret(cond, v2, v)
                r = self.merge(cond, s2, r, base + (f_or(cond, alt),))
        keep = set(st.env)
        st.env = {k: x for k, x in r.env.items()}
        st.heap = r.heap
        st.arrays = r.arrays
        x = f_and(*r.pc[len(base):])
        if x == TRUE or Ctx(self.pre + base).prove(x):
            st.pc = base
        else:
            st.pc = r.pc
        return v

    def merge_ret(self, c, a, b):
        if a is None and b is None:
            return None
        if isinstance(a, StatusVal) and isinstance(b, StatusVal):
            val = a.value if b.value is None else (b.value if a.value is None else self.merge_ret(c, a.value, b.value))
            return StatusVal(vite(c, a.ok, b.ok), val)
        if isinstance(a, StrVal) and isinstance(b, StrVal) and a == b:
            return a
        return vite(c, a, b)

    def ex_CallExpr(self, n, st):
        ref = self.callee_ref(n['inner'][0])
        if ref is None:
            me = n['inner'][0]
            while me['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'UnaryOperator') and me.get('inner'):
                me = me['inner'][0]
            c = self.contracts.get(me.get('name')) if me['kind'] == 'MemberExpr' else None
            if c is not None:       # function pointer known by contract
                self.called_contracts.add(me['name'])
                return c(self, st, None, [self.ev(a, st) for a in n['inner'][1:]])
            raise Unsupported('indirect call')
        name = ref.get('name')
        nodes = n['inner'][1:]
        if ref['id'] in st.env:
            v = st.env[ref['id']]
            if isinstance(v, LamVal):
                return self.call_lambda(v, [self.ev(a, st) for a in nodes], st)
        f = self.tu.resolve(ref)
        if f is not None and name not in self.lib_override:
            return self.inline(f, self.args_for(f, nodes, st), None, st)
        c = self.contracts.get(name)
        if c is not None:
            self.called_contracts.add(name)
            return c(self, st, None, [self.ev(a, st) for a in nodes])
        return self.lib(name, nodes, st, n)

    lib_override = ()
    ret_ref = False

    def call_lambda(self, lam, args, st):
        keys = set(st.env)
        r = self.inline(lam.node, args, lam.this, st)
        if not isinstance(r, RefVal):
            for k in [k for k in st.env if k not in keys]:
                # parameters and locals of the call
                del st.env[k]
        return r

    def ex_LambdaExpr(self, n, st):
        rec = n['inner'][0]
        for c in rec.get('inner', []):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                if not body(c):
                    b = [x for x in n['inner'] if x.get('kind') == 'CompoundStmt']
                    c = dict(c)
                    c['inner'] = c.get('inner', []) + b
                return LamVal(c, self.this)
            if c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                return LamVal(c, self.this)
        raise Unsupported('lambda')

    def ex_CXXMemberCallExpr(self, n, st):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call')
        name = me['name']
        nodes = n['inner'][1:]
        obj = self.obj_of(me['inner'][0], st)
        if isinstance(obj, Obj):
            ref = {'id': me.get('referencedMemberDecl'), 'name': name}
            c = self.contracts.get(name)
            if getattr(c, 'raw', False):
                self.called_contracts.add(name)
                return c(self, st, obj, self.contract_args(c, nodes, st))
            f = self.tu.resolve(ref)
            if f is not None:
                return self.inline(f, self.args_for(f, nodes, st), obj, st)
            c = self.contracts.get(name)
            if c is not None:
                self.called_contracts.add(name)
                return c(self, st, obj, self.contract_args(c, nodes, st))
            raise Unsupported('method %s of %r' % (name, obj))
        if name in ('resize', 'assign', 'setZero', 'setConstant') and isinstance(obj, ArrRef) and (name in ('resize', 'assign') or (nodes and (name == 'setZero' or len(nodes) > 1))):
            return self.resize(obj, name, me, nodes, st)
        return self.lib_method(obj, name, nodes, st, n)

    def resize(self, obj, name, me, nodes, st):
        self.lib_used.add('.' + name)
        t = strip(qtype(me['inner'][0]))
        vals = [self.num(self.ev(a, st)) for a in nodes if a.get('kind') != 'CXXDefaultArgExpr']
        eigen = 'vector' not in t.split('<')[0] or 'Eigen' in t
        is_vec = 'std::vector' in t or t.startswith('vector')
        fill = None
        if name == 'setZero':
            fill, dims = ZERO, vals
        elif name == 'setConstant':
            fill, dims = vals[-1], vals[:-1]
        elif name == 'assign' or (is_vec and len(vals) == 2):
            fill, dims = vals[1], vals[:1]
        else:
            dims = vals
        n = ONE
        for d in dims:
            n = n * d
        cur = self.length(st, obj)
        c = self.ctx(st)
        same_len = c.prove(eq(cur, n))
        if same_len and fill is None:
            return None
        loc = self.lv(me['inner'][0], st)
        if is_vec and name == 'resize':
            if not c.prove(eq(cur, ZERO)):
                raise Unsupported('resize of a non-empty vector')
            if fill is None:
                fill = ZERO
        if same_len and (not is_vec or name == 'assign'):
            fv = fill
            self.assign_array(st, obj, VecExpr(n, lambda i: fv) if len(dims) == 1 else VecExpr(n, lambda i, j: fv, tuple(dims)))
            return None
        if loc[0] == 'env' and loc[1] in self.ref_vars or loc[0] not in ('env', 'heap'):
            raise Unsupported('resize through a reference')
        if True:
            nm = self.loc_name(loc)
            shape = self.hint_shape(nm, n) if len(dims) == 1 else [P(d) for d in dims]
            if len(dims) == 1 and len(shape) > 1:
                tot = ONE
                for d in shape:
                    tot = tot * d
                self.oblige('bounds', 'size given to resize of %s is the contract shape' % nm, st, le(tot, n))
        for d in dims:
            self.oblige('bounds', 'resize: size is non-negative', st, ge(d, ZERO))
        r = self.alloc(st, self.loc_name(loc), shape, obj.block.sort, fill)
        r.block.fresh_alloc = False
        if len(dims) == 2:
            r.block.matrix = True
        self.store(st, loc, r)
        return None

    def loc_name(self, loc):
        if loc[0] == 'heap':
            return loc[1][1]
        if loc[0] == 'env':
            return self.var_names.get(loc[1], 'v')
        return 'v'

    def ex_CXXOperatorCallExpr(self, n, st):
        op = self.callee_name(n['inner'][0])
        if op == 'operator()':
            o = self.loc_container(st, self.lv(n['inner'][1], st))
            if isinstance(o, LamVal):
                f = o.node
                return self.call_lambda(o, self.args_for(f, n['inner'][2:], st), st)
            if isinstance(o, Obj) and op in self.contracts:
                self.called_contracts.add(op)
                return self.contracts[op](self, st, o, [self.ev(a, st) for a in n['inner'][2:]])
        if op in ('operator[]', 'operator()'):
            loc = self.lv(n, st)
            return self.load(st, loc)
        if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
            loc = self.lv(n['inner'][1], st)
            v = self.ev(n['inner'][2], st)
            o = op[8:-1]
            if o == '' and isinstance(v, ArrRef) and getattr(v.block, 'const_alloc', False) and loc[0] in ('env', 'heap') and not (loc[0] == 'env' and loc[1] in self.ref_vars):
                self.store(st, loc, self.sized(st, v, self.loc_name(loc)))
                return None
            dst = self.loc_container(st, loc)
            if o == '' and isinstance(dst, Obj) and isinstance(v, Obj) and op in self.contracts:
                self.called_contracts.add(op)
                self.contracts[op](self, st, dst, [v])
                return dst
            if isinstance(dst, ArrRef):
                if o == '':
                    if isinstance(v, ArrRef) and loc[0] in ('env', 'heap') and self.is_view_type(qtype(n['inner'][1])):
                        self.store(st, loc, v)      # re-seating a span / pointer
                        return v
                    self.assign_resize(st, loc, dst, v, qtype(n['inner'][1]))
                elif o in ('+', '-') and isinstance(v, (VecExpr, ArrRef)):
                    self.assign_array(st, dst, v if o == '+' else self.vecmap(v, lambda x: -x, st), acc=True)
                else:
                    self.assign_array(st, dst, self.vecop(o, dst, v, st))
                return dst
            if o == '':
                if isinstance(v, VecExpr):
                    v = self.materialize(st, v)
                self.store(st, loc, v)
                return v
            raise Unsupported('operator %s' % op)
        if op in ('operator+', 'operator-', 'operator*', 'operator/', 'operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
            vals = [self.ev(x, st) for x in n['inner'][1:]]
            o = op[8:]
            if o == '*' and len(vals) == 1:
                if isinstance(vals[0], StatusVal):
                    return vals[0].value
                if isinstance(vals[0], ArrRef) and not is_container_t(strip(qtype(n)).rstrip('& ')):
                    return self.load(st, self.element(st, vals[0], ZERO))
                return vals[0]
            if len(vals) == 1 and o == '-':
                return self.vecmap(vals[0], lambda x: -x, st)
            if o == '*' and re.match(r'(const )?(Eigen::)?Product<', qtype(n)):
                return self.matprod(vals[0], vals[1], st)
            return self.binop(o, vals[0], vals[1], st)
        if op == 'operator->':
            v = self.obj_of(n['inner'][1], st)
            return v.value if isinstance(v, StatusVal) else v
        if op == 'operator<<':
            # stream output: no effect on the modelled state
            self.ev_quiet(n['inner'][1], st)
            return None
        if op == 'operator!':
            return fnot(self.boolean(self.ev(n['inner'][1], st)))
        raise Unsupported('operator call %s' % op)

    def ev_quiet(self, n, st):
        if self.is_fatal(n):
            self.abort(st)
        return None

    def is_fatal(self, n):
        if 'verif_shim::Fatal' in qtype(n):
            return True
        return any(self.is_fatal(c) for c in n.get('inner', []) if isinstance(c, dict) and 'kind' in c)

    def abort(self, st):
        if self.check_abort:
            self.oblige('no-abort', 'CHECK cannot fail', st, FALSE)
        raise Aborted()

    def is_view_type(self, t):
        s = strip(t)
        return s.startswith('std::span') or s.startswith('span') or '*' in s

    def assign_resize(self, st, loc, dst, v, t):
        """Eigen/vector assignment; a size change is modelled only when the
        shapes are syntactically compatible"""
        if isinstance(v, ArrRef) and loc[0] in ('env', 'heap') and dst.off.is_zero() and dst.len is None and not dst.pre:
            if len(v.block.shape) - len(v.pre) == len(dst.block.shape) and v.off.is_zero() and v.len is None:
                # whole array copy: new contents, shape of the source
                same_shape = all(a == b for a, b in zip(v.block.shape[len(v.pre):], dst.block.shape))
                if not same_shape:
                    self.store(st, loc, self.copy_array(st, v, dst.block.name))
                    return
                gv = [fresh('g') for _ in dst.block.shape]
                s = st
                for g, m in zip(gv, dst.block.shape):
                    s = self.with_range(s, g, ZERO, m)
                val = self.read_layers(v.block, self.layers(st, v.block), v.pre + tuple(gv), self.ctx(s))
                st.arrays[dst.block] = self.layers(st, dst.block) + (
                    Layer('W', [(single_atom(g), ZERO, m) for g, m in zip(gv, dst.block.shape)], gv, TRUE, val),)
                return
        if isinstance(v, VecExpr) and loc[0] in ('env', 'heap') and dst.off.is_zero() and dst.len is None and not dst.pre and \
                len(dst.block.shape) == 1 and dst.block.shape[0].is_zero() and not (loc[0] == 'env' and loc[1] in self.ref_vars):
            self.store(st, loc, self.materialize(st, v, dst.block.name))    # an empty container takes the size of the value
            return
        self.assign_array(st, dst, v)

    # ---- constructors
    def ex_CXXConstructExpr(self, n, st):
        t = strip(qtype(n))
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if 'verif_shim::Fatal' in t:
            self.abort(st)
        if t.startswith('Eigen::Map') or t.startswith('Map<'):
            p = self.ev(args[0], st)
            sz = [self.num(self.ev(a, st)) for a in args[1:]]
            if not isinstance(p, ArrRef):
                raise Unsupported('Map of %r' % (p,))
            if len(sz) == 1:
                return ArrRef(p.block, p.pre, p.off, sz[0])
            if len(sz) == 2:
                return ArrRef(p.block, p.pre, p.off, None, (sz[0], sz[1]))
            return p
        if 'span<' in t.split('(')[0] and (t.startswith('std::span') or t.startswith('span')):
            v = self.ev(args[0], st) if args else None
            if isinstance(v, VecExpr):
                v = self.materialize(st, v)
            if len(args) == 2:
                ln = self.num(self.ev(args[1], st))
                return ArrRef(v.block, v.pre, v.off, ln)
            return v
        if t.startswith('Eigen::Matrix') or t.startswith('Matrix<') or t.startswith('std::vector') or t.startswith('vector<') or t.startswith('std::array'):
            return self.make_vector(t, args, st)
        if not args:
            base = t.split('<')[0].split('::')[-1]
            if base in self.tu.records:
                return self.new_struct(base, st)
            if 'basic_string' in t:
                return StrVal('')
            return Opaque(t)
        if len(args) == 1:
            v = self.ev(args[0], st)
            if 'StatusOr' in t and not isinstance(v, StatusVal):
                return StatusVal(TRUE, v)
            if 'absl::Status' in t and isinstance(v, StatusVal):
                return v
            if isinstance(v, Obj) and v.cls:
                return self.copy_struct(v, st) if v.local or True else v
            return v
        base = t.split('<')[0].split('::')[-1]
        if 'pair' in t or 'tuple' in t:
            return TupleVal([self.ev(a, st) for a in args])
        if base in self.tu.records:
            return self.construct(base, args, n, st)
        raise Unsupported('constructor of %s' % t)
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def construct(self, base, args, n, st):
        ct = n.get('ctorType', {}).get('qualType', '')
        cands = [f for f in self.tu.find(base, cls=base, nparams=len(args))]
        if len(cands) != 1:
            cands = [f for f in cands if f.get('type', {}).get('qualType') == ct]
        if len(cands) != 1:
            raise Unsupported('constructor of %s' % base)
        o = self.new_struct(base, st)
        f = cands[0]
        a = self.args_for(f, args, st)
        s = st.copy()
        self.bind_params(s, f, a)
        self.ctor_init(f, o, s)
        st.heap = s.heap
        st.arrays = s.arrays
        self.inline(f, a, o, st)
        return o

    def new_struct(self, base, st):
        o = Obj('%s#%d' % (base, Obj._n + 1), base, {}, local=True)
        rec = self.tu.records[base]
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                ini = [x for x in c.get('inner', []) if 'kind' in x and not x['kind'].endswith('Comment')]
                if ini and c.get('hasInClassInitializer'):
                    try:
                        o.fields[c['name']] = self.conv(self.ev(ini[-1], st), qtype(c))
                    except Unsupported:
                        pass
        return o

    def copy_struct(self, v, st):
        o = Obj('%s#%d' % (v.cls, Obj._n + 1), v.cls, {}, local=True)
        rec = self.tu.records.get(v.cls)
        if rec is None:
            return v
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                try:
                    x = self.get_field(st, v, c['name'])
                except Unsupported:
                    continue
                if isinstance(x, ArrRef) and not self.is_view_type(qtype(c)):
                    x = self.copy_array(st, x, c['name'])
                st.heap[(o, c['name'])] = x
        return o

    def make_vector(self, t, args, st):
        name = 'v'
        if not args:
            if t.startswith('std::array') or re.match(r'(Eigen::)?Matrix<double, \d+, 1', t):
                m = re.search(r'(\d+)>?$', t) if t.startswith('std::array') else re.search(r'Matrix<double, (\d+), 1', t)
                return self.alloc(st, name, [P(int(m.group(1)))])
            return self.alloc(st, name, [ZERO])
        v0 = self.ev(args[0], st)
        sort = 'i' if re.search(r'<(int|long|unsigned|size_t)', t) else ('b' if '<bool' in t else 'r')
        if isinstance(v0, (ArrRef,)):
            if len(args) == 1:
                return self.copy_array(st, v0, name) if not getattr(v0.block, 'fresh_alloc', False) else v0
            raise Unsupported('vector(begin,end)')
        if isinstance(v0, VecExpr):
            return v0
        if isinstance(v0, TupleVal):
            r = self.alloc(st, name, [P(len(v0))], sort)
            for i, x in enumerate(v0):
                self.write_digits(st, r.block, (P(i),), self.num(x))
            return r
        n0 = self.num(v0)
        if t.startswith('Eigen::Matrix<double, -1, -1') or t.startswith('Matrix<double, -1, -1'):
            n1 = self.num(self.ev(args[1], st))
            r = self.alloc(st, name, [n0, n1])
            r.block.matrix = True
            return r
        base = None
        if len(args) >= 2:
            x = self.ev(args[1], st)
            if isinstance(x, ArrRef):
                # vector of vectors
                r = self.alloc(st, name, [n0] + list(x.block.shape), x.block.sort, x.block.base if isinstance(x.block.base, Poly) else None)
                r.block.nested = 1 + getattr(x.block, 'nested', 0)
                return r
            base = self.num(x)
        elif 'vector' in t:
            base = ZERO
        r = self.alloc(st, name, [n0], sort, base)
        return r

    def ex_InitListExpr(self, n, st):
        t = strip(qtype(n))
        inner = [c for c in n.get('inner', []) if 'kind' in c]
        if is_float_t(t) or is_int_t(t) or is_bool_t(t):
            return self.ev(inner[0], st) if inner else ZERO
        base = t.split('<')[0].split('::')[-1]
        if base in self.tu.records:
            o = self.new_struct(base, st)
            flds = [c for c in self.tu.records[base].get('inner', []) if c.get('kind') == 'FieldDecl']
            for f, e in zip(flds, inner):
                if e['kind'] == 'CXXDefaultInitExpr' and not e.get('inner'):
                    continue
                v = self.ev(e, st)
                if isinstance(v, VecExpr):
                    v = self.materialize(st, v)
                st.heap[(o, f['name'])] = v
            return o
        return TupleVal([self.ev(c, st) for c in inner])

    def ex_CXXStdInitializerListExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ex_CXXNewExpr(self, n, st):
        raise Unsupported('new')

    # ---- library functions (assumed contracts; recorded)
    def lib(self, name, nodes, st, n):
        self.lib_used.add(name)
        m = LIB.get(name)
        if m is None:
            raise Unsupported('call to %s' % name)
        return m(self, nodes, st, n)

    def lib_method(self, obj, name, nodes, st, n):
        self.lib_used.add('.' + name)
        if isinstance(obj, StatusVal):
            if name in ('ok', 'has_value'):
                return obj.ok
            if name == 'value':
                return obj.value
            if name in ('message', 'status', 'ToString'):
                return obj if name == 'status' else StrVal('?')
        if isinstance(obj, Opaque):
            return Opaque(name)
        if isinstance(obj, TupleVal):
            if name == 'size':
                return P(len(obj))
        if isinstance(obj, (ArrRef, VecExpr)):
            m = VMETH.get(name)
            if m is not None:
                return m(self, obj, nodes, st)
        raise Unsupported('method %s of %r' % (name, obj))


class NeedSplit(Unsupported):
    """a value that depends on cond and cannot be merged: split the execution"""

    def __init__(self, cond, why):
        Unsupported.__init__(self, why)
        self.cond = cond


class Opaque:
    def __init__(self, what):
        self.what = what


class ElemPtr:
    def __init__(self, loc):
        self.loc = loc


class FuncVal:
    def __init__(self, rd):
        self.rd = rd


DEFAULT_ARG = object()


def common_prefix(states):
    p = states[0].pc
    for s in states[1:]:
        n = 0
        while n < len(p) and n < len(s.pc) and p[n] == s.pc[n]:
            n += 1
        p = p[:n]
    return p


def _un(f):
    return lambda M, a, st, n: f(M.num(M.ev(a[0], st)))


def _fill(M, a, st, n):
    r = M.obj_of(a[0], st)
    v = M.num(M.ev(a[1], st))
    M.assign_array(st, r, v)


def _copy_range(M, a, st, n):
    """std::copy(first, last, out): copies first..last forward"""
    b, e, d = [M.ev(x, st) for x in a[:3]]
    if not all(isinstance(x, ArrRef) for x in (b, e, d)) or b.block is not e.block or b.pre != e.pre:
        raise Unsupported('copy of this range')
    ln = e.off - b.off
    M.oblige('bounds', 'copied range is not reversed', st, le(ZERO, ln))
    if d.block is b.block:
        M.oblige('bounds', 'forward copy does not read what it has written', st, f_or(le(d.off, b.off), le(b.off + ln, d.off)))
    M.assign_array(st, ArrRef(d.block, d.pre, d.off, ln), ArrRef(b.block, b.pre, b.off, ln))
    return ArrRef(d.block, d.pre, d.off + ln)


def _fill_n(M, a, st, n):
    r = M.obj_of(a[0], st)
    cnt = M.num(M.ev(a[1], st))
    v = M.num(M.ev(a[2], st))
    M.assign_array(st, ArrRef(r.block, r.pre, r.off, cnt), v)


def _minmax(mn):
    def f(M, a, st, n):
        if not a:
            # std::numeric_limits<double>::min() / max()
            if is_float_t(strip(qtype(n))):
                return P(Fraction(2.2250738585072014e-308 if mn else 1.7976931348623157e308))
            raise Unsupported('numeric limit')
        if len(a) == 1:
            v = M.ev(a[0], st)
            if isinstance(v, TupleVal):
                vals = [M.num(x) for x in v]
                r = vals[0]
                for y in vals[1:]:
                    r = ite(lt(y, r), y, r) if mn else ite(lt(r, y), y, r)
                return r
            raise Unsupported('min/max')
        x = M.num(M.ev(a[0], st))
        y = M.num(M.ev(a[1], st))
        c = M.ctx(st)
        f_ = lt(y, x) if mn else lt(x, y)
        d = c.decide(f_)
        if d is True:
            return y
        if d is False:
            return x
        return ite(f_, y, x)
    return f


def _copysign(M, a, st, n):
    x = M.num(M.ev(a[0], st))
    y = M.num(M.ev(a[1], st))
    ax = absr(x)
    return ite(ge(y, 0), ax, -ax)


def _pow(M, a, st, n):
    return T.pow_(M.num(M.ev(a[0], st)), M.num(M.ev(a[1], st)))


def _abs(M, a, st, n):
    x = M.num(M.ev(a[0], st))
    c = M.ctx(st)
    f_ = ge(x, 0)
    d = c.decide(f_)
    if d is True:
        return x
    if d is False:
        return -x
    return absr(x)


def _ok(M, a, st, n):
    return StatusVal(TRUE)


def _err(M, a, st, n):
    return StatusVal(FALSE)


def _distance(M, a, st, n):
    x, y = M.ev(a[0], st), M.ev(a[1], st)
    if not (isinstance(x, ArrRef) and isinstance(y, ArrRef) and x.block is y.block and x.pre == y.pre):
        raise Unsupported('distance of different arrays')
    return y.off - x.off



LIB = {
    'sqrt': _un(sqrt_), 'cos': _un(cos_), 'sin': _un(sin_), 'abs': _abs, 'fabs': _abs,
    'tan': _un(lambda x: fn('tan', x)), 'exp': _un(lambda x: fn('exp', x)), 'log': _un(lambda x: fn('log', x)),
    'tanh': _un(lambda x: fn('tanh', x)), 'cosh': _un(lambda x: fn('cosh', x)), 'atan': _un(lambda x: fn('atan', x)),
    'sinh': _un(lambda x: fn('sinh', x)), 'acos': _un(lambda x: fn('acos', x)),
    'atan2': lambda M, a, st, n: fn('atan2', M.num(M.ev(a[0], st)), M.num(M.ev(a[1], st))),
    'distance': _distance,
    'hypot': lambda M, a, st, n: sqrt_(M.num(M.ev(a[0], st)) ** 2 + M.num(M.ev(a[1], st)) ** 2),
    'floor': _un(lambda x: x if x.is_int() else fn('floor', x, sort='i')),
    'pow': _pow, 'min': _minmax(True), 'max': _minmax(False), 'copysign': _copysign,
    'signbit': lambda M, a, st, n: lt(M.num(M.ev(a[0], st)), 0),
    'copy': _copy_range, 'c_fill': _fill, 'c_fill_n': _fill_n, 'fill': None, 'fill_n': _fill_n,
    'OkStatus': _ok, 'InvalidArgumentError': _err, 'InternalError': _err, 'NotFoundError': _err, 'UnknownError': _err, 'CancelledError': _err, 'FailedPreconditionError': _err, 'OutOfRangeError': _err, 'UnimplementedError': _err,
    'FailedPreconditionError': _err, 'OutOfRangeError': _err, 'UnimplementedError': _err,
    'move': lambda M, a, st, n: M.obj_of(a[0], st), 'forward': lambda M, a, st, n: M.obj_of(a[0], st),
    'StrFormat': lambda M, a, st, n: StrVal('?'), 'StrCat': lambda M, a, st, n: StrVal('?'),
    'isfinite': lambda M, a, st, n: ('pred', 'isfinite', (M.num(M.ev(a[0], st)),)),
    'isnan': lambda M, a, st, n: ('pred', 'isnan', (M.num(M.ev(a[0], st)),)),
    'printf': lambda M, a, st, n: None,
}


def _range_fill(M, a, st, n):
    # std::fill(v.begin(), v.end(), x)
    b = M.ev(a[0], st)
    v = M.num(M.ev(a[2], st))
    if isinstance(b, ArrRef):
        e = M.ev(a[1], st)
        if isinstance(e, ArrRef) and e.block is b.block:
            ln = e.off - b.off
            M.assign_array(st, ArrRef(b.block, b.pre, b.off, ln), v)
            return
    raise Unsupported('std::fill')


LIB['fill'] = _range_fill


def _const(value, last=False):
    def f(M, a, st, n):
        vals = [M.num(M.ev(x, st)) for x in a]
        x = vals.pop() if last else value
        if not 1 <= len(vals) <= 2:
            raise Unsupported('constant of %d dimensions' % len(vals))
        r = M.alloc(st, 'const', vals, 'r', x)
        r.block.const_alloc = True
        if len(vals) == 2:
            r.block.matrix = True
        return r
    return f


LIB.update(Zero=_const(ZERO), Ones=_const(ONE), Constant=_const(None, True))


def _vm(f):
    return f


def _seg(M, o, a, st):
    s = M.num(M.ev(a[0], st))
    ln = M.num(M.ev(a[1], st))
    if isinstance(o, VecExpr):
        return VecExpr(ln, lambda q, i: o.f(q, s + i))
    return ArrRef(o.block, o.pre, o.off + s, ln)


def _subspan(M, o, a, st):
    a = [x for x in a if not (x['kind'] == 'CXXDefaultArgExpr')]
    s = M.num(M.ev(a[0], st))
    ln = M.num(M.ev(a[1], st)) if len(a) > 1 else M.length(st, o) - s
    return ArrRef(o.block, o.pre, o.off + s, ln)


def _head(M, o, a, st):
    return _seg2(M, o, ZERO, M.num(M.ev(a[0], st)))


def _tail(M, o, a, st):
    ln = M.num(M.ev(a[0], st))
    return _seg2(M, o, M.length(st, o) - ln, ln)


def _seg2(M, o, s, ln):
    if isinstance(o, VecExpr):
        return VecExpr(ln, lambda q, i: o.f(q, s + i))
    return ArrRef(o.block, o.pre, o.off + s, ln)


def _cw(g):
    def f(M, o, a, st):
        u = M.asvec(o, st)
        v = M.asvec(M.obj_of(a[0], st), st)
        if u.len is not None and v.len is not None:
            M.oblige('bounds', 'vector sizes agree', st, eq(u.len, v.len))
        return VecExpr(u.len, lambda s, *i: g(u.f(s, *i), v.f(s, *i)), u.dims)
    return f


def _dot(M, o, a, st):
    return M.vecsum(_cw(lambda x, y: x * y)(M, o, a, st), st)


def _map1(g):
    return lambda M, o, a, st: M.vecmap(o, g, st)


def _dims(M, o, st):
    if isinstance(o, VecExpr):
        return o.dims
    return o.dims or o.block.shape[len(o.pre):]


def _row(M, o, a, st):
    i = M.num(M.ev(a[0], st))
    if isinstance(o, VecExpr):
        return VecExpr(o.dims[1], lambda s, j: o.f(s, i, j))
    d = _dims(M, o, st)
    M.oblige('bounds', 'row index', st, f_and(ge(i, 0), lt(i, d[0])))
    if o.dims is None:
        return ArrRef(o.block, o.pre + (i,), ZERO, d[1])
    return ArrRef(o.block, o.pre, o.off + i * d[1], d[1])


def _col(M, o, a, st):
    j = M.num(M.ev(a[0], st))
    v = o if isinstance(o, VecExpr) else M.asvec(o, st)
    return VecExpr(v.dims[0], lambda s, i: v.f(s, i, j))


def _set(M, o, a, st):
    M.assign_array(st, o, M.num(M.ev(a[0], st)))
    return o


def _setzero(M, o, a, st):
    if a:
        raise Unsupported('setZero(n)')
    M.assign_array(st, o, ZERO)
    return o


def _resize(M, o, a, st):
    n = M.num(M.ev(a[0], st))
    M.oblige('bounds', 'resize keeps the contract size', st, eq(n, M.length(st, o)))
    return None


def _begin(M, o, a, st):
    return o


def _end(M, o, a, st):
    return ArrRef(o.block, o.pre, o.off + M.length(st, o))


def _size(M, o, a, st):
    return M.length(st, o)


def _transpose(M, o, a, st):
    v = M.asvec(o, st)
    if v.dims is None:
        return v
    return VecExpr(v.len, lambda s, i, j: v.f(s, j, i), (v.dims[1], v.dims[0]))


VMETH = {
    'setZero': _setzero, 'setConstant': _set, 'fill': _set, 'segment': _seg, 'head': _head, 'tail': _tail, 'subspan': _subspan,
    'first': _head, 'last': _tail, 'row': _row, 'col': _col,
    'array': lambda M, o, a, st: o, 'matrix': lambda M, o, a, st: o, 'noalias': lambda M, o, a, st: o, 'eval': lambda M, o, a, st: o,
    'derived': lambda M, o, a, st: o, 'cwiseProduct': _cw(lambda x, y: x * y), 'cwiseQuotient': _cw(lambda x, y: x / y),
    'dot': _dot, 'sum': lambda M, o, a, st: M.vecsum(o, st),
    'squaredNorm': lambda M, o, a, st: M.vecsum(M.vecmap(o, lambda x: x * x, st), st),
    'norm': lambda M, o, a, st: sqrt_(M.vecsum(M.vecmap(o, lambda x: x * x, st), st)),
    'square': _map1(lambda x: x * x), 'abs2': _map1(lambda x: x * x), 'cwiseAbs2': _map1(lambda x: x * x),
    'abs': _map1(absr), 'cwiseAbs': _map1(absr), 'sqrt': _map1(sqrt_), 'cwiseSqrt': _map1(sqrt_), 'inverse': _map1(lambda x: inv(x)), 'cwiseInverse': _map1(lambda x: inv(x)),
    'size': _size, 'rows': lambda M, o, a, st: _dims(M, o, st)[0], 'cols': lambda M, o, a, st: _dims(M, o, st)[1],
    'data': lambda M, o, a, st: o, 'empty': lambda M, o, a, st: eq(M.length(st, o), 0),
    'begin': _begin, 'end': _end, 'resize': _resize, 'transpose': _transpose, 'mean': lambda M, o, a, st: M.vecsum(o, st) / M.length(st, o),
    'operator[]': None,
}
