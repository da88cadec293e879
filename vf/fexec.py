"""Symbolic executor / verification-condition generator for the Fortran subset.

Integers are mathematical (narrowing assignments produce range obligations),
reals are mathematical.  Sequential semantics; OpenMP privatisation is modelled
(private variables are undefined at the start of each iteration) and every
access is logged for the race check.
"""
import math
import z3
from fractions import Fraction
from . import sym
from .sym import (I, R, B, fresh, fresh_fn, to_real, iv, conc, And, Or, Not, If, SUM, EX, ALL,
                  FIRST, FOLD, realfn, solve, contains_decl)


class Unsupported(Exception):
    pass


KINDS = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'real32': 4, 'real64': 8, 'real128': 16,
         'sp': 4, 'dp': 8, 'p': 8, '1': 1, '2': 2, '4': 4, '8': 8, '16': 16}


# ---------------------------------------------------------------- array values
class AV:
    """array value: extents (z3 Int list), fn: 0-based index tuple -> term"""

    def __init__(self, shape, fn, base):
        self.shape, self.fn, self.base = shape, fn, base


class DV:
    """derived-type value (array or scalar): comps name -> AV or term"""

    def __init__(self, tname, comps):
        self.tname, self.comps = tname, comps


class Arr:
    """functional array over canonical storage indices"""
    __slots__ = ('kind', 'a', 'cache', 'rank')

    def __init__(self, kind, *a, rank=None):
        self.kind, self.a, self.cache = kind, a, {}
        if rank is None:
            if kind in ('store', 'region'):
                rank = a[0].rank
            elif kind == 'ite':
                rank = a[1].rank
        self.rank = rank

    def get(self, idx):
        key = tuple(x.get_id() for x in idx)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        v = self._get(idx)
        self.cache[key] = (idx, v)
        return v

    def _get(self, idx):
        k, a = self.kind, self.a
        if k == 'fn':
            return a[0](idx)
        if k == 'store':
            prev, at, v = a
            c = z3.simplify(And(*[x == y for x, y in zip(idx, at)]))
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return prev.get(idx)
            return If(c, v, prev.get(idx))
        if k == 'region':       # prev, member(idx), fn(idx)
            prev, mem, fn = a
            c = z3.simplify(mem(idx))
            if z3.is_true(c):
                return fn(idx)
            if z3.is_false(c):
                return prev.get(idx)
            return If(c, fn(idx), prev.get(idx))
        if k == 'ite':
            c, x, y = a
            return If(c, x.get(idx), y.get(idx))
        raise AssertionError(k)

    def written(self, idx, base):
        """condition under which the element differs from `base` by an explicit write"""
        if self is base:
            return z3.BoolVal(False)
        k, a = self.kind, self.a
        if k == 'fn':
            return z3.BoolVal(True) if len(a) < 2 else a[1](idx, base)
        if k == 'store':
            prev, at, v = a
            c = z3.simplify(And(*[x == y for x, y in zip(idx, at)]))
            return Or(c, prev.written(idx, base))
        if k == 'region':
            prev, mem, fn = a
            return Or(z3.simplify(mem(idx)), prev.written(idx, base))
        if k == 'ite':
            c, x, y = a
            wx, wy = x.written(idx, base), y.written(idx, base)
            return If(c, wx, wy) if not wx.eq(wy) else wx
        raise AssertionError(k)


class Ref:
    """a Fortran entity: view on storage"""
    __slots__ = ('st', 'base', 'kind', 'tname', 'dims', 'imap', 'extra', 'optional_absent', 'raw')

    def __init__(self, st, base, kind, dims=None, imap=None, tname=None, raw=None):
        self.st, self.base, self.kind, self.dims, self.imap, self.tname = st, base, kind, dims, imap, tname
        self.optional_absent = False
        self.raw = raw
        self.extra = None

    def canon(self, idx):
        return self.imap(idx) if self.imap else tuple(idx)


class State:
    __slots__ = ('conds', 'mem')

    def __init__(self, conds=(), mem=None):
        self.conds = conds
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(self.conds, dict(self.mem))

    def assume(self, c):
        if z3.is_true(c):
            return self
        return State(self.conds + (c,), dict(self.mem))


class Oblig:
    def __init__(self, name, kind, conds, goal, where):
        self.name, self.kind, self.conds, self.goal, self.where = name, kind, conds, goal, where
        self.status = None
        self.model = None


class Access:
    __slots__ = ('key', 'idx', 'conds', 'w', 'sync', 'line', 'value')

    def __init__(self, key, idx, conds, w, sync, line, value=None):
        self.key, self.idx, self.conds, self.w, self.sync, self.line = key, idx, conds, w, sync, line
        self.value = value


class Frame:
    def __init__(self, unit):
        self.unit = unit
        self.env = {}


class ParLoop:
    """record of one parallel loop for the race check"""

    def __init__(self, line, fname, uname):
        self.line, self.fname, self.uname = line, fname, uname
        self.accesses, self.conds, self.t, self.private, self.reduction = [], (), None, set(), {}
        self.facts = None
        self.kinds = {}


class Exec:
    def __init__(self, mods, prover, opts=None):
        self.mods = mods
        self.prover = prover
        self.obligs = []
        self.frame = None
        self.sync = None
        self.atomic_key = None
        self.log = None            # list of Access when recording
        self.verify = True         # emit obligations
        self.parloops = []
        self.units_used = set()
        self.opts = opts or {}
        self.depth = 0
        self.modcache = {}
        self.line = 0
        self.in_parallel = False
        self.redchecks = []
        self.merge_ifs = self.opts.get('merge', True)
        self.unroll = self.opts.get('unroll', 8)
        self.nan_fns = {}
        self.hook_call = self.opts.get('hook_call')
        self.assumptions = set()
        self.global_conds = ()
        self.inv = self.opts.get('inv')

    # ------------------------------------------------------------- utilities
    def oblige(self, name, kind, st, goal):
        if not self.verify:
            return
        g = z3.simplify(goal)
        o = Oblig('%s:%s' % (self.frame.unit.name, name), kind, st.conds, g,
                  '%s:%d' % (self.frame.unit.fname, self.line))
        self.obligs.append(o)

    def feasible(self, st, c):
        """False if c is provably inconsistent with the path"""
        c = z3.simplify(c)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        base = list(st.conds) + [c]
        base = base + self.prover.background(base)
        r, _ = solve(base, 400)
        return r != 'unsat'

    def kindval(self, k):
        if k is None:
            return 4
        k = str(k).strip().lower()
        if k in KINDS:
            return KINDS[k]
        if k.startswith('kind('):
            inner = k[5:-1]
            if '%' in inner:
                v, c = inner.split('%')
                r = self.lookup(v.strip())
                for f in self.type_fields(r.tname):
                    if f.name == c.strip():
                        return self.kindval(f.kind)
            return self.kindval(None) if not inner else self.lookup(inner).kind
        d = self.find_const(k)
        if d is not None:
            c = conc(d)
            if c is not None:
                return c
        raise Unsupported('kind ' + k)

    def modules_of(self, unit):
        """modules visible from a unit: own + used (transitively by name)"""
        seen = []
        todo = [unit.module]
        import re
        uses = list(unit.uses) + list(unit.module.uses)
        for u in uses:
            m = re.match(r'use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)', u, re.I)
            if m and m.group(1).lower() in self.mods:
                todo.append(self.mods[m.group(1).lower()])
        return todo

    def renames(self, unit):
        import re
        out = {}
        for u in list(unit.uses) + list(unit.module.uses):
            for a, b in re.findall(r'(\w+)\s*=>\s*(\w+)', u):
                m = re.match(r'use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)', u, re.I)
                out[a.lower()] = (m.group(1).lower(), b.lower())
        return out

    def find_unit(self, name):
        u = self.frame.unit
        if name in u.contained:
            return u.contained[name]
        rn = self.renames(u)
        if name in rn:
            m, n = rn[name]
            if m in self.mods and n in self.mods[m].units:
                return self.mods[m].units[n]
        hidden = {(m, b) for m, b in rn.values()}
        for m in self.modules_of(u):
            if name in m.units and (m.name, name) not in hidden:
                return m.units[name]
        return None

    def find_const(self, name):
        for m in self.modules_of(self.frame.unit):
            if name in m.decls and m.decls[name].init is not None:
                d = m.decls[name]
                return self.module_const(m, d)
        return None

    def module_const(self, m, d):
        key = ('const', m.name, d.name)
        c = getattr(self, '_consts', None)
        if c is None:
            c = self._consts = {}
        if key in c:
            return c[key]
        nm = d.name.lower()
        if d.base == 'real':
            if nm.startswith('nan'):
                v = fresh('NAN', R)
                self.nan_const = v
            elif nm == 'pi' or nm.startswith('pi_'):
                saved = self.frame
                self.frame = Frame(_DummyUnit(m))
                try:
                    v = to_real(self.eval(d.init, State()))
                finally:
                    self.frame = saved
                PI = z3.Const('PI', R)
                v = z3.simplify(z3.substitute(v, (realfn('atan')(z3.RealVal(1)), PI / 4)))
                if z3.is_rational_value(v) and abs(v.numerator_as_long() / v.denominator_as_long() - math.pi) < 1e-6:
                    v = PI          # machine arithmetic treated as mathematical
            elif nm in ('pinf',):
                v = z3.Const('PINF', R)
            elif nm in ('minf',):
                v = z3.Const('MINF', R)
            else:
                saved = self.frame
                f = Frame(_DummyUnit(m))
                self.frame = f
                try:
                    v = self.eval(d.init, State())
                finally:
                    self.frame = saved
                v = to_real(v)
        else:
            saved = self.frame
            self.frame = Frame(_DummyUnit(m))
            try:
                v = self.eval(d.init, State())
            finally:
                self.frame = saved
        c[key] = v
        return v

    def type_fields(self, tname):
        for m in self.mods.values():
            if tname in m.types:
                return m.types[tname]
        raise Unsupported('type ' + str(tname))

    def lookup(self, name):
        r = self.frame.env.get(name)
        if r is None:
            raise Unsupported('name ' + name)
        return r

    # ------------------------------------------------------------- declarations
    _uid = [0]

    def newst(self, hint):
        Exec._uid[0] += 1
        return '%s~%d' % (hint, Exec._uid[0])

    def decl_local(self, d, st):
        """allocate a local variable"""
        key = self.newst(d.name)
        if d.dims == 'unsupported' and 'pointer' not in d.attrs:
            raise Unsupported('dims of ' + d.name)
        if d.base == 'type':
            dims = None
            if d.dims is not None:
                if 'pointer' in d.attrs:
                    self.frame.env[d.name] = Ref(None, 'type', None, None, None, d.tname)
                    self.new_desc(d.name, st)
                    return
                dims = self.eval_dims(d.dims, st)
            self.alloc_derived(key, d.tname, dims, st)
            self.frame.env[d.name] = self.mkref(key, 'type', None, dims, d.tname)
            return
        if d.base == 'character':
            self.frame.env[d.name] = Ref(None, 'character', None)
            return
        kind = self.kindval(d.kind)
        if 'pointer' in d.attrs:
            self.frame.env[d.name] = Ref(None, d.base, kind)
            self.new_desc(d.name, st)
            return
        if 'allocatable' in d.attrs:
            raise Unsupported('allocatable')
        if d.dims is None:
            st.mem[key] = self.undef(d.base, key)
            self.frame.env[d.name] = Ref(key, d.base, kind)
            if d.init is not None:
                st.mem[key] = self.coerce(self.eval(d.init, st), d.base)
        else:
            dims = self.eval_dims(d.dims, st)
            st.mem[key] = self.base_arr(key, d.base, len(dims))
            self.frame.env[d.name] = self.mkref(key, d.base, kind, dims)
            if d.init is not None:
                raise Unsupported('array initialiser')

    def new_desc(self, name, st):
        # the association status of a pointer is itself a variable
        key = self.newst('desc_' + name)
        st.mem[key] = z3.IntVal(0)
        self.frame.env[name].extra = key

    def undef(self, base, hint):
        return fresh('undef_' + hint, self.sort(base))

    def sort(self, base):
        return {'integer': I, 'real': R, 'logical': B}[base]

    def base_arr(self, hint, base, rank):
        f = fresh_fn(hint, *([I] * rank), self.sort(base))
        return Arr('fn', lambda idx: f(*idx), rank=rank)

    def mkref(self, key, base, kind, dims, tname=None):
        if dims is None:
            return Ref(key, base, kind, None, None, tname)
        los = [lo for lo, ext in dims]
        def imap(idx):
            return tuple(z3.simplify(i - lo) for i, lo in zip(idx, los))
        return Ref(key, base, kind, dims, imap, tname)

    def alloc_derived(self, key, tname, dims, st):
        rank = len(dims) if dims is not None else 0
        for f in self.type_fields(tname):
            r2 = rank + (len(f.dims) if f.dims else 0)
            k = (key, f.name)
            if r2 == 0:
                st.mem[k] = self.undef(f.base, key + f.name)
            else:
                st.mem[k] = self.base_arr(key + '.' + f.name, f.base, r2)

    def eval_dims(self, dims, st):
        out = []
        for lo, hi, sl in dims:
            l = self.eval(lo, st) if lo is not None else z3.IntVal(1)
            if hi is None:
                raise Unsupported('assumed shape for local')
            h = self.eval(hi, st)
            out.append((l, z3.simplify(h - l + 1)))
        return out

    # ------------------------------------------------------------- expressions
    def coerce(self, v, base):
        if isinstance(v, AV):
            if base == 'real' and v.base == 'integer':
                f = v.fn
                return AV(v.shape, lambda idx: to_real(f(idx)), 'real')
            return v
        if base == 'real':
            return to_real(v)
        if base == 'integer' and z3.is_real(v):
            return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if base == 'logical' and not z3.is_bool(v):
            raise Unsupported('logical from int')
        return v

    def base_of(self, v):
        if isinstance(v, AV):
            return v.base
        return 'real' if z3.is_real(v) else 'integer' if z3.is_int(v) else 'logical'

    def eval(self, e, st):
        k = e[0]
        if k == 'int':
            return z3.IntVal(e[1])
        if k == 'real':
            return z3.Q(e[1].numerator, e[1].denominator)
        if k == 'log':
            return z3.BoolVal(e[1])
        if k == 'name':
            n = e[1]
            r = self.frame.env.get(n)
            if r is None:
                c = self.find_const(n)
                if c is not None:
                    return c
                if n in KINDS:
                    return z3.IntVal(KINDS[n])
                raise Unsupported('name ' + n)
            return self.read_ref(r, st)
        if k == 'un':
            if e[1] == '-':
                return self.lift1(lambda x: z3.simplify(-x) if (z3.is_int_value(x) or z3.is_rational_value(x)) else -x, self.eval(e[2], st))
            return self.lift1(Not, self.eval(e[2], st), 'logical')
        if k == 'bin':
            op = e[1]
            a = self.eval(e[2], st)
            if op in ('.and.', '.or.') and not isinstance(a, AV):
                # Fortran may or may not short-circuit; evaluate the right operand
                # under the guard only for obligations (gfortran short-circuits)
                g = a if op == '.and.' else Not(a)
                if z3.is_false(z3.simplify(g)):
                    return a
                st2 = State(st.conds + (g,), st.mem)
                b = self.eval(e[3], st2)
            else:
                b = self.eval(e[3], st)
            if op in ('==', '/=') and not isinstance(a, AV) and not isinstance(b, AV) and z3.is_real(a) and a.eq(b):
                nan = self.nanof(a)
                return Not(nan) if op == '==' else nan
            return self.lift2(lambda x, y: self.binop(op, x, y), a, b, 'logical' if op in (
                '==', '/=', '<', '<=', '>', '>=', '.and.', '.or.', '.eqv.', '.neqv.') else None)
        if k == 'arr':
            vs = [self.eval(x, st) for x in e[1]]
            if any(isinstance(v, AV) for v in vs):
                raise Unsupported('array constructor of arrays')
            base = 'real' if any(z3.is_real(v) for v in vs) else self.base_of(vs[0])
            vs = [self.coerce(v, base) for v in vs]
            def fn(idx, vs=vs):
                r = vs[-1]
                for j in range(len(vs) - 2, -1, -1):
                    r = If(z3.simplify(idx[0] == j), vs[j], r)
                return r
            return AV([z3.IntVal(len(vs))], fn, base)
        if k in ('ref', 'comp'):
            return self.eval_ref(e, st)
        raise Unsupported('expression %s' % (k,))

    def nanof(self, x):
        """NaN-ness of a term: NaNs enter through declared NaN-able arrays and constants"""
        if not z3.is_app(x):
            return z3.BoolVal(False)
        n = x.decl().name()
        if n in self.nan_fns:
            return self.nan_fns[n](*x.children())
        if n.startswith('NAN'):
            return z3.BoolVal(True)
        if x.decl().kind() == z3.Z3_OP_ITE:
            return If(x.arg(0), self.nanof(x.arg(1)), self.nanof(x.arg(2)))
        if z3.is_real(x) and not sym.is_iter(x) and (x.decl().kind() != z3.Z3_OP_UNINTERPRETED or n in sym.REALFN):
            return Or(*[self.nanof(c) for c in x.children()])
        return z3.BoolVal(False)

    def lift1(self, f, a, base=None):
        if isinstance(a, AV):
            return AV(a.shape, lambda idx: f(a.fn(idx)), base or a.base)
        if isinstance(a, DV):
            raise Unsupported('operator on derived type')
        return f(a)

    def lift2(self, f, a, b, base=None):
        if isinstance(a, DV) or isinstance(b, DV):
            raise Unsupported('operator on derived type')
        if not isinstance(a, AV) and not isinstance(b, AV):
            return f(a, b)
        shape = a.shape if isinstance(a, AV) else b.shape
        if isinstance(a, AV) and isinstance(b, AV) and len(a.shape) != len(b.shape):
            raise Unsupported('rank mismatch')
        if base is None:
            base = 'real' if 'real' in (self.base_of(a), self.base_of(b)) else self.base_of(a)
        return AV(shape, lambda idx: f(a.fn(idx) if isinstance(a, AV) else a, b.fn(idx) if isinstance(b, AV) else b), base)

    def binop(self, op, a, b):
        if op in ('+', '-', '*', '/', '**') or op in ('==', '/=', '<', '<=', '>', '>='):
            if z3.is_bool(a) or z3.is_bool(b):
                raise Unsupported('logical arithmetic')
            if z3.is_real(a) or z3.is_real(b):
                if op == '**' and z3.is_int(b):
                    a = to_real(a)
                else:
                    a, b = to_real(a), to_real(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if z3.is_int(a):
                # truncating division
                return If(a >= 0, If(b >= 0, a / b, -(a / (-b))), If(b >= 0, -((-a) / b), (-a) / (-b)))
            return a / b
        if op == '**':
            c = conc(b) if z3.is_int(b) else None
            if c is None or c < 0 or c > 6:
                if z3.is_int(b):
                    raise Unsupported('power')
                return realfn('pow', 2)(a, b)
            r = None
            for _ in range(c):
                r = a if r is None else r * a
            return r if r is not None else (z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1))
        if op == '==':
            return a == b
        if op == '/=':
            return a != b
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == '.and.':
            return And(a, b)
        if op == '.or.':
            return Or(a, b)
        if op == '.eqv.':
            return a == b
        if op == '.neqv.':
            return z3.Xor(a, b)
        raise Unsupported('operator ' + op)

    # -- storage access
    def access(self, key, idx, st, w, value=None):
        if self.log is not None:
            sync = self.sync
            if sync is None and self.atomic_key is not None:
                ak, ai = self.atomic_key
                if ak == key and len(ai) == len(idx) and all(z3.simplify(x == y).eq(z3.BoolVal(True)) for x, y in zip(ai, idx)):
                    sync = 'atomic'
            self.log.append(Access(key, tuple(idx), st.conds, w, sync, self.line, value))

    def read_ref(self, r, st):
        if r.optional_absent:
            raise Unsupported('absent optional')
        if r.raw is not None and r.raw[0] == 'ptrscalar':
            return r.raw[1](st)
        if r.st is None:
            raise Unsupported('unassociated')
        if r.base == 'type':
            comps = {}
            for f in self.type_fields(r.tname):
                comps[f.name] = self.read_ref(self.comp_ref(r, f.name), st)
            return DV(r.tname, comps)
        if r.dims is None:
            key = r.st
            if r.imap is not None:
                idx = r.imap(())
                self.access(key, idx, st, False)
                return st.mem[key].get(tuple(idx))
            self.access(key, (), st, False)
            return st.mem[key]
        dims = r.dims
        arr = st.mem[r.st]
        def fn(idx, arr=arr):
            real_idx = r.canon(tuple(z3.simplify(i + lo) for i, (lo, _) in zip(idx, dims)))
            self.access(r.st, real_idx, st, False)
            return arr.get(real_idx)
        return AV([ext for _, ext in dims], fn, r.base)

    def comp_ref(self, r, cname):
        for f in self.type_fields(r.tname):
            if f.name == cname:
                break
        else:
            raise Unsupported('component ' + cname)
        kind = self.kindval(f.kind)
        key = (r.st, cname)
        if r.raw is not None and r.raw[0] == 'typed':
            key = r.raw[1](cname)
        rd = r.dims or []
        imap0 = r.imap or (lambda idx: tuple(idx))
        if f.dims:
            fd = [(z3.IntVal(1) if lo is None else self.eval(lo, State()), self.eval(hi, State())) for lo, hi, _ in f.dims]
            fd = [(lo, z3.simplify(hi - lo + 1)) for lo, hi in fd]
            nr = len(rd)
            def imap(idx):
                return tuple(imap0(idx[:nr])) + tuple(z3.simplify(i - lo) for i, (lo, _) in zip(idx[nr:], fd))
            return Ref(key, f.base, kind, list(rd) + fd, imap)
        if r.dims is None and r.imap is None:
            return Ref(key, f.base, kind)
        return Ref(key, f.base, kind, r.dims, imap0)

    def resolve(self, e, st):
        """expression -> Ref (designator), or None if it is not a variable designator"""
        k = e[0]
        if k == 'name':
            r = self.frame.env.get(e[1])
            if r is not None and r.extra is not None:
                self.access(r.extra, (), st, False)
            return r
        if k == 'comp':
            r = self.resolve(e[1], st)
            if r is None:
                return None
            if r.base != 'type':
                raise Unsupported('component of non-derived')
            return self.comp_ref(r, e[2])
        if k == 'ref':
            r = self.resolve(e[1], st)
            if r is None:
                return None
            if r.raw is not None and r.raw[0] == 'bytes':
                return self.raw_ref(r, e[2], st)
            if r.dims is None:
                return None if r.base != 'character' else r
            return self.subscript(r, e[2], st)
        return None

    def subscript(self, r, args, st):
        # component arrays: subscripts may apply to trailing dims only if the
        # leading ones were fixed already (we keep only unfixed dims in r.dims)
        if len(args) != len(r.dims):
            raise Unsupported('rank of subscript')
        fixed, newdims, maps = [], [], []
        for pos, (a, (lo, ext)) in enumerate(zip(args, r.dims)):
            if isinstance(a, tuple) and a[0] == 'slice':
                l = self.eval(a[1], st) if a[1] is not None else lo
                h = self.eval(a[2], st) if a[2] is not None else lo + ext - 1
                stp = self.eval(a[3], st) if a[3] is not None else z3.IntVal(1)
                s = conc(stp)
                if s is None or s == 0:
                    raise Unsupported('section stride')
                l, h = z3.simplify(l), z3.simplify(h)
                if s == 1:
                    n = z3.simplify(h - l + 1)
                elif s > 0:
                    n = z3.simplify((h - l) / s + 1)
                else:
                    n = z3.simplify((l - h) / (-s) + 1)
                full = a[1] is None and a[2] is None and s == 1
                if full:
                    n = ext
                else:
                    self.oblige('bounds', 'bounds', st, z3.Implies(n > 0, z3.And(l >= lo, l + s * (n - 1) < lo + ext, l < lo + ext, l + s * (n - 1) >= lo)))
                    c = conc(n)
                    if c is None:
                        n = If(z3.simplify(n > 0), n, z3.IntVal(0)) if self.feasible(st, n < 0) else n
                newdims.append((z3.IntVal(1), n))
                maps.append(('s', l, s))
            else:
                if isinstance(a, tuple) and a[0] == 'kw':
                    raise Unsupported('keyword subscript')
                v = self.eval(a, st)
                if isinstance(v, AV):
                    raise Unsupported('vector subscript')
                v = z3.simplify(v)
                self.oblige('bounds', 'bounds', st, z3.And(v >= lo, v < lo + ext))
                maps.append(('i', v))
        imap0 = r.imap or (lambda idx: tuple(idx))
        def imap(idx):
            full, j = [], 0
            for m in maps:
                if m[0] == 'i':
                    full.append(m[1])
                else:
                    full.append(z3.simplify(m[1] + m[2] * (idx[j] - 1)))
                    j += 1
            return imap0(tuple(full))
        nr = Ref(r.st, r.base, r.kind, newdims or None, imap, r.tname)
        nr.raw = r.raw
        return nr

    # raw byte buffers ------------------------------------------------------
    def raw_ref(self, r, args, st):
        """matrix(pos) on an int8 buffer that overlays records: only used under c_loc"""
        if len(args) != 1:
            raise Unsupported('raw subscript')
        pos = self.eval(args[0], st)
        lo, ext = r.dims[0]
        buf = r.raw[1]
        if not hasattr(buf, 'in_bounds'):
            self.oblige('bounds', 'bounds', st, z3.And(pos >= lo, pos < lo + ext))
        else:
            self.oblige('bounds', 'bounds', st, buf.in_bounds(z3.simplify(pos - lo)))
        nr = Ref(r.st, 'bytes', 1)
        nr.raw = ('byteat', r.raw[1], z3.simplify(pos - lo))
        return nr

    def eval_ref(self, e, st):
        r = self.resolve(e, st)
        if r is not None:
            return self.read_ref(r, st)
        if e[0] == 'ref' and e[1][0] == 'name':
            return self.call_fn(e[1][1], e[2], st)
        raise Unsupported('reference %r' % (e,))

    # -- functions
    def call_fn(self, name, args, st):
        from . import fintr
        if name not in self.frame.env:
            u = self.find_unit(name)
            if u is not None:
                return self.call_user(u, args, st)
            for m in self.modules_of(self.frame.unit):
                if name in m.interfaces:
                    raise Unsupported('generic ' + name)
            return fintr.call(self, name, args, st)
        raise Unsupported('function ' + name)

    def call_user(self, u, args, st):
        u.parse()
        vals = None
        if getattr(u, 'elemental', False):
            vs = [self.eval(a, st) for a in args]
            if any(isinstance(v, AV) for v in vs):
                sh = [v for v in vs if isinstance(v, AV)][0].shape
                base = self.fn_base(u)
                def fn(idx):
                    return self.invoke(u, [('val', v.fn(idx) if isinstance(v, AV) else v) for v in vs], st)
                return AV(sh, fn, base)
        if self.hook_call is not None:
            r = self.hook_call(self, u, args, st)
            if r is not None:
                return r
        return self.invoke(u, [self.actual(a, st) for a in args], st)

    def fn_base(self, u):
        d = u.decls.get(u.result)
        return d.base if d else 'real'

    def actual(self, a, st):
        if isinstance(a, tuple) and a[0] == 'kw':
            return ('kw', a[1], self.actual(a[2], st))
        r = self.resolve(a, st) if a[0] in ('name', 'ref', 'comp') else None
        if r is not None:
            return ('ref', r)
        if a[0] == 'ref' and a[1] == ('name', 'c_loc'):
            return ('ref', self.c_loc(a[2][0], st))
        return ('val', self.eval(a, st))

    def c_loc(self, a, st):
        r = self.resolve(a, st)
        if r is None or r.raw is None:
            raise Unsupported('c_loc of ordinary data')
        if r.raw[0] == 'byteat':
            return r
        if r.raw[0] == 'bytes':
            nr = Ref(r.st, 'bytes', 1)
            nr.raw = ('byteat', r.raw[1], z3.IntVal(0))
            return nr
        return r

    def bind(self, u, actuals, st):
        """new frame with dummies bound; returns the frame"""
        fr = Frame(u)
        amap = {}
        pos = 0
        for a in actuals:
            if a[0] == 'kw':
                amap[a[1]] = a[2]
            else:
                if pos >= len(u.args):
                    raise Unsupported('too many arguments')
                amap[u.args[pos]] = a
                pos += 1
        saved = self.frame
        # scalars first (they may appear in the dims of the arrays)
        order = [n for n in u.args if u.decls.get(n) is not None and not u.decls[n].dims] + \
                [n for n in u.args if u.decls.get(n) is not None and u.decls[n].dims]
        if len(order) != len(u.args):
            raise Unsupported('undeclared dummy')
        for n in order:
            d = u.decls[n]
            a = amap.get(n)
            self.frame = fr
            try:
                if a is None:
                    if 'optional' not in d.attrs:
                        raise Unsupported('missing argument ' + n)
                    r = Ref(None, d.base, 4)
                    r.optional_absent = True
                    fr.env[n] = r
                    continue
                if a[0] == 'ref' and a[1].optional_absent:
                    fr.env[n] = a[1]
                    continue
                self.bind_one(fr, d, a, st)
            finally:
                self.frame = saved
        return fr

    def bind_one(self, fr, d, a, st):
        n = d.name
        if a[0] == 'ref' and a[1].raw is not None and a[1].raw[0] in ('bytes', 'byteat'):
            fr.env[n] = a[1]
            return
        if d.base == 'type' and d.tname == 'c_ptr':
            if a[0] != 'ref' or a[1].raw is None:
                raise Unsupported('c_ptr argument')
            fr.env[n] = a[1]
            return
        if not d.dims:
            kind = None if d.base == 'type' else self.kindval(d.kind) if d.base != 'character' else 1
            if a[0] == 'ref':
                r = a[1]
                if r.dims is not None:
                    raise Unsupported('array to scalar dummy')
                if r.base != d.base:
                    raise Unsupported('type mismatch for ' + n)
                fr.env[n] = r
            else:
                v = a[1]
                if isinstance(v, AV):
                    raise Unsupported('array to scalar dummy')
                if self.base_of(v) != d.base:
                    v = self.coerce(v, d.base)
                key = self.newst(n)
                st.mem[key] = v
                fr.env[n] = Ref(key, d.base, kind)
            return
        # arrays
        if a[0] == 'val':
            v = a[1]
            if not isinstance(v, AV):
                raise Unsupported('scalar to array dummy')
            key = self.newst(n)
            fn = v.fn
            st.mem[key] = Arr('fn', lambda idx, fn=fn: fn(idx), rank=len(v.shape))
            dims0 = [(z3.IntVal(0), ext) for ext in v.shape]
            src = Ref(key, v.base, 8, dims0, lambda idx: tuple(idx))
        else:
            src = a[1]
            if src.dims is None:
                raise Unsupported('scalar/element sequence to array dummy')
        if src.base != d.base or (d.base == 'type' and src.tname != d.tname):
            raise Unsupported('array type mismatch for ' + n)
        dims = []
        assumed = all(hi is None for lo, hi, sl in d.dims)
        for k, (lo, hi, sl) in enumerate(d.dims):
            if hi is None:
                if k >= len(src.dims):
                    raise Unsupported('rank')
                l = self.eval(lo, st) if lo is not None else z3.IntVal(1)
                dims.append((l, src.dims[k][1]))
            else:
                if hi == ('name', '*') :
                    raise Unsupported('assumed size')
                l = self.eval(lo, st) if lo is not None else z3.IntVal(1)
                h = self.eval(hi, st)
                dims.append((z3.simplify(l), z3.simplify(h - l + 1)))
        if len(dims) != len(src.dims):
            raise Unsupported('sequence association with different rank')
        for k in range(len(dims)):
            g = z3.simplify(dims[k][1] == src.dims[k][1])
            if not z3.is_true(g):
                if k == len(dims) - 1:
                    g = dims[k][1] <= src.dims[k][1]
                    g = z3.Implies(z3.And(*[x[1] > 0 for x in dims]), g)
                self.oblige('argshape', 'bounds', st, g)
                if self.verify and k < len(dims) - 1 and self.prover.prove(list(st.conds), g)[0] != 'proved':
                    raise Unsupported('argument shape mismatch')
        sd = src.dims
        smap = src.imap or (lambda idx: tuple(idx))
        def imap(idx):
            return smap(tuple(z3.simplify(i - lo + slo) for i, (lo, _), (slo, _2) in zip(idx, dims, sd)))
        r = Ref(src.st, src.base, src.kind, dims, imap, src.tname)
        r.raw = src.raw
        fr.env[n] = r

    def invoke(self, u, actuals, st):
        """inline a user procedure; mutates st; returns the function value (or None)"""
        u.parse()
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('call depth')
        if (u.module.name, u.name) not in self.units_used:
            self.units_used.add((u.module.name, u.name))
        fr = self.bind(u, actuals, st)
        saved, self.frame = self.frame, fr
        sline = self.line
        satomic, self.atomic_key = self.atomic_key, None
        try:
            self.declare_locals(u, st)
            outs = self.exec_block(u.body, st.copy())
            final = self.merge([s for c, s in outs if c is None or c == ('return',)], st)
            if any(c is not None and c != ('return',) for c, s in outs):
                raise Unsupported('escaping control flow')
            st.mem.clear()
            st.mem.update(final.mem)
            if u.kind == 'function':
                r = fr.env[u.result]
                v = self.read_ref(r, State(st.conds, dict(st.mem)))
                return v
            return None
        finally:
            self.frame = saved
            self.depth -= 1
            self.line = sline
            self.atomic_key = satomic

    def declare_locals(self, u, st):
        todo = [d for d in u.decls.values() if d.name not in self.frame.env]
        if u.kind == 'function' and u.result not in u.decls:
            from .fparse import parse_decl
            ds = parse_decl((u.prefix_type or '') + ' ' + u.result) if u.prefix_type else None
            if not ds:
                raise Unsupported('function result')
            todo.append(ds[0])
        # constants first, then scalars, then arrays
        todo.sort(key=lambda d: (0 if 'parameter' in d.attrs else 1 if not d.dims else 2))
        for d in todo:
            self.decl_local(d, st)

    # ------------------------------------------------------------- merging
    def merge(self, states, parent):
        """merge states that descend from `parent` into one (their disjunction)"""
        if not states:
            return State(parent.conds + (z3.BoolVal(False),), dict(parent.mem))
        if len(states) == 1:
            return states[0]
        n = len(parent.conds)
        # longest common prefix
        common = states[0].conds
        for s in states[1:]:
            k = 0
            while k < len(common) and k < len(s.conds) and common[k].eq(s.conds[k]):
                k += 1
            common = common[:k]
        k = len(common)
        guards = [And(*s.conds[k:]) for s in states]
        # guards partition the space described by `common` plus their disjunction
        disj = z3.simplify(Or(*guards))
        conds = common if z3.is_true(disj) else common + (disj,)
        mem = {}
        keys = set()
        for s in states:
            keys.update(s.mem)
        last = states[-1]
        for key in keys:
            vals = [s.mem.get(key) for s in states]
            if any(v is None for v in vals):
                vs = [v for v in vals if v is not None]
                mem[key] = vs[0]
                continue
            r = vals[-1]
            for g, v in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                if v is r:
                    continue
                if isinstance(v, Arr):
                    r = Arr('ite', g, v, r)
                else:
                    r = If(g, v, r)
            mem[key] = r
        return State(conds, mem)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        """returns list of (ctl, state); ctl None | ('cycle',name) | ('exit',name) | ('return',)"""
        cur = [st]
        done = []
        i = 0
        n = len(stmts)
        while i < n:
            s = stmts[i]
            if not cur:
                break
            nxt = []
            # OpenMP structured directives
            if s[0] == 'omp':
                adv, handler = self.omp_directive(stmts, i)
                for c in cur:
                    for ctl, s2 in handler(c):
                        (nxt if ctl is None else done).append(s2 if ctl is None else (ctl, s2))
                i = adv
            else:
                for c in cur:
                    self.line = s[1]
                    for ctl, s2 in self.exec_stmt(s, c):
                        if ctl is None:
                            nxt.append(s2)
                        else:
                            done.append((ctl, s2))
                i += 1
            cur = nxt
            if len(cur) > 1 and self.merge_ifs:
                cur = [self.merge(cur, st)]
            if len(cur) + len(done) > 400:
                raise Unsupported('too many paths')
        return done + [(None, c) for c in cur]

    def omp_directive(self, stmts, i):
        d = stmts[i][2].lower()
        line = stmts[i][1]
        import re
        if d.startswith('atomic'):
            nxt = stmts[i + 1]
            j = i + 2
            if j < len(stmts) and stmts[j][0] == 'omp' and stmts[j][2].startswith('end atomic'):
                j += 1
            if nxt[0] != 'assign' or (d.split()[1:] and d.split()[1] not in ('update',)):
                raise Unsupported('atomic form')
            def h(st):
                self.line = nxt[1]
                return self.exec_stmt(nxt, st, atomic=True)
            return j, h
        if d.startswith('critical'):
            j = i + 1
            while not (stmts[j][0] == 'omp' and stmts[j][2].lower().startswith('end critical')):
                j += 1
                if j >= len(stmts):
                    raise Unsupported('unterminated critical')
            body = stmts[i + 1:j]
            def h(st):
                saved, self.sync = self.sync, 'critical' + d[8:].strip()
                try:
                    return self.exec_block(body, st)
                finally:
                    self.sync = saved
            return j + 1, h
        if d.startswith('parallel do') or d.startswith('parallel workshare'):
            end = 'end ' + ' '.join(d.split()[:2])
            clauses = parse_clauses(d)
            if d.startswith('parallel workshare'):
                j = i + 1
                while not (stmts[j][0] == 'omp' and stmts[j][2].lower().startswith(end)):
                    j += 1
                body = stmts[i + 1:j]
                return j + 1, (lambda st: self.exec_block(body, st))
            loop = stmts[i + 1]
            if loop[0] != 'do':
                raise Unsupported('parallel do on a non-loop')
            j = i + 2
            if j < len(stmts) and stmts[j][0] == 'omp' and stmts[j][2].lower().startswith('end parallel do'):
                j += 1
            def h(st):
                self.line = loop[1]
                return self.exec_do(loop, st, par=(line, clauses))
            return j, h
        if d.startswith('end ') or d.startswith('simd') or d.startswith('barrier') or d.startswith('flush'):
            return i + 1, (lambda st: [(None, st)])
        raise Unsupported('omp ' + d)

    def exec_stmt(self, s, st, atomic=False):
        k = s[0]
        if k == 'assign':
            st = st.copy()
            self.assign(s[2], s[3], st, atomic)
            return [(None, st)]
        if k == 'if':
            return self.exec_if(s, st)
        if k == 'do':
            return self.exec_do(s, st)
        if k == 'while':
            return self.exec_while(s, st)
        if k == 'cycle':
            return [(('cycle', s[2]), st)]
        if k == 'exit':
            return [(('exit', s[2]), st)]
        if k == 'return':
            return [(('return',), st)]
        if k == 'nop':
            return [(None, st)]
        if k == 'call':
            st = st.copy()
            self.call_sub(s[2], s[3], st)
            return [(None, st)]
        if k == 'where':
            return self.exec_where(s, st)
        if k == 'select':
            clauses = []
            sel = s[2]
            els = []
            for vals, body in s[3]:
                if vals is None:
                    els = body
                    continue
                cond = None
                for v in vals:
                    if v[0] == 'slice':
                        c = None
                        for b, op in ((v[1], '>='), (v[2], '<=')):
                            if b is not None:
                                c1 = ('bin', op, sel, b)
                                c = c1 if c is None else ('bin', '.and.', c, c1)
                    else:
                        c = ('bin', '==', sel, v)
                    cond = c if cond is None else ('bin', '.or.', cond, c)
                clauses.append((cond, body))
            return self.exec_if(('if', s[1], clauses, els), st)
        raise Unsupported('statement %s: %s' % (k, s[2] if len(s) > 2 else ''))

    def exec_if(self, s, st):
        outs = []
        cur = st
        for cond, body in s[2]:
            self.line = s[1]
            c = self.eval(cond, cur)
            c = z3.simplify(c)
            if z3.is_true(c):
                outs += self.exec_block(body, cur.copy())
                return self.join(outs, st)
            if not z3.is_false(c):
                if self.feasible(cur, c):
                    if not self.feasible(cur, Not(c)):
                        outs += self.exec_block(body, cur.copy())
                        return self.join(outs, st)
                    outs += self.exec_block(body, cur.assume(c))
                cur = cur.assume(Not(c))
        outs += self.exec_block(s[3], cur.copy())
        return self.join(outs, st)

    def join(self, outs, parent):
        if not self.merge_ifs:
            return outs
        nxt = [s for c, s in outs if c is None]
        oth = [(c, s) for c, s in outs if c is not None]
        if len(nxt) > 1:
            m = self.merge(nxt, parent)
            # when every branch falls through, the path condition is unchanged
            if not oth:
                m = State(parent.conds, m.mem)
            nxt = [m]
        return oth + [(None, s) for s in nxt]

    def call_sub(self, name, args, st):
        if name == 'c_f_pointer':
            return self.c_f_pointer(args, st)
        u = self.find_unit(name)
        if u is None:
            raise Unsupported('subroutine ' + name)
        if self.hook_call is not None:
            r = self.hook_call(self, u, args, st)
            if r is not None:
                return
        u.parse()
        self.invoke(u, [self.actual(a, st) for a in args], st)

    def c_f_pointer(self, args, st):
        src = self.actual(args[0], st)
        if src[0] != 'ref' or src[1].raw is None or src[1].raw[0] != 'byteat':
            raise Unsupported('c_f_pointer source')
        _, buf, pos = src[1].raw
        if args[1][0] != 'name':
            raise Unsupported('c_f_pointer target')
        tgt = args[1][1]
        old = self.frame.env[tgt]
        shape = None
        if len(args) > 2:
            a = args[2]
            if a[0] == 'kw':
                a = a[2]
            av = self.eval(a, st)
            shape = [z3.simplify(av.fn((z3.IntVal(k),))) for k in range(conc(av.shape[0]))]
        new = buf.pointer(self, old, pos, shape, st)
        new.extra = old.extra
        if old.extra is not None:
            self.access(old.extra, (), st, True)
        self.frame.env[tgt] = new

    def assign(self, lhs, rhs, st, atomic=False):
        r = self.resolve(lhs, st)
        if r is None:
            raise Unsupported('assignment target')
        if r.raw is not None and r.raw[0] == 'ptrscalar':
            v = self.coerce(self.eval(rhs, st), r.base)
            r.raw[2](st, v)
            return
        if r.base == 'type':
            v = self.eval(rhs, st)
            if not isinstance(v, DV) or v.tname != r.tname:
                raise Unsupported('derived assignment')
            for f in self.type_fields(r.tname):
                self.store(self.comp_ref(r, f.name), v.comps[f.name], st)
            return
        if atomic:
            self.atomic_key = (r.st, r.imap(()) if r.imap and r.dims is None else ())
        try:
            v = self.coerce(self.eval(rhs, st), r.base)
            self.narrow(r, v, st)
            self.store(r, v, st)
        finally:
            self.atomic_key = None

    def narrow(self, r, v, st):
        """machine range of integer stores into kinds narrower than 8 bytes"""
        if r.base == 'integer' and r.kind in (1, 2, 4) and not isinstance(v, AV) and self.opts.get('ranges'):
            b = 8 * r.kind - 1
            self.oblige('range', 'range', st, z3.And(v >= -(1 << b), v < (1 << b)))

    def store(self, r, v, st):
        if r.optional_absent or r.st is None:
            raise Unsupported('store')
        if r.dims is None:
            if isinstance(v, AV):
                raise Unsupported('array to scalar')
            if self.base_of(v) != r.base:
                raise Unsupported('type mismatch')
            if r.imap is not None:
                idx = tuple(r.imap(()))
                self.access(r.st, idx, st, True, v)
                st.mem[r.st] = Arr('store', st.mem[r.st], idx, v)
            else:
                self.access(r.st, (), st, True, v)
                st.mem[r.st] = v
            return
        # array section: canonical index of section element is affine and separable
        dims = r.dims
        rank = len(dims)
        # discover the canonical map on symbolic section indices
        ps = [fresh('s') for _ in dims]
        canon = r.canon(tuple(z3.simplify(p + lo) for p, (lo, _) in zip(ps, dims)))
        canon = [z3.simplify(c) for c in canon]
        prev = st.mem[r.st]
        inv = []        # for each section dim: which canonical dim, offset, sign
        used = {}
        for k, p in enumerate(ps):
            hit = None
            for cpos, c in enumerate(canon):
                if contains_const(c, p):
                    off = z3.simplify(z3.substitute(c, (p, z3.IntVal(0))))
                    one = z3.simplify(z3.substitute(c, (p, z3.IntVal(1))) - off)
                    s = conc(one)
                    if s is None or hit is not None or cpos in used or any(contains_const(off, q) for q in ps):
                        raise Unsupported('section map')
                    hit = (cpos, off, s)
            if hit is None:
                raise Unsupported('section map')
            used[hit[0]] = k
            inv.append(hit)
        exts = [ext for _, ext in dims]
        if self.log is not None:
            if isinstance(v, AV):
                conds = st.conds + tuple(z3.And(0 <= p, p < e) for p, e in zip(ps, exts))
                st2 = State(conds, st.mem)
                # reads of the right-hand side at the symbolic element
                self.with_conds(v, tuple(ps), st2)
            self.access(r.st, tuple(canon), State(st.conds + tuple(z3.And(0 <= p, p < e) for p, e in zip(ps, exts)), st.mem), True,
                        v.fn(tuple(ps)) if isinstance(v, AV) else v)
        def sect(idx):
            out, cond = [], []
            for (cpos, off, s), ext in zip(inv, exts):
                d = idx[cpos] - off
                if s == 1:
                    q = d
                elif s == -1:
                    q = -d
                else:
                    q = d / s
                    cond.append(d % abs(s) == 0)
                q = z3.simplify(q)
                cond.append(z3.And(q >= 0, q < ext))
                out.append(q)
            for cpos, c in enumerate(canon):
                if cpos not in used:
                    cond.append(idx[cpos] == c)
            return tuple(out), And(*cond)
        savedlog = None
        if isinstance(v, AV):
            fnv = v.fn
            base = r.base
            def fn(idx):
                lg, self.log = self.log, None
                try:
                    x = fnv(sect(idx)[0])
                    return to_real(x) if base == 'real' else x
                finally:
                    self.log = lg
        else:
            def fn(idx):
                return v
        # materialise small concrete sections so that equal indices resolve syntactically
        st.mem[r.st] = Arr('region', prev, lambda idx: sect(idx)[1], fn)

    def with_conds(self, v, ps, st2):
        # evaluate once so that the reads are logged under the section's range
        saved = self.log
        tmp = []
        self.log = tmp
        try:
            v.fn(ps)
        finally:
            self.log = saved
        extra = st2.conds
        for a in tmp:
            a.conds = tuple(extra)
            saved.append(a)

    def exec_where(self, s, st):
        st = st.copy()
        m = self.eval(s[2], st)
        if not isinstance(m, AV):
            raise Unsupported('where mask')
        for body, neg in ((s[3], False), (s[4], True)):
            for b in body:
                if b[0] != 'assign':
                    raise Unsupported('where body')
                r = self.resolve(b[2], st)
                if r is None or r.dims is None:
                    raise Unsupported('where target')
                old = self.read_ref(r, State(st.conds, dict(st.mem)))
                v = self.coerce(self.eval(b[3], st), r.base)
                def fn(idx, v=v, old=old, neg=neg):
                    c = m.fn(idx)
                    c = Not(c) if neg else c
                    return If(c, v.fn(idx) if isinstance(v, AV) else v, old.fn(idx))
                self.store(r, AV(old.shape, fn, r.base), st)
        return [(None, st)]

    # ------------------------------------------------------------- loops
    def exec_while(self, s, st):
        # bounded symbolic unrolling only when the condition becomes concrete
        if self.inv is not None:
            r = self.inv(self, s, st)
            if r is not None:
                return r
        name = s[4]
        outs = []
        cur = [st]
        for it in range(self.opts.get('while_unroll', 12)):
            nxt = []
            for c in cur:
                self.line = s[1]
                cond = z3.simplify(self.eval(s[2], c))
                if z3.is_false(cond) or not self.feasible(c, cond):
                    outs.append((None, c))
                    continue
                if not z3.is_true(cond) and self.feasible(c, Not(cond)):
                    outs.append((None, c.assume(Not(cond))))
                for ctl, s2 in self.exec_block(s[3], c.assume(cond)):
                    if ctl is None or (ctl[0] == 'cycle' and ctl[1] in (None, name)):
                        nxt.append(s2)
                    elif ctl[0] == 'exit' and ctl[1] in (None, name):
                        outs.append((None, s2))
                    else:
                        outs.append((ctl, s2))
            cur = nxt
            if not cur:
                return outs if not self.merge_ifs else self.join(outs, st)
            if len(cur) > 64:
                break
        raise Unsupported('while loop')

    def trip(self, s, st):
        lo = z3.simplify(self.eval(s[3], st))
        hi = z3.simplify(self.eval(s[4], st))
        step = conc(self.eval(s[5], st))
        if step is None or step == 0:
            raise Unsupported('loop step')
        if step == 1:
            n = z3.simplify(hi - lo + 1)
        elif step == -1:
            n = z3.simplify(lo - hi + 1)
        elif step > 0:
            n = z3.simplify((hi - lo) / step + 1)
        else:
            n = z3.simplify((lo - hi) / (-step) + 1)
        return lo, step, n

    def exec_do(self, s, st, par=None):
        from . import floop
        return floop.exec_do(self, s, st, par)


class _DummyUnit:
    def __init__(self, module):
        self.module, self.uses, self.contained, self.name, self.fname = module, [], {}, module.name, module.fname


def contains_const(e, c):
    return any(x.eq(c) for x in sym.free_consts(e))


def parse_clauses(d):
    import re
    out = {'private': set(), 'reduction': {}}
    for m in re.finditer(r'(\w+)\s*\(([^()]*)\)', d):
        k, a = m.group(1).lower(), m.group(2)
        if k in ('private', 'firstprivate', 'lastprivate'):
            if k != 'private':
                raise Unsupported(k)
            out['private'] |= {x.strip().lower() for x in a.split(',')}
        elif k == 'reduction':
            op, _, vs = a.partition(':')
            for v in vs.split(','):
                out['reduction'][v.strip().lower()] = op.strip().lower()
        elif k in ('schedule', 'shared', 'default', 'num_threads', 'collapse', 'if'):
            if k == 'collapse':
                raise Unsupported('collapse')
    return out
