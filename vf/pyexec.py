"""Symbolic execution of the real Python functions (their syntax trees, read
from /repo on every run) on symbolic arguments.

A function is executed once per path: every branch on a symbolic condition is
a decision, both outcomes are explored when feasible.  Loops are unrolled when
their iterables are concrete; the loops over the items of a symbolic mapping
are handled by the pointwise rule (an iteration only touches the entry of its
own key, which is checked); any other loop needs an invariant given by the
contract, which is checked on entry and after an arbitrary iteration.
"""
import ast, fractions, itertools, os, re, time
import z3
from . import sym
from .sym import I, R, B, And, Or, Not, If
from .fexec import Unsupported

SRC = '/repo/src/pysimulators/'
KEY = z3.DeclareSort('Key')


class PyRaise(Exception):
    def __init__(self, name):
        self.name = name


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Cut(Exception):
    """the path ends here (infeasible, or cut by a loop invariant)"""


def isz(x):
    return isinstance(x, z3.ExprRef)


def term(x):
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, fractions.Fraction)):
        return z3.RealVal(str(fractions.Fraction(x)))
    raise Unsupported('no term for %r' % (x,))


def num(x):
    """a term usable in arithmetic"""
    x = term(x)
    return If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x


def both(a, b):
    a, b = num(a), num(b)
    if z3.is_real(a) != z3.is_real(b):
        a, b = sym.to_real(a), sym.to_real(b)
    return a, b


CDIV = z3.Function('cdiv', I, I, I)
FDIV = z3.Function('fdiv', I, I, I)


def factors(e):
    e = z3.simplify(e)
    if z3.is_mul(e):
        return [y for x in e.children() for y in factors(x)]
    return [e]


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'slice(%s, %s, %s)' % (self.start, self.stop, self.step)


class Header:
    """a mapping from strings (possibly built from symbolic parts) to numbers"""

    def __init__(self, vm, name):
        self.vm, self.name, self.d, self.h = vm, name, {}, {}
        self.parent, self.written = None, set()

    def has(self, k):
        k = skey(k)
        if k not in self.h and self.parent is not None:
            return self.parent.has_(k)
        return self.has_(k)

    def has_(self, k):
        if k not in self.h and self.parent is not None:
            return self.parent.has_(k)
        if k not in self.h:
            self.h[k] = self.vm.fresh('%s.has.%s' % (self.name, '.'.join(map(str, k))), B)
        return self.h[k]

    def get(self, k):
        return self.get_(skey(k))

    def get_(self, k):
        if k not in self.d and self.parent is not None:
            return self.parent.get_(k)
        if k not in self.d:
            self.d[k] = self.vm.fresh('%s.%s' % (self.name, '.'.join(map(str, k))), R if 'CRPIX' in str(k[0]) else I)
        return self.d[k]

    def set(self, k, v):
        k = skey(k)
        self.d[k], self.h[k] = v, True
        self.written.add(k)
        if self.children:
            raise Unsupported('a header is modified after its copy')

    children = False

    def copy(self):
        out = Header(self.vm, self.name)
        out.parent = self
        self.children = True
        return out


class SStr:
    """concatenation of concrete strings and of str(term)"""

    def __init__(self, *parts):
        p = []
        for x in parts:
            for y in (x.parts if isinstance(x, SStr) else [x]):
                if isinstance(y, str) and p and isinstance(p[-1], str):
                    p[-1] += y
                else:
                    p.append(y)
        self.parts = tuple(p)


def skey(k):
    if isinstance(k, SStr):
        return tuple(x if isinstance(x, str) else ('str', x.get_id()) for x in k.parts)
    if isinstance(k, str) and '<string>' not in k:
        return (k,)
    raise Unsupported('key %r' % (k,))


class Constants:
    """a set that is only looked into"""

    def __init__(self, items):
        self.items = tuple(items)


class PMap:
    """mapping from symbolic keys to reals"""

    def __init__(self, vm, has, val):
        self.vm, self.has, self.val = vm, has, val

    @classmethod
    def fresh(cls, vm, name):
        h = z3.Function(name + '.has', KEY, B)
        v = z3.Function(name + '.val', KEY, R)
        return cls(vm, lambda k: h(k), lambda k: v(k))

    def copy(self):
        return PMap(self.vm, self.has, self.val)

    def put(self, k, v):
        oh, ov = self.has, self.val
        self.has = lambda q, k=k: True if q is k or isz(q) and q.eq(k) else Or(term(q == k), term(oh(q)))
        self.val = lambda q, k=k, v=v: v if q is k or isz(q) and q.eq(k) else If(q == k, sym.to_real(term(v)), term(ov(q)))

    def drop(self, k):
        oh = self.has
        self.has = lambda q, k=k: False if q is k or isz(q) and q.eq(k) else And(Not(term(q == k)), term(oh(q)))

    def exponent(self, k):
        return If(term(self.has(k)), sym.to_real(term(self.val(k))), z3.RealVal(0))


class Items:
    def __init__(self, m, what):
        self.m, self.what = m, what


class Store:
    def __init__(self, get):
        self.get = get


class Arr:
    """a one-dimensional array (the other axes, when any, are carried along):
    element k is at index start + k * step of its store"""

    def __init__(self, store, n, kind='f', start=0, step=1):
        self.store, self.n, self.kind, self.start, self.step = store, n, kind, start, step

    def pos(self, k):
        k = term(k)
        if self.step == 1:
            return z3.simplify(term(self.start) + k)
        return z3.simplify(term(self.start) + k * term(self.step))

    def __call__(self, k):
        return self.store.get(self.pos(k))

    def getter(self):
        """the current contents, unaffected by later writes"""
        g, a = self.store.get, self
        return lambda k: g(a.pos(k))


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Ext:
    """a value with its own rules: vm_getattr, vm_getitem, vm_setitem, vm_setattr, vm_binop (op, other,
    reflected), vm_iop, vm_compare, vm_truth, vm_len, vm_str; what it does not handle is unsupported"""

    def vm_missing(self, vm, *a):
        raise Unsupported('%s: %r' % (type(self).__name__, a[:1]))

    vm_getattr = vm_getitem = vm_setitem = vm_setattr = vm_binop = vm_iop = vm_compare = vm_truth = vm_len = vm_str = vm_unary = vm_missing


class Func:
    def __init__(self, node, module, self_=None):
        self.node, self.module, self.self_ = node, module, self_


class Builtin:
    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class Type:
    def __init__(self, name, check, call=None):
        self.name, self.check, self.call = name, check, call


class Module:
    cache = {}

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(os.path.join(SRC, path)).read())
        self.funcs, self.classes, self.types, self.assigns, self.enums, self.imports = {}, {}, {}, {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.ImportFrom) and n.module and '/' not in path:
                m = n.module if n.level == 1 else n.module[len('pysimulators.'):] if n.level == 0 and n.module.startswith('pysimulators.') else ''
                if m and '.' not in m and os.path.exists(os.path.join(SRC, m + '.py')):
                    for x in n.names:
                        self.imports[x.asname or x.name] = (m + '.py', x.name)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                # evaluated on use; None when the name is bound several times
                x = n.targets[0].id
                self.assigns[x] = None if x in self.assigns else n.value
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n

    @classmethod
    def get(cls, path):
        if path not in cls.cache:
            cls.cache[path] = cls(path)
        return cls.cache[path]

    def where(self, cname):
        """(module, name) of the definition of a class"""
        if cname in self.classes:
            return self, cname
        if cname in self.imports:
            p, x = self.imports[cname]
            return Module.get(p).where(x)
        return self, cname

    def ancestors(self, cname):
        m, cname = self.where(cname)
        c = m.classes.get(cname)
        out = set()
        for b in c.bases if c is not None else ():
            if isinstance(b, ast.Name):
                out |= {b.id} | m.ancestors(b.id)
        return out

    def member(self, cname, name):
        r = self.method(cname, name)
        return None if r is None else r[0]

    def method(self, cname, name):
        """(definition, module)"""
        m, cname = self.where(cname)
        c = m.classes.get(cname)
        if c is None:
            return None
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n, m
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = m.method(b.id, name)
                if r is not None:
                    return r
        return None


class VM:
    def __init__(self, path, timeout=4000, externals=None, loops=None, deadline=None, maxpaths=400, concrete=None):
        self.module = self.main = Module.get(path)
        self.externals = externals or {}
        self.loops = loops or {}
        self.timeout, self.deadline, self.maxpaths = timeout, deadline, maxpaths
        self.partial, self.missed = False, []
        self.used = set()
        self.obligs = []          # (name, conds, goal, line)
        self.reset([])

    # ------------------------------------------------------------- paths
    def reset(self, trace):
        self.trace, self.at, self.conds, self.pending = list(trace), 0, [], []
        self.facts, self.counter, self.instances, self.wheres, self.fancies, self.loopreads, self.frames = [], {}, [], [], [], [], {}
        self.line = 0
        self.depth = 0
        self.module = self.main
        self.same, self.emptiness = {}, {}

    def fresh(self, name, sort=I):
        k = self.counter[name] = self.counter.get(name, 0) + 1
        return z3.Const(name if k == 1 else '%s#%d' % (name, k), sort)

    def fresh_fn(self, name, *sorts):
        k = self.counter[name] = self.counter.get(name, 0) + 1
        return z3.Function(name if k == 1 else '%s#%d' % (name, k), *sorts)

    def assume(self, *c):
        self.conds += [term(x) for x in c]

    def fact(self, *c):
        self.facts += c

    def feasible(self, c):
        s = z3.Solver()
        s.set('timeout', 800)
        s.add(*self.conds, *self.facts, c)
        t0 = time.time()
        r = s.check()
        sym.STATS.time += time.time() - t0
        sym.STATS.queries += 1
        return r != z3.unsat

    def decide(self, c):
        if not isz(c):
            return bool(c)
        if not z3.is_bool(c):
            c = num(c) != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('out of time')
        if self.at < len(self.trace):
            v = self.trace[self.at]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise Cut()
            v = t
            if t and f:
                self.pending.append(self.trace[:self.at] + [False])
            self.trace.append(v)
        self.at += 1
        self.conds.append(c if v else z3.Not(c))
        return v

    def explore(self, setup):
        """setup(vm) -> thunk; yields (kind, value, vm) for every path"""
        todo = [[]]
        npaths = 0
        while todo:
            tr = todo.pop()
            self.reset(tr)
            npaths += 1
            if npaths > self.maxpaths:
                raise Unsupported('too many paths')
            try:
                run = setup(self)
                val = run()
                out = ('return', val)
            except PyRaise as e:
                out = ('raise', e.name)
            except Cut:
                out = None
            except Unsupported as e:
                if not self.partial or self.deadline and time.time() > self.deadline:
                    raise
                self.missed.append(str(e))
                out = None
            todo += self.pending
            self.pending = []
            if out is not None:
                yield out

    def oblige(self, name, goal):
        self.obligs.append((name, list(self.conds), list(self.facts), term(goal), self.line))

    # -------------------------------------------------------- arithmetic
    def cdiv(self, a, b):
        """ceiling of a / b, b > 0 or b < 0"""
        a, b = z3.simplify(term(a)), z3.simplify(term(b))
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long():
            return z3.IntVal(-((-a.as_long()) // b.as_long()))
        q = CDIV(a, b)
        self.fact(z3.Implies(b > 0, z3.And(b * (q - 1) < a, a <= b * q)), z3.Implies(b < 0, z3.And(b * (q - 1) > a, a >= b * q)),
                  z3.Implies(z3.And(b > 0, a > 0), q > 0), z3.Implies(z3.And(b > 0, a <= 0), q <= 0))
        return q

    def fdiv(self, a, b):
        a, b = z3.simplify(term(a)), z3.simplify(term(b))
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.simplify(a / b)
        if self.decide(b == 0):
            raise PyRaise('ZeroDivisionError')
        if a.eq(b):
            return z3.IntVal(1)
        # (b * x + r) // b
        if z3.is_add(a):
            div, rest = [], []
            for x in a.children():
                (div if any(y.eq(b) for y in factors(x)) else rest).append(x)
            if div and rest:
                return z3.simplify(sum(term(self.fdiv(x, b)) for x in div) + self.fdiv(z3.Sum(rest), b))
        # (x * y) // y
        fa, fb = factors(a), factors(b)
        if len(fa) > 1 or len(fb) > 1:
            for y in fb:
                k = [i for i, x in enumerate(fa) if x.eq(y)]
                if not k:
                    break
                del fa[k[0]]
            else:
                return z3.simplify(z3.Product(fa)) if fa else z3.IntVal(1)
        q = FDIV(a, b)
        self.fact(z3.Implies(b > 0, z3.And(b * q <= a, a < b * q + b)), z3.Implies(b < 0, z3.And(b * q >= a, a > b * q + b)))
        return q

    def binop(self, op, a, b):
        if isinstance(a, Obj) and a.cls in (getattr(a, 'module', None) or self.module).classes:
            m = '__%s__' % {'Mult': 'mul', 'Div': 'truediv', 'Add': 'add', 'Sub': 'sub', 'MatMult': 'matmul'}.get(op, op)
            if m not in a.attrs and (getattr(a, 'module', None) or self.module).method(a.cls, m) is not None:
                r = self.call_method(a, m, [b], {})
                if isinstance(r, Obj) and r.cls == 'NotImplemented':
                    raise Unsupported('operands not handled')
                return r
        if isinstance(a, Ext):
            return a.vm_binop(self, op, b, False)
        if isinstance(b, Ext):
            return b.vm_binop(self, op, a, True)
        for x, y, m in ((a, b, '__%s__'), (b, a, '__r%s__')):
            m = m % {'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'Add': 'add', 'Sub': 'sub'}.get(op, op)
            if isinstance(x, Obj) and m in x.attrs:
                return self.call(x.attrs[m], [y], {})
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op == 'Add':
            return a + b if isinstance(a, str) and isinstance(b, str) else SStr(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op == 'Add':
            return a + b
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arrop(op, a, b)
        if op == 'Mult' and (isinstance(a, (tuple, list)) and isinstance(b, int) or isinstance(b, (tuple, list)) and isinstance(a, int)):
            return a * b
        if not isz(a) and not isz(b):
            if isinstance(a, (int, float, fractions.Fraction)) and isinstance(b, (int, float, fractions.Fraction)):
                try:
                    if op == 'Div':
                        return fractions.Fraction(a) / fractions.Fraction(b)
                    return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                            'Pow': lambda: a ** b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b}[op]()
                except ZeroDivisionError:
                    raise PyRaise('ZeroDivisionError')
                except KeyError:
                    raise Unsupported('operator %s' % op)
            raise Unsupported('operands of %s: %r, %r' % (op, a, b))
        if op in ('BitAnd', 'BitOr'):
            x, y = term(a), term(b)
            if z3.is_bool(x) and z3.is_bool(y):
                return And(x, y) if op == 'BitAnd' else Or(x, y)
            raise Unsupported('bitwise operation')
        x, y = both(a, b)
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mult':
            return x * y
        if op == 'Div':
            if self.decide(y == 0):
                raise PyRaise('ZeroDivisionError')
            r = sym.to_real(x) / sym.to_real(y)
            if z3.simplify(x).eq(z3.simplify(y)):
                return z3.RealVal(1)
            if z3.is_int(x) and z3.is_int(y):
                RATIO[r.get_id()] = (r, x, y)
            return r
        if op in ('FloorDiv', 'Mod') and z3.is_int(x):
            q = self.fdiv(x, y)
            return q if op == 'FloorDiv' else x - y * q
        if op == 'Pow' and not isz(b) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return r
        raise Unsupported('operator %s' % op)

    def length(self, x):
        if isinstance(x, Ext):
            return x.vm_len(self)
        if isinstance(x, Arr):
            return x.n
        if isinstance(x, (tuple, list, str, dict)):
            return len(x)
        if isinstance(x, Items):
            x = x.m
        if isinstance(x, PMap):
            if x.has in self.emptiness:
                e, n = self.emptiness[x.has]
                return 0 if self.decide(e) else n
            k, q = self.fresh('anykey', KEY), z3.Const('q!len', KEY)
            if isinstance(x.has(k), bool):
                if not x.has(k):
                    return 0
            none = z3.ForAll([q], z3.Not(term(x.has(q))))
            e, n = self.fresh('empty', B), self.fresh('len')
            self.emptiness[x.has] = e, n
            self.fact(z3.Implies(e, none), z3.Implies(z3.Not(e), z3.And(term(x.has(k)), n > 0)))
            return 0 if self.decide(e) else n
        if isinstance(x, Obj):
            return self.call_method(x, '__len__', [], {})
        raise Unsupported('len of %r' % (x,))

    # ------------------------------------------------------------ arrays
    def new(self, n, get, kind='f'):
        """an array made by numpy: contiguous"""
        a = Arr(Store(get), n, kind)
        a.store.fresh = True
        return a

    def arrop(self, op, a, b):
        n = None
        for x in (a, b):
            if isinstance(x, Arr):
                n = x.n if n is None else self.broadcast(n, x.n)
        ga, gb = [x.getter() if isinstance(x, Arr) else (lambda k, x=x: x) for x in (a, b)]
        sa, sb = [isinstance(x, Arr) and self.single(x, n) for x in (a, b)]
        kind = 'i' if all((x.kind if isinstance(x, Arr) else 'i' if isinstance(x, int) or isz(x) and z3.is_int(x) else 'f') == 'i' for x in (a, b)) and op != 'Div' else 'f'
        if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            return self.new(n, lambda k: self.compare1(op, ga(0 if sa else k), gb(0 if sb else k)), 'b')
        return self.new(n, lambda k: self.binop(op, ga(0 if sa else k), gb(0 if sb else k)), kind)

    def single(self, x, n):
        """x has one element, broadcast to n"""
        if isz(x.n) and isz(n) and x.n.eq(n) or x.n is n:
            return False
        if not isz(x.n):
            return x.n == 1 and not (not isz(n) and n == 1)
        return self.decide(x.n == 1)

    def broadcast(self, n, m):
        n, m = term(n), term(m)
        if n.eq(m) or self.decide(n == m):
            return n
        if self.decide(n == 1):
            return m
        if self.decide(m == 1):
            return n
        raise PyRaise('ValueError')

    def slice_indices(self, s, n):
        """start, step, length of range(*s.indices(n))"""
        n = term(n)
        step = 1 if s.step is None else s.step
        if self.decide(term(step) == 0):
            raise PyRaise('ValueError')
        pos = self.decide(term(step) > 0)
        lo, hi = (z3.IntVal(0), n) if pos else (z3.IntVal(-1), n - 1)

        def clamp(x, default):
            if x is None:
                return default
            x = term(x)
            x = If(x < 0, x + n, x)
            return z3.simplify(If(x < lo, lo, If(x > hi, hi, x)))
        start = clamp(s.start, lo if pos else hi)
        stop = clamp(s.stop, hi if pos else lo)
        d = stop - start if pos else start - stop
        if not isz(step) and abs(step) == 1:
            ln = If(d > 0, d, z3.IntVal(0))
        else:
            st = term(step) if pos else -term(step)
            ln = If(d > 0, self.cdiv(d, st), z3.IntVal(0))
        return z3.simplify(start), step, z3.simplify(ln)

    def index_view(self, a, idx):
        """the view a[idx] for slices; None when idx is not a basic index"""
        if isinstance(idx, tuple):
            idx = tuple(x for x in idx if x is not Ellipsis)
            if len(idx) == 0:
                return a
            if len(idx) != 1:
                raise Unsupported('several indices')
            idx = idx[0]
        if idx is Ellipsis:
            return a
        if isinstance(idx, Slice) and hasattr(idx, 'view'):
            st, step, m, n = idx.view
            self.oblige('the index is used on an array of the size of the layout', term(a.n) == n)
            return Arr(a.store, m, a.kind, a.pos(st), step if a.step == 1 else a.step * step)
        if isinstance(idx, Slice):
            if idx.start is None and idx.stop is None and idx.step in (None, 1):
                return a
            st, step, ln = self.slice_indices(idx, a.n)
            return Arr(a.store, ln, a.kind, a.pos(st), step if a.step == 1 else a.step * step)
        return None

    def scalar_index(self, a, i):
        i = term(i)
        if self.decide(i < 0):
            i = i + a.n
        if self.decide(z3.Or(i < 0, i >= term(a.n))):
            raise PyRaise('IndexError')
        return z3.simplify(i)

    def getitem(self, a, idx):
        if isinstance(a, Ext):
            return a.vm_getitem(self, idx)
        if isinstance(a, Arr):
            v = self.index_view(a, idx)
            if v is not None:
                return v
            if isinstance(idx, tuple):
                idx = [x for x in idx if x is not Ellipsis][0]
            if isinstance(idx, Arr):
                return self.fancy(a, idx)
            return a(self.scalar_index(a, idx))
        if isinstance(a, (tuple, list, str)):
            if isinstance(idx, Slice):
                return a[slice(self.cint(idx.start), self.cint(idx.stop), self.cint(idx.step))]
            try:
                return a[self.cint(idx)]
            except IndexError:
                raise PyRaise('IndexError')
        if isinstance(a, PMap):
            if not self.decide(a.has(idx)):
                raise PyRaise('KeyError')
            return a.val(idx)
        if isinstance(a, Header):
            if not self.decide(a.has(idx)):
                raise PyRaise('KeyError')
            return a.get(idx)
        if isinstance(a, dict):
            if idx in a:
                return a[idx]
            raise PyRaise('KeyError')
        if isinstance(a, Obj):
            return self.call_method(a, '__getitem__', [idx], {})
        raise Unsupported('subscript of %r' % (a,))

    def cint(self, x):
        if x is None or isinstance(x, int):
            return x
        if isz(x):
            x = z3.simplify(x)
            if z3.is_int_value(x):
                return x.as_long()
        raise Unsupported('symbolic index of a sequence')

    def fancy(self, a, idx):
        """a[idx] with idx an array of integers or booleans"""
        if idx.kind == 'b':
            # the selected positions, in increasing order
            w = self.where(idx)
            return self.fancy(a, w)
        g, h = a.getter(), idx.getter()
        n = term(a.n)

        def norm(k):
            i = term(h(k))
            return If(i < 0, i + n, i)
        k = self.fresh('k')
        self.oblige('indices of the selection within the array', z3.Implies(z3.And(0 <= k, k < term(idx.n)), And(-n <= term(h(k)), term(h(k)) < n)))
        return self.new(idx.n, lambda k: g(norm(k)), a.kind)

    def where(self, mask):
        """positions of the true elements, in increasing order"""
        g = mask.getter()
        memo = getattr(mask.store, 'where_', None)
        if memo and memo[0] is mask.store.get and mask.start == 0 and mask.step == 1:
            return memo[1]
        probe = z3.Int('k!probe')
        sig = (z3.simplify(term(mask.n)), z3.simplify(term(g(probe))))
        for n0, t0, r0 in self.wheres:
            if n0.eq(sig[0]) and t0.eq(sig[1]):
                return r0
        cnt = self.fresh_fn('rank', I, I)        # number of true elements before i
        pos = self.fresh_fn('where', I, I)
        n = self.fresh('nwhere')
        N = term(mask.n)
        i, j = z3.Int('i!w'), z3.Int('j!w')
        self.fact(0 <= n, n <= N, cnt(0) == 0, cnt(N) == n)
        self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pos(i), pos(i) < N, term(g(pos(i))), cnt(pos(i)) == i)), patterns=[pos(i)]))
        r = self.new(n, lambda k: pos(term(k)), 'i')
        r.mask, r.rank, r.posf = g, cnt, pos

        def about_pos(k):      # facts on where(k)
            k = term(k)
            return z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= pos(k), pos(k) < N, term(g(pos(k))), cnt(pos(k)) == k))

        def about_rank(i):
            i = term(i)
            return z3.And(z3.Implies(z3.And(0 <= i, i <= N), z3.And(0 <= cnt(i), cnt(i) <= i, cnt(i) <= n)),
                          z3.Implies(z3.And(0 <= i, i < N), z3.And(cnt(i + 1) == cnt(i) + If(term(g(i)), z3.IntVal(1), z3.IntVal(0)),
                                                                   z3.Implies(term(g(i)), z3.And(pos(cnt(i)) == i, cnt(i) < n)))))
        r.about_pos, r.about_rank = about_pos, about_rank
        mask.store.where_ = (mask.store.get, r)
        self.wheres.append(sig + (r,))
        return r

    def assign(self, v, w):
        """v[...] = w where v is a view"""
        s = v.store
        old = s.get
        start, step, ln = term(v.start), v.step, term(v.n)
        if isinstance(w, Arr):
            one = False
            if not (term(w.n).eq(ln) or self.decide(term(w.n) == ln)):
                if self.decide(term(w.n) == 1):
                    one = True
                else:
                    raise PyRaise('ValueError')
            gw = w.getter()
            src = (lambda k: gw(0)) if one else gw
        else:
            src = lambda k: w
        real = v.kind == 'f'

        def cast(x):
            x = term(x)
            return sym.to_real(x) if real and not z3.is_bool(x) else x

        def get(i):
            i = term(i)
            if not isz(step) and abs(step) == 1:
                k = i - start if step == 1 else start - i
                hit = And(k >= 0, k < ln)
            else:
                k = self.fdiv(i - start, term(step))
                hit = And(k * term(step) == i - start, k >= 0, k < ln)
            k = z3.simplify(k)
            hit = z3.simplify(hit)
            if z3.is_true(hit):
                return cast(src(k))
            if z3.is_false(hit):
                return old(i)
            return If(hit, cast(src(k)), cast(old(i)))
        s.get = get

    def fancy_assign(self, a, idx, w):
        """a[idx] = w with idx an array of integers (all different: obliged) or booleans"""
        if idx.kind == 'b':
            if isinstance(w, Arr):
                raise Unsupported('assignment of an array through a mask')
            g = idx.getter()
            old = a.store.get
            if a.step != 1:
                raise Unsupported('mask over a strided array')
            st = term(a.start)
            a.store.get = lambda i: If(And(0 <= term(i) - st, term(i) - st < term(a.n), term(g(term(i) - st))), self.like(a, w), self.like(a, old(i)))
            return
        h = idx.getter()
        n, m = term(a.n), term(idx.n)
        if a.step != 1:
            raise Unsupported('indices over a strided array')
        k, l = self.fresh('k'), self.fresh('l')
        self.oblige('indices within the array', z3.Implies(z3.And(0 <= k, k < m), And(-n <= term(h(k)), term(h(k)) < n)))
        hit = self.fresh_fn('hit', I, B)       # some index k of idx is i
        who = self.fresh_fn('who', I, I)       # the last one
        old = a.store.get
        one = isinstance(w, Arr) and not (term(w.n).eq(m) or self.decide(term(w.n) == m))
        if one and not self.decide(term(w.n) == 1):
            raise PyRaise('ValueError')
        gw = w.getter() if isinstance(w, Arr) else None
        st = term(a.start)

        def norm(k):
            i = term(h(k))
            return If(i < 0, i + n, i)

        def get(i):
            j = z3.simplify(term(i) - st)
            self.fact(z3.Implies(hit(j), z3.And(0 <= who(j), who(j) < m, norm(who(j)) == j)))
            v = w if gw is None else gw(0) if one else gw(who(j))
            return If(hit(j), self.like(a, v), self.like(a, old(i)))
        a.store.get = get

        def instance(k):
            """idx[k] is assigned, by the last of the equal indices"""
            j = norm(k)
            return z3.Implies(z3.And(0 <= term(k), term(k) < m), z3.And(hit(j), who(j) >= term(k)))
        a.last_fancy = (hit, who, instance)
        self.last_fancy = (hit, who, instance)
        self.fancies.append(self.last_fancy)

    def like(self, a, v):
        v = term(v)
        return sym.to_real(v) if a.kind == 'f' and not z3.is_bool(v) else v

    def setitem(self, a, idx, w):
        if isinstance(a, Ext):
            return a.vm_setitem(self, idx, w)
        if isinstance(a, Arr):
            if isinstance(idx, tuple):
                idx = tuple(x for x in idx if x is not Ellipsis) or Ellipsis
                if isinstance(idx, tuple) and len(idx) == 1:
                    idx = idx[0]
            if getattr(a, 'readonly', False):
                self.oblige('the array is not written', False)
            if idx is Ellipsis or isinstance(idx, Slice):
                v = self.index_view(a, idx)
                return self.assign(v, w)
            if isinstance(idx, Arr):
                return self.fancy_assign(a, idx, w)
            i = self.scalar_index(a, idx)
            return self.assign(Arr(a.store, 1, a.kind, a.pos(i), 1), w)
        if isinstance(a, PMap):
            if getattr(a, 'readonly', False):
                self.oblige('the operand is not modified', False)
            return a.put(idx, w)
        if isinstance(a, Header):
            if getattr(a, 'readonly', False):
                self.oblige('the argument is not modified', False)
            return a.set(idx, w)
        if isinstance(a, (list, dict)):
            a[idx if isinstance(a, dict) else self.cint(idx)] = w
            return
        raise Unsupported('assignment to an element of %r' % (a,))

    def delitem(self, a, idx):
        if isinstance(a, PMap):
            if getattr(a, 'readonly', False):
                self.oblige('the operand is not modified', False)
            if not self.decide(a.has(idx)):
                raise PyRaise('KeyError')
            return a.drop(idx)
        raise Unsupported('del of an element of %r' % (a,))

    # ------------------------------------------------------- comparisons
    def compare1(self, op, a, b):
        if a is not None and b is not None and (isinstance(a, str) and '<string>' in a or isinstance(b, str) and '<string>' in b):
            raise Unsupported('contents of a string')
        if op in ('Is', 'IsNot'):
            if a is None or b is None or a is Ellipsis or b is Ellipsis:
                r = a is b
            elif isinstance(a, (Type, Obj, Arr, PMap, Builtin, Header, Ext)) or isinstance(b, (Type, Obj, Arr, PMap, Builtin, Header, Ext)) \
                    or isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            else:
                raise Unsupported('identity of %r and %r' % (a, b))
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            if isinstance(b, (PMap, Header)):
                r = b.has(a)
            elif isinstance(b, (tuple, list)):
                r = False
                for x in b:
                    e = self.compare1('Eq', a, x)
                    if self.decide(e):
                        r = True
                        break
            elif isinstance(b, Obj) and '__contains__' in b.attrs:
                r = self.call(b.attrs['__contains__'], [a], {})
            elif isinstance(b, (dict, str)) and isinstance(a, str) or isinstance(b, dict) and isinstance(a, (Builtin, Type, int, type(None))):
                r = a in b
            elif isinstance(b, Constants):
                r = self.compare1('In', a, b.items)
            else:
                raise Unsupported('membership in %r' % (b,))
            return r if op == 'In' else Not(term(r)) if isz(r) else not r
        if isinstance(a, Ext):
            return a.vm_compare(self, op, b)
        if isinstance(b, Ext):
            return b.vm_compare(self, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), a)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arrop(op, a, b)
        if op in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and '__eq__' in x.attrs:
                    r = self.call(x.attrs['__eq__'], [y], {})
                    return r if op == 'Eq' else Not(term(r)) if isz(r) else not r
        if op in ('Eq', 'NotEq') and isinstance(a, PMap) and isinstance(b, PMap):
            return self.samemap(a, b) == (op == 'Eq')
        if op in ('Eq', 'NotEq') and (isinstance(a, Builtin) or isinstance(b, Builtin) or isinstance(a, Obj) and isinstance(b, Obj) and 'Enum' in (a.cls, b.cls)):
            return (a is b) == (op == 'Eq')
        if op in ('Eq', 'NotEq') and (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            if len(a) != len(b):
                r = False
            else:
                r = True
                for x, y in zip(a, b):
                    e = self.compare1('Eq', x, y)
                    r = And(term(r), term(e)) if isz(r) or isz(e) else r and e
            return r if op == 'Eq' else (Not(r) if isz(r) else not r)
        if not isz(a) and not isz(b):
            if isinstance(a, (int, float, str, fractions.Fraction, type(None), type(Ellipsis), Type)) and isinstance(b, (int, float, str, fractions.Fraction, type(None), type(Ellipsis), Type)):
                try:
                    return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
                except TypeError:
                    raise PyRaise('TypeError')
            raise Unsupported('comparison of %r and %r' % (a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str) or a is Ellipsis or b is Ellipsis:
            if op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            raise PyRaise('TypeError')
        if isz(a) and a.sort() == KEY or isz(b) and b.sort() == KEY:
            x, y = a, b
        else:
            x, y = term(a), term(b)
            if not (z3.is_bool(x) and z3.is_bool(y)):
                x, y = both(a, b)
        return {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()

    def samemap(self, a, b):
        if a is b or a.has is b.has and a.val is b.val:
            return True
        key = frozenset([(a.has, a.val), (b.has, b.val)])
        if key not in self.same:
            q, k = z3.Const('q!same', KEY), self.fresh('differ', KEY)
            self.same[key] = e = self.fresh('samemap', B)
            one = lambda x: z3.And(term(a.has(x)) == term(b.has(x)), z3.Implies(term(a.has(x)), sym.to_real(term(a.val(x))) == sym.to_real(term(b.val(x)))))
            self.fact(z3.Implies(e, z3.ForAll([q], one(q))), z3.Implies(z3.Not(e), z3.Not(one(k))))
        return self.decide(self.same[key])

    def truth(self, v):
        if isinstance(v, Ext):
            return v.vm_truth(self)
        if v is None:
            return False
        if isinstance(v, (tuple, list, str, dict)):
            return len(v) > 0
        if isinstance(v, (int, float, fractions.Fraction)):
            return bool(v)
        if isinstance(v, (PMap, Items)):
            n = self.length(v)
            return self.decide(n > 0) if isz(n) else n > 0
        if isz(v):
            return self.decide(v)
        if isinstance(v, Arr):
            raise Unsupported('truth of an array')
        return True

    # ------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('%s at line %d' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return fractions.Fraction(v)
        return v

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        return self.glob(e.id)

    def glob(self, name):
        if name in self.externals:
            return self.externals[name]
        if name in self.module.funcs:
            return Func(self.module.funcs[name], self.module)
        if name in BUILTINS:
            return BUILTINS[name]
        if name in self.module.classes:
            if name not in self.module.types:
                self.module.types[name] = self.classtype(self.module, name)
            return self.module.types[name]
        if name in self.module.imports:
            path, x = self.module.imports[name]
            m, self.module = self.module, Module.get(path)
            try:
                return self.glob(x)
            finally:
                self.module = m
        if self.module.assigns.get(name) is not None:
            return self.ev(self.module.assigns[name], {})
        raise Unsupported('name %s' % name)

    def classtype(self, m, name):
        def check(v):
            return isinstance(v, Obj) and (v.cls == name or name in (getattr(v, 'module', None) or m).ancestors(v.cls))
        t = Type(name, check, self.dataclass(name) or self.constructor(name))
        t.module = m
        return t

    def constructor(self, name):
        """classes without a base outside the module"""
        todo = [name]
        while todo:
            c = self.module.classes.get(todo.pop())
            if c is None or c.decorator_list or c.keywords or not all(isinstance(b, ast.Name) for b in c.bases):
                return None
            todo += [b.id for b in c.bases]
        if self.module.member(name, '__init__') is None or self.module.member(name, '__new__') is not None:
            return None

        m = self.module

        def make(vm, *a, **k):
            o = Obj(name, {})
            o.module = m
            n, where = m.method(name, '__init__')
            vm.call(Func(n, where, o), list(a), k)
            return o
        return make

    def dataclass(self, name):
        c = self.module.classes[name]
        if not any(isinstance(d, ast.Name) and d.id == 'dataclass' for d in c.decorator_list):
            return None
        fields = [n for n in c.body if isinstance(n, ast.AnnAssign)]

        def make(vm, *a, **k):
            if len(a) > len(fields) or any(x not in [f.target.id for f in fields] for x in k):
                raise PyRaise('TypeError')
            o = {}
            for j, f in enumerate(fields):
                o[f.target.id] = a[j] if j < len(a) else k[f.target.id] if f.target.id in k else vm.ev(f.value, {})
            return Obj(name, o)
        return make

    def ev_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def ev_List(self, e, env):
        return list(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Set(self, e, env):
        return Constants(self.elts(e, env))

    def ev_Dict(self, e, env):
        if not e.keys:
            m = PMap(self, lambda k: False, lambda k: z3.RealVal(0))
            m.blank = m.has
            return m
        return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}

    def ev_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        if isinstance(a, (str, SStr)) and isinstance(e.op, ast.Mod):
            p = re.split('%[sd]', a) if isinstance(a, str) else []
            b = b if isinstance(b, tuple) else (b,)
            if len(p) != len(b) + 1 or any('%' in x for x in p):
                return '<string>'
            return self.joined([y for x in zip(p, b) for y in x] + p[-1:])
        return self.binop(type(e.op).__name__, a, b)

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(v)
        if isinstance(v, Ext):
            return v.vm_unary(self, op)
        if op == 'Invert' and isinstance(v, Arr) and v.kind == 'b':
            g = v.getter()
            return self.new(v.n, lambda k: Not(term(g(k))), 'b')
        if op == 'USub':
            if isinstance(v, Arr):
                g = v.getter()
                return self.new(v.n, lambda k: -term(g(k)), v.kind)
            return -num(v) if isz(v) else -v
        if op == 'UAdd':
            return v
        raise Unsupported('unary %s' % op)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if t != isand:
                return v if not isz(v) else t
        return v

    def ev_Compare(self, e, env):
        a = self.ev(e.left, env)
        r = None
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            r = self.compare1(type(op).__name__, a, b)
            if x is not e.comparators[-1] and not self.truth(r):
                return False
            a = b
        return r

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ev_JoinedStr(self, e, env):
        values = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                values.append(v.value)
            elif isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1:
                values.append(self.ev(v.value, env))
            else:
                return '<string>'
        return self.joined(values)

    def joined(self, values):
        parts = []
        for x in values:
            if isinstance(x, (str, int)):
                parts.append(str(x))
            elif isinstance(x, Ext):
                try:
                    parts.append(x.vm_str(self))
                except Unsupported:
                    return '<string>'
            elif isz(x) or isinstance(x, SStr):
                parts.append(x)
            else:
                return '<string>'
        return ''.join(parts) if all(isinstance(p, str) for p in parts) else SStr(*parts)

    def ev_Slice(self, e, env):
        return Slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])

    def ev_Subscript(self, e, env):
        a = self.ev(e.value, env)
        return self.getitem(a, self.ev(e.slice, env))

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, v, name):
        if isinstance(v, Ext):
            return v.vm_getattr(self, name)
        if isinstance(v, Obj):
            if name == '__dict__':
                return v.attrs
            if name == '__class__' and name not in v.attrs:
                return self.typeof(v)
            if name in v.attrs:
                return v.attrs[name]
            n = (getattr(v, 'module', None) or self.module).method(v.cls, name)
            if n is None:
                raise Unsupported('attribute %s of %s' % (name, v.cls))
            n, where = n
            decos = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
            if 'property' in decos:
                return self.call(Func(n, where, v), [], {})
            if 'staticmethod' in decos:
                return Func(n, where)
            if decos == ['classmethod']:
                return Func(n, where, self.typeof(v))
            if decos:
                raise Unsupported('decorator of %s' % name)
            return Func(n, where, v)
        if isinstance(v, Type) and v.name in (getattr(v, 'module', None) or self.module).classes:
            return self.classattr(v, name)
        if isz(v) and z3.is_real(v) and name == 'T':
            return v
        if isinstance(v, (Type, Builtin)) and name == '__name__':
            return v.name
        if isinstance(v, dict):
            if name == 'get':
                return Builtin(lambda vm, k, d=None: v.get(k, d))
            if name == 'pop':
                return Builtin(lambda vm, k, d=None: v.pop(k, d))
            if name == 'copy':
                return Builtin(lambda vm: dict(v))
            if name in ('items', 'keys', 'values'):
                return Builtin(lambda vm: [tuple(x) if name == 'items' else x for x in getattr(v, name)()])
        if isinstance(v, Slice) and name in ('start', 'stop', 'step'):
            return getattr(v, name)
        if isinstance(v, Arr):
            if name == 'shape':
                return (v.n,)
            if name == 'size':
                return v.n
            if name == 'ndim':
                return 1
            if name == 'T':
                return v
            if name == 'dtype':
                return getattr(v, 'dtype_', None) or {'f': BUILTINS['float'], 'i': BUILTINS['int'], 'b': BUILTINS['bool']}[v.kind]
            if name == '__array_finalize__':
                return None
            if name == 'flags':
                return Obj('flags', {'writeable': True, 'c_contiguous': True})
            return Builtin(lambda vm, *a, **k: ARRAY[name](vm, v, *a, **k) if name in ARRAY else vm.unsup(name), name)
        if isinstance(v, Items):
            v = v.m
        if isinstance(v, PMap):
            if name in ('items', 'keys', 'values'):
                return Builtin(lambda vm: Items(v, name))
            if name == 'copy':
                return Builtin(lambda vm: v.copy())
            if name == 'get':
                def get(vm, k, d=None):
                    return v.val(k) if vm.decide(v.has(k)) else d
                return Builtin(get)
            if name == 'setdefault':
                def setdefault(vm, k, d=None):
                    if not vm.decide(v.has(k)):
                        vm.setitem(v, k, d)
                    return v.val(k)
                return Builtin(setdefault)
            if name == 'pop':
                def pop(vm, k, *d):
                    if vm.decide(v.has(k)):
                        r = v.val(k)
                        vm.delitem(v, k)
                        return r
                    if d:
                        return d[0]
                    raise PyRaise('KeyError')
                return Builtin(pop)
            if name == 'update':
                def update(vm, o):
                    if not isinstance(o, PMap):
                        vm.unsup('update')
                    if getattr(v, 'readonly', False):
                        vm.oblige('the operand is not modified', False)
                    oh, ov, nh, nv = v.has, v.val, o.has, o.val
                    v.has = lambda q: Or(term(nh(q)), term(oh(q)))
                    v.val = lambda q: If(term(nh(q)), term(nv(q)), term(ov(q)))
                return Builtin(update)
        if isinstance(v, Header) and name == 'copy':
            return Builtin(lambda vm: v.copy())
        if isinstance(v, list) and name == 'append':
            return Builtin(lambda vm, x: v.append(x))
        if isinstance(v, list) and name == 'pop':
            return Builtin(lambda vm, *a: v.pop(*a))
        if isinstance(v, list) and name == 'copy':
            return Builtin(lambda vm: list(v))
        if isinstance(v, Namespace):
            if name in v.d:
                return v.d[name]
            if v.complete:
                raise PyRaise('AttributeError')
            raise Unsupported('%s.%s' % (v.name, name))
        if isinstance(v, (tuple, list)) and name == 'index':
            def index(vm, x):
                for k, y in enumerate(v):
                    if vm.decide(vm.compare1('Eq', x, y)):
                        return k
                raise PyRaise('ValueError')
            return Builtin(index)
        if isinstance(v, str) and '<string>' in v:
            raise Unsupported('contents of a string')
        if isinstance(v, str) and name == 'format' and not re.search(r'\{[^}]|\}\}', v):
            def fmt(vm, *a):
                p = v.split('{}')
                if len(p) != len(a) + 1:
                    raise Unsupported('format')
                return vm.joined([y for x in zip(p, a) for y in x] + p[-1:])
            return Builtin(fmt)
        if isinstance(v, str) and name == 'join':
            def join(vm, x):
                x = list(vm.iterate(x))
                return vm.joined([y for k, e in enumerate(x) for y in ([v] if k else []) + [e]])
            return Builtin(join)
        if isinstance(v, str) and name in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'replace'):
            return Builtin(lambda vm, *a: getattr(v, name)(*a))
        raise Unsupported('attribute %s of %r' % (name, v))

    def typeof(self, v):
        m, self.module = self.module, getattr(v, 'module', None) or self.module
        try:
            return self.glob(v.cls)
        finally:
            self.module = m

    def classattr(self, t, name):
        m = getattr(t, 'module', None) or self.module
        c = m.classes[t.name]
        n = m.method(t.name, name)
        if n is not None:
            n, where = n
            decos = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
            if decos == ['classmethod']:
                return Func(n, where, t)
            if decos in ([], ['staticmethod']):
                return Func(n, where)
        if any(isinstance(b, ast.Name) and b.id == 'Enum' for b in c.bases):
            for x in c.body:
                if isinstance(x, ast.Assign) and x.targets[0].id == name:
                    return m.enums.setdefault((t.name, name), Obj('Enum', {'name': name, '__class__': t.name}))
        raise Unsupported('attribute %s of %s' % (name, t.name))

    def setattr(self, o, name, v):
        if getattr(o, 'readonly', False):
            self.oblige('the object is not modified', False)
        o.attrs[name] = v

    def unsup(self, what):
        raise Unsupported(str(what))

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.ev(a.value, env))
            else:
                args.append(None if False else self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, PMap) and getattr(d, 'blank', None) is d.has:
                    continue
                if not isinstance(d, dict) or not all(isinstance(x, str) for x in d):
                    raise Unsupported('** arguments')
                kw.update(d)
                continue
            kw[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        return self.call(f, args, kw)

    def instances_at(self, k):
        """the universal facts of all() and any(), at k"""
        for b, al, n, g in getattr(self, 'instances', []):
            x = term(g(k))
            self.fact(z3.Implies(z3.And(b if al else z3.Not(b), 0 <= k, k < n), x if al else z3.Not(x)))

    def call_method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kw)
        if isinstance(f, Type) and f.call is not None:
            return f.call(self, *args, **kw)
        if not isinstance(f, Func):
            raise Unsupported('call of %r' % (f,))
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('recursion')
        n = f.node
        a = n.args
        env = {}
        if f.self_ is not None:
            args = [f.self_] + list(args)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError')
        for x, v in zip(names, args):
            env[x] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        more = {}
        for k, v in kw.items():
            if a.kwarg is not None and k not in names:
                more[k] = v
                continue
            if k not in names or k in env:
                raise PyRaise('TypeError')
            env[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = more
        for x in names:
            if x not in env:
                if x not in defaults:
                    raise PyRaise('TypeError')
                env[x] = self.ev(defaults[x], {})
        self.used.add('%s:%s' % (f.module.path, n.name))
        here, self.module = self.module, f.module
        try:
            self.block(n.body, env)
            r = None
        except _Return as e:
            r = e.value
        finally:
            self.module = here
        self.frames[n.name] = env
        self.depth -= 1
        return r

    # --------------------------------------------------- comprehensions
    def ev_ListComp(self, e, env):
        r = self.comp(e, env)
        return r if isinstance(r, Seq) else list(r)

    def ev_GeneratorExp(self, e, env):
        g = e.generators
        if len(g) == 1 and not g[0].is_async:
            it = self.ev(g[0].iter, env)
            if isinstance(it, (Items, PMap)):
                return ('pmapgen', e, it, env)
        r = self.comp(e, env)
        return r if isinstance(r, Seq) else list(r)

    def comp(self, e, env):
        out = []

        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, env)
            if isinstance(it, Seq):
                env2 = dict(env)
                self.bind(e.generators[0].target, it.value, env2)
                return Seq(it.n, it.at, self.ev(e.elt, env2))

        def rec(k, env):
            if k == len(e.generators):
                out.append(self.ev(e.elt, env))
                return
            g = e.generators[k]
            for v in self.iterate(self.ev(g.iter, env)):
                env2 = dict(env)
                self.bind(g.target, v, env2)
                if all(self.truth(self.ev(c, env2)) for c in g.ifs):
                    rec(k + 1, env2)
        rec(0, env)
        return out

    def ev_DictComp(self, e, env):
        g = e.generators[0]
        it = self.ev(g.iter, env)
        if len(e.generators) != 1 or not isinstance(it, (Items, PMap)):
            raise Unsupported('dict comprehension')
        return self.pmapcomp(it, g, e.key, e.value, env)

    def pmapcomp(self, it, g, keye, vale, env):
        src = it.m if isinstance(it, Items) else it
        out = PMap(self, lambda q: False, lambda q: z3.RealVal(0))

        def body(k):
            env2 = dict(env)
            self.bindkey(g.target, it, src, k, env2)
            if all(self.truth(self.ev(c, env2)) for c in g.ifs):
                kk = self.ev(keye, env2)
                if not (isz(kk) and kk.eq(k)):
                    raise Unsupported('keys of a comprehension')
                out.put(k, self.ev(vale, env2))
        self.pointwise(src, [out], body)
        return out

    # --------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.line = s.lineno
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('%s at line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Return(self, s, env):
        raise _Return(None if s.value is None else self.ev(s.value, env))

    def st_Raise(self, s, env):
        x = s.exc
        if isinstance(x, ast.Call):
            x = x.func
        raise PyRaise(x.id if isinstance(x, ast.Name) else 'Exception')

    def st_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise('AssertionError')

    def st_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def st_Match(self, s, env):
        v = self.ev(s.subject, env)

        def matches(p):
            if isinstance(p, ast.MatchValue):
                return self.truth(self.compare1('Eq', v, self.ev(p.value, env)))
            if isinstance(p, ast.MatchOr):
                return any(matches(x) for x in p.patterns)
            if isinstance(p, ast.MatchSingleton):
                return v is p.value
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name is not None:
                    env[p.name] = v
                return True
            raise Unsupported('pattern')
        for c in s.cases:
            if matches(c.pattern) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                return self.block(c.body, env)

    def st_Break(self, s, env):
        raise _Break()

    def st_Continue(self, s, env):
        raise _Continue()

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.bind(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.ev(t, env)
            new = self.ev(s.value, env)
            if isinstance(old, Ext):
                env[t.id] = old.vm_iop(self, op, new)
            elif isinstance(old, Arr):
                self.assign(old, self.arrop(op, old, new))
            elif isinstance(old, list) and op == 'Add':
                old += list(new)
            else:
                env[t.id] = self.binop(op, old, new)
        elif isinstance(t, ast.Subscript):
            a = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.getitem(a, i)
            new = self.ev(s.value, env)
            self.setitem(a, i, old.vm_iop(self, op, new) if isinstance(old, Ext) else self.binop(op, old, new))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            new = self.ev(s.value, env)
            if isinstance(old, Ext):
                new = old.vm_iop(self, op, new)
                if isinstance(o, Obj):
                    self.setattr(o, t.attr, new)
                elif new is not old:
                    raise Unsupported('augmented assignment')
                return
            if not isinstance(o, Obj):
                raise Unsupported('augmented assignment')
            if isinstance(old, Arr):
                if getattr(o, 'readonly', False):
                    self.oblige('the object is not modified', False)
                self.assign(old, self.arrop(op, old, new))
            else:
                self.setattr(o, t.attr, self.binop(op, old, new))
        else:
            raise Unsupported('augmented assignment')

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Name):
                env.pop(t.id)
            else:
                raise Unsupported('del')

    def st_FunctionDef(self, s, env):
        env[s.name] = Builtin(lambda vm, *a: vm.unsup('local function'))

    def st_Import(self, s, env):
        raise Unsupported('import')

    def st_With(self, s, env):
        raise Unsupported('with')

    def st_Try(self, s, env):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = [e.name]
                else:
                    names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)]
                if e.name in names or 'Exception' in names or e.name in ('KeyError', 'IndexError') and 'LookupError' in names:
                    self.block(h.body, env)
                    return
            raise
        else:
            self.block(s.orelse, env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i, after = star[0], len(t.elts) - star[0] - 1
                if len(vs) < i + after:
                    raise PyRaise('ValueError')
                for x, y in zip(t.elts, vs[:i] + [vs[i:len(vs) - after]] + vs[len(vs) - after:]):
                    self.bind(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                self.setattr(o, t.attr, v)
            elif isinstance(o, Ext):
                o.vm_setattr(self, t.attr, v)
            elif isinstance(o, Arr) and t.attr == 'shape':
                raise Unsupported('shape assignment')
            else:
                raise Unsupported('attribute assignment')
        else:
            raise Unsupported('assignment target')

    def iterate(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Arr) and not isz(v.n):
            return [v(k) for k in range(v.n)]
        raise Unsupported('iteration over %r' % (v,))

    def bindkey(self, target, it, src, k, env):
        what = it.what if isinstance(it, Items) else 'keys'
        v = {'items': (k, src.val(k)), 'keys': k, 'values': src.val(k)}[what]
        self.bind(target, v, env)

    def st_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, (PMap, Items)) and getattr(it.m if isinstance(it, Items) else it, 'order', None) is not None:
            return self.loop_items(s, env, it)
        if isinstance(it, (PMap, Items)):
            if s.orelse:
                raise Unsupported('for ... else')
            src = it.m if isinstance(it, Items) else it
            snap = PMap(self, src.has, src.val)
            # every mapping in reach of the body may be modified by it
            maps, seen = [], set()
            for v in list(env.values()) + [src]:
                if isinstance(v, PMap) and id(v) not in seen:
                    seen.add(id(v))
                    maps.append(v)
            assigned = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

            def body(k):
                env2 = dict(env)
                # scalars assigned by the body do not flow between iterations
                for x in assigned:
                    env2.pop(x, None)
                self.bindkey(s.target, it, src, k, env2)
                try:
                    self.block(s.body, env2)
                except _Continue:
                    pass
                except (_Break, _Return):
                    raise Unsupported('early exit of a loop over a mapping')
            self.pointwise(snap, maps, body)
            for x in assigned:
                env.pop(x, None)
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    env.pop(n.id, None)
            return
        if isinstance(it, Range) or s in self.loopspecs():
            return self.loop(s, env, it)
        for v in self.iterate(it):
            self.bind(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        self.block(s.orelse, env)

    def loop_items(self, s, env, it):
        """over a mapping, one item after the other, with the invariant of the contract:
        order is (n, key(i), value(i)); the invariant gives carry(vm, env, i): the state
        after i iterations, and holds(vm, env, i): what is to be shown of it"""
        inv = self.loops.get('items')
        m = it.m if isinstance(it, Items) else it
        if inv is None or s.orelse:
            raise Unsupported('loop without invariant at line %d' % s.lineno)
        n, key, val = m.order
        for nm, g in inv.holds(self, env, z3.IntVal(0)):
            self.oblige('loop invariant on entry: ' + nm, g)
        assigned = {x.id for b in s.body + [s.target] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        state = inv.names(self, env)
        for x in assigned - set(state):
            env.pop(x, None)
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Break) or isinstance(x, ast.Return) and not getattr(inv, 'returns', False):
                    raise Unsupported('early exit of a loop over a mapping')
        if self.decide(self.fresh('iterate', B)):
            i = self.fresh('i')
            self.assume(0 <= i, i < n)
            inv.carry(self, env, i, state)
            k, v = key(i), val(i)
            what = it.what if isinstance(it, Items) else 'keys'
            self.bind(s.target, {'items': (k, v), 'keys': k, 'values': v}[what], env)
            try:
                self.block(s.body, env)
            except _Continue:
                pass
            for nm, g in inv.holds(self, env, i + 1):
                self.oblige('loop invariant preserved: ' + nm, g)
            raise Cut()
        inv.carry(self, env, n, state)

    def loopspecs(self):
        return ()

    def st_While(self, s, env):
        self.loop(s, env, None)

    def loop(self, s, env, it):
        """with the invariant of the contract"""
        if isinstance(it, Range) and not isz(it.lo) and not isz(it.hi) and it.hi - it.lo <= 64:
            for k in range(it.lo, it.hi):
                self.bind(s.target, k, env)
                try:
                    self.block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    pass
            self.block(s.orelse, env)
            return
        inv = self.loops.get('for' if it is not None else 'while')
        if inv is None:
            raise Unsupported('loop without invariant at line %d' % s.lineno)
        assigned = {n.id for b in s.body + ([s.target] if it is not None else []) for n in ast.walk(b)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    raise Unsupported('a loop with an invariant assigns elements')
        self.loopreads += [env[n.id] for b in s.body + ([s.iter] if it is not None else [s.test]) for n in ast.walk(b)
                           if isinstance(n, ast.Name) and n.id in env]
        for nm, g in inv(self, env):
            self.oblige('loop invariant on entry: ' + nm, g)
        for x in assigned:
            old = env.pop(x, None)
            if isz(old) or isinstance(old, (int, float, fractions.Fraction)):
                env[x] = self.fresh('%s!' % x, R if isz(old) and z3.is_real(old) or isinstance(old, (float, fractions.Fraction)) else I)
            elif old is not None:
                raise Unsupported('loop-carried %s' % x)
        for nm, g in inv(self, env):
            self.assume(g)
        if it is not None:
            v = self.fresh('it')
            go = self.decide(self.fresh('iterate', B))
            if go:
                self.assume(term(it.lo) <= v, v < term(it.hi))
                self.bind(s.target, v, env)
        else:
            go = self.truth(self.ev(s.test, env))
        if not go:
            # any number of iterations has run, none of which left by break;
            # variables first assigned in the body may or may not exist
            if it is not None:
                ran = self.decide(term(it.lo) < term(it.hi))
                if ran:
                    # the last iteration ran: what it established still holds
                    v = term(it.hi) - 1
                    self.bind(s.target, v, env)
                    try:
                        self.block(s.body, env)
                    except _Continue:
                        pass
                    except _Break:
                        raise Cut()
            self.block(s.orelse, env)
            return
        try:
            self.block(s.body, env)
        except _Break:
            return
        except _Continue:
            pass
        for nm, g in inv(self, env):
            self.oblige('loop invariant preserved: ' + nm, g)
        raise Cut()

    def pointwise(self, src, maps, body):
        """for every key k of src: body(k), which must read and write the
        mappings at the key k only"""
        k = self.fresh('key', KEY)
        before = [(m.has, m.val) for m in maps]
        outer = (self.trace, self.at, self.conds, self.pending, self.facts)
        base = list(self.conds)
        leaves = []
        todo = [[]]

        def guard(f):
            def g(q):
                if not (isz(q) and q.eq(k)):
                    raise Unsupported('an iteration touches another key')
                return f(q)
            return g
        while todo:
            tr = todo.pop()
            for m, (h, v) in zip(maps, before):
                m.has, m.val = guard(h), guard(v)
                if m.has is src.has:
                    pass
            self.trace, self.at, self.pending = list(tr), 0, []
            self.conds = base + [term(src.has(k))]
            n0 = len(self.conds)
            try:
                body(k)
            except PyRaise as e:
                self.restore(maps, before, outer)
                raise Unsupported('an iteration may raise %s' % e.name)
            except Cut:
                todo += self.pending
                continue
            c = self.conds[n0:]
            leaves.append((z3.And(*c) if c else z3.BoolVal(True), [(term(m.has(k)), sym.to_real(term(m.val(k)))) for m in maps]))
            todo += self.pending
            if len(leaves) > 60:
                raise Unsupported('too many paths in a loop')
        self.restore(maps, before, outer)
        for j, (m, (h, v)) in enumerate(zip(maps, before)):
            def merged(q, what, j=j, h=h, v=v):
                r = term(h(q)) if what == 0 else sym.to_real(term(v(q)))
                for c, eff in leaves:
                    x = z3.substitute(eff[j][what], (k, q)) if isz(q) else eff[j][what]
                    c2 = z3.And(term(src.has(q)), z3.substitute(c, (k, q)))
                    r = If(c2, x, r)
                return r
            m.has = lambda q, f=merged: f(q, 0)
            m.val = lambda q, f=merged: f(q, 1)

    def restore(self, maps, before, outer):
        for m, (h, v) in zip(maps, before):
            m.has, m.val = h, v
        self.trace, self.at, self.conds, self.pending, self.facts = outer


RATIO = {}


class Namespace:
    def __init__(self, name, d, complete=False):
        self.name, self.d, self.complete = name, d, complete


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Seq:
    """a sequence of n elements: element at (a fresh index) is value"""

    def __init__(self, n, at, value):
        self.n, self.at, self.value = n, at, value


# ------------------------------------------------------------------ builtins
def _abs(vm, x):
    if isinstance(x, Arr):
        g = x.getter()
        return vm.new(x.n, lambda k: If(num(g(k)) >= 0, num(g(k)), -num(g(k))), x.kind)
    if not isz(x):
        return abs(x)
    return x if vm.decide(num(x) >= 0) else z3.simplify(-num(x))


def _minmax(sign):
    def f(vm, *a):
        if len(a) == 1:
            a = vm.iterate(a[0])
        r = a[0]
        for x in a[1:]:
            if not isz(r) and not isz(x):
                r = (min if sign < 0 else max)(r, x)
                continue
            p, q = both(r, x)
            r = z3.simplify(If(p < q, p, q) if sign < 0 else If(p > q, p, q))
        return r
    return f


def _ceil(vm, x):
    if not isz(x):
        return fractions.Fraction(-((-fractions.Fraction(x)) // 1))
    if x.get_id() in RATIO:
        _, a, b = RATIO[x.get_id()]
        return z3.ToReal(vm.cdiv(a, b))
    if z3.is_int(x):
        return z3.ToReal(x)
    return z3.ToReal(-z3.ToInt(-x))


def _floor(vm, x):
    if not isz(x):
        return fractions.Fraction(fractions.Fraction(x) // 1)
    if x.get_id() in RATIO:
        _, a, b = RATIO[x.get_id()]
        return z3.ToReal(vm.fdiv(a, b))
    if z3.is_int(x):
        return z3.ToReal(x)
    return z3.ToReal(z3.ToInt(x))


def _int(vm, x=0):
    if not isz(x):
        if isinstance(x, (int, float, fractions.Fraction)):
            return int(x)
        raise Unsupported('int(%r)' % (x,))
    if z3.is_bool(x):
        return num(x)
    if z3.is_int(x):
        return x
    if x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    if x.get_id() in RATIO:
        _, a, b = RATIO[x.get_id()]
        return vm.fdiv(a, b) if vm.decide(x >= 0) else vm.cdiv(a, b)
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def _float(vm, x=0):
    return sym.to_real(num(x)) if isz(x) else fractions.Fraction(x)


def _bool(vm, x=False):
    return vm.truth(x)


def _str(vm, x=''):
    if isinstance(x, (str, SStr)):
        return x
    if isz(x):
        return SStr(x)
    if isinstance(x, Ext):
        return x.vm_str(vm)
    if isinstance(x, (Obj, Func, Builtin, Type, Arr)):
        return '<string>'
    return str(x)


def _isinstance(vm, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if not isinstance(x, Type):
            raise Unsupported('isinstance with %r' % (x,))
        if x.check(v):
            return True
    return False


def _dict(vm, x=None, **k):
    if x is None and not k:
        return PMap(vm, lambda q: False, lambda q: z3.RealVal(0))
    if isinstance(x, PMap):
        return x.copy()
    if isinstance(x, Items) and x.what == 'items':
        return x.m.copy()
    if isinstance(x, tuple) and x and x[0] == 'pmapgen':
        _, e, it, env = x
        if isinstance(e.elt, ast.Tuple) and len(e.elt.elts) == 2:
            return vm.pmapcomp(it, e.generators[0], e.elt.elts[0], e.elt.elts[1], env)
    raise Unsupported('dict(...)')


def _range(vm, *a):
    if len(a) == 1:
        return Range(0, a[0])
    if len(a) == 2:
        return Range(*a)
    raise Unsupported('range with a step')


def _slice(vm, *a):
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(*(list(a) + [None])[:3])


def _list(vm, x=()):
    return list(vm.iterate(x)) if not isinstance(x, (Arr, Seq)) else x


def _copycopy(vm, x):
    if isinstance(x, Obj):
        return Obj(x.cls, dict(x.attrs))
    if isinstance(x, (PMap, Header)):
        return x.copy()
    raise Unsupported('copy.copy')


def _sum(vm, x, **k):
    if isinstance(x, Arr):
        if x.kind == 'b':
            return vm.where(x).n
        raise Unsupported('sum of an array')
    r = 0
    for y in vm.iterate(x):
        r = vm.binop('Add', r, y)
    return r


def _allany(al):
    def f(vm, x, **k):
        if isinstance(x, (list, tuple)):
            for y in x:
                if vm.truth(y) != al:
                    return not al
            return al
        if not isinstance(x, Arr):
            return vm.truth(x)
        g = x.getter()
        b = vm.fresh('all' if al else 'any', B)
        w = vm.fresh('witness')
        inw = z3.And(0 <= w, w < term(x.n))
        gw = term(g(w))
        vm.fact(z3.Implies(z3.Not(b), z3.And(inw, z3.Not(gw))) if al else z3.Implies(b, z3.And(inw, gw)))
        n = term(x.n)
        q = z3.Int('q!%d' % len(vm.facts))
        body = term(g(q))
        if al:
            vm.fact(z3.Implies(b, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), body))))
        else:
            vm.fact(z3.Implies(z3.Not(b), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(body)))))
        vm.instances.append((b, al, n, g))
        return b
    return f


def _arange(vm, *a, dtype=None):
    step = 1
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, step = a
    if not isz(step) and step == 1:
        d = term(hi) - term(lo)
        n = z3.simplify(If(d > 0, d, z3.IntVal(0)))
        if lo == 0 and isz(hi):
            n = z3.simplify(If(hi > 0, hi, z3.IntVal(0)))
    else:
        st = term(step)
        if vm.decide(st == 0):
            raise PyRaise('ZeroDivisionError')
        if vm.decide(st > 0):
            d = term(hi) - term(lo)
            n = If(d > 0, vm.cdiv(d, st), z3.IntVal(0))
        else:
            d = term(lo) - term(hi)
            n = If(d > 0, vm.cdiv(d, -st), z3.IntVal(0))
    return vm.new(n, lambda k: term(lo) + term(k) * term(step), 'i')


def _multiply(op):
    def f(vm, a, b, out=None):
        r = vm.binop(op, a, b)
        if out is None:
            return r
        vm.assign(out, r)
        return out
    return f


def _shape1(vm, s):
    s = s if isinstance(s, (tuple, list)) else (s,)
    if len(s) != 1:
        raise Unsupported('shape of several dimensions')
    return s[0]


def _empty(vm, shape, dtype=None, **k):
    n = _shape1(vm, shape)
    kind = 'f'
    if isinstance(dtype, Type) and dtype.name in ('int', 'bool'):
        kind = dtype.name[0]
    elif isinstance(dtype, str) and dtype in 'fib':
        kind = dtype
    elif isinstance(dtype, Obj):
        kind = dtype.attrs['kind_']
    if vm.decide(term(n) < 0):
        raise PyRaise('ValueError')
    f = vm.fresh_fn('garbage', I, {'f': R, 'i': I, 'b': B}[kind])
    return vm.new(n, lambda k: f(term(k)), kind)


def _filled(v):
    def f(vm, shape, dtype=None, **k):
        a = _empty(vm, shape, dtype)
        vm.assign(a, v if a.kind != 'b' else bool(v))
        return a
    return f


def _typed(vm, a, t):
    """conversions that keep the values"""
    if isinstance(t, Type):
        if t.name[0] != a.kind:
            raise Unsupported('conversion to %s' % t.name)
    elif t is not None and t is not getattr(a, 'dtype_', None) and not isinstance(t, Obj):
        raise Unsupported('conversion to %r' % (t,))
    return a


def _flip(vm, a, axis=None):
    if not isinstance(a, Arr):
        raise Unsupported('flip')
    return Arr(a.store, a.n, a.kind, z3.simplify(term(a.start) + (term(a.n) - 1) * term(a.step)), -a.step if isinstance(a.step, int) else z3.simplify(-term(a.step)))


def _asarray(vm, x, dtype=None, **k):
    if isinstance(x, Arr):
        return _typed(vm, x, dtype)
    if isinstance(x, (list, tuple)) and len(x) == 0:
        return vm.new(0, lambda k: z3.IntVal(0), 'i')
    if isinstance(x, (list, tuple)) and all(isz(y) or isinstance(y, int) for y in x):
        vals = [term(y) for y in x]

        def get(k, vals=vals):
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = If(term(k) == j, vals[j], r)
            return z3.simplify(r)
        return vm.new(len(vals), get, 'i')
    raise Unsupported('asarray(%r)' % (x,))


def _take(vm, x, idx, axis=0, out=None, mode='raise'):
    r = vm.fancy(x, idx)
    if out is None:
        return r
    vm.assign(out, r)
    return out


def _where(vm, m):
    if isinstance(m, Arr) and m.kind == 'b':
        w = vm.where(m)
        vm.lastwhere = w
        return (w,)
    raise Unsupported('where')


def _isalias(vm, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.store is b.store
    raise Unsupported('isalias')


def _product(vm, x, **k):
    if isinstance(x, (tuple, list)):
        r = 1
        for y in x:
            r = vm.binop('Mult', r, y)
        return r
    raise Unsupported('product')


def _reshape(vm, a, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if len(shape) != 1:
        raise Unsupported('reshape')
    n = shape[0]
    if not isz(n) and n == -1:
        return a
    if not (term(n).eq(term(a.n)) or vm.decide(term(n) == term(a.n))):
        raise PyRaise('ValueError')
    # numpy returns a view when the memory allows it, else a copy
    if a.step == 1 and (getattr(a.store, 'fresh', False) or vm.decide(vm.fresh('contiguous', B))):
        return Arr(a.store, a.n, a.kind, a.start, a.step)
    g = a.getter()
    return vm.new(a.n, lambda k: g(k), a.kind)


def _copyarr(vm, a, *x, **k):
    g = a.getter()
    return vm.new(a.n, lambda k: g(k), a.kind)


ARRAY = {
    'reshape': _reshape, 'copy': _copyarr, 'view': lambda vm, a, *t: a, 'ravel': lambda vm, a, *t: _reshape(vm, a, a.n),
    'astype': lambda vm, a, t=None, **k: _copyarr(vm, _typed(vm, a, t)), 'all': _allany(True), 'any': _allany(False), 'sum': _sum,
    'flatten': _copyarr, 'fill': lambda vm, a, v: vm.assign(a, v), 'nonzero': _where, 'take': lambda vm, a, i, **k: _take(vm, a, i, **k),
}

NDARRAY = Type('ndarray', lambda v: isinstance(v, Arr))
TYPES = {
    'slice': Type('slice', lambda v: isinstance(v, Slice), _slice),
    'list': Type('list', lambda v: isinstance(v, list), _list),
    'tuple': Type('tuple', lambda v: isinstance(v, tuple), lambda vm, x=(): x if isinstance(x, Seq) else tuple(vm.iterate(x))),
    'dict': Type('dict', lambda v: isinstance(v, (PMap, dict)), _dict),
    'int': Type('int', lambda v: isinstance(v, int) or isz(v) and z3.is_int(v), _int),
    'float': Type('float', lambda v: isinstance(v, (float, fractions.Fraction)) or isz(v) and z3.is_real(v), _float),
    'bool': Type('bool', lambda v: isinstance(v, bool) or isz(v) and z3.is_bool(v), _bool),
    'str': Type('str', lambda v: isinstance(v, (str, SStr)), _str),
    'type': Type('type', lambda v: isinstance(v, Type), lambda vm, x: NDARRAY if isinstance(x, Arr) else vm.typeof(x) if isinstance(x, Obj) and x.cls in (getattr(x, 'module', None) or vm.module).classes else vm.unsup('type()')),
}
BUILTINS = dict(TYPES)
def _hasattr(vm, o, k):
    if isinstance(o, Obj):
        return k in o.attrs or (getattr(o, 'module', None) or vm.module).member(o.cls, k) is not None
    if isinstance(o, Namespace) and (k in o.d or o.complete):
        return k in o.d
    if isinstance(o, Ext) and isinstance(k, str):
        try:
            vm.getattr(o, k)
            return True
        except PyRaise:
            return False
    raise Unsupported('hasattr')


def _getattr(vm, o, k, *d):
    if not isinstance(k, str):
        raise Unsupported('getattr of a name that depends on the input')
    if '<string>' in k:
        raise Unsupported('contents of a string')
    if d:
        if not _hasattr(vm, o, k):
            return d[0]
    return vm.getattr(o, k)


def _reduce(vm, f, a, *init):
    xs = list(init) + list(vm.iterate(a))
    if not xs:
        raise PyRaise('TypeError')
    r = xs[0]
    for x in xs[1:]:
        r = vm.call(f, [r, x], {})
    return r


BUILTINS.update({
    'abs': Builtin(_abs), 'min': Builtin(_minmax(-1)), 'max': Builtin(_minmax(1)), 'len': Builtin(lambda vm, x: vm.length(x)),
    'isinstance': Builtin(_isinstance), 'range': Builtin(_range), 'sum': Builtin(_sum), 'all': Builtin(_allany(True)),
    'any': Builtin(_allany(False)), 'product': Builtin(_product), 'empty': Builtin(_empty), 'zeros': Builtin(_filled(0)),
    'ones': Builtin(_filled(1)), 'isalias': Builtin(_isalias), 'Ellipsis': Ellipsis, 'NotImplemented': Obj('NotImplemented', {}),
    'zip': Builtin(lambda vm, *a: [tuple(x) for x in zip(*[vm.iterate(y) for y in a])]),
    'enumerate': Builtin(lambda vm, a: list(enumerate(vm.iterate(a)))),
    'isscalarlike': Builtin(lambda vm, x: isz(x) or isinstance(x, (int, float, bool))),
    'copy': Namespace('copy', {'copy': Builtin(_copycopy)}),
    'object': Namespace('object', {'__setattr__': Builtin(lambda vm, o, k, v: vm.setattr(o, k, v))}),
    'next': Builtin(lambda vm, x, *d: vm.iterate(x)[0] if vm.iterate(x) else d[0] if d else vm.unsup('next')),
    'frozenset': Builtin(lambda vm, x=(): Constants(vm.iterate(x))),
    'set': Builtin(lambda vm, x=(): Constants(vm.iterate(x)) if isinstance(x, (tuple, list)) else vm.unsup('set')),
    'map': Builtin(lambda vm, f, *a: [vm.call(f, list(x), {}) for x in zip(*[vm.iterate(y) for y in a])]),
    'filter': Builtin(lambda vm, f, a: [x for x in vm.iterate(a) if vm.truth(x if f is None else vm.call(f, [x], {}))]),
    'functools': Namespace('functools', {'reduce': Builtin(_reduce)}),
    'setattr': Builtin(lambda vm, o, k, v: vm.setattr(o, k, v)),
    'hasattr': Builtin(_hasattr), 'getattr': Builtin(_getattr), 'id': Builtin(lambda vm, x: vm.unsup('id')),
    'divmod': Builtin(lambda vm, a, b: (vm.binop('FloorDiv', a, b), vm.binop('Mod', a, b))),
})
NP = {
    'ceil': Builtin(_ceil), 'floor': Builtin(_floor), 'abs': Builtin(_abs), 'asarray': Builtin(_asarray), 'asanyarray': Builtin(_asarray),
    'array': Builtin(lambda vm, x, *a, **k: _copyarr(vm, _asarray(vm, x))),
    'atleast_1d': Builtin(_asarray), 'arange': Builtin(_arange), 'all': Builtin(_allany(True)), 'any': Builtin(_allany(False)),
    'multiply': Builtin(_multiply('Mult')), 'add': Builtin(_multiply('Add')), 'divide': Builtin(_multiply('Div')), 'subtract': Builtin(_multiply('Sub')),
    'empty': Builtin(_empty), 'zeros': Builtin(_filled(0)), 'ones': Builtin(_filled(1)), 'take': Builtin(_take), 'where': Builtin(_where),
    'flip': Builtin(_flip), 'flatnonzero': Builtin(lambda vm, m: _where(vm, m)[0]), 'nonzero': Builtin(_where), 'copy': Builtin(_copyarr),
    'count_nonzero': Builtin(lambda vm, m: _sum(vm, m) if isinstance(m, Arr) and m.kind == 'b' else vm.unsup('count_nonzero')),
    'ndarray': NDARRAY, 'newaxis': None, 'sum': Builtin(_sum), 'int64': TYPES['int'], 'intp': TYPES['int'], 'float64': TYPES['float'],
    'bool_': TYPES['bool'], 'maximum': Builtin(_minmax(1)), 'minimum': Builtin(_minmax(-1)), 'nan': z3.Const('NaN', R),
}
BUILTINS['np'] = Namespace('np', NP)
BUILTINS['math'] = Namespace('math', {'ceil': Builtin(lambda vm, x: _int(vm, _ceil(vm, x))), 'floor': Builtin(lambda vm, x: _int(vm, _floor(vm, x)))})


# ----------------------------------------------------------------- contracts
class PyResult:
    def __init__(self):
        self.status, self.reason, self.obligs, self.time, self.ctx, self.parloops = None, '', [], 0, None, []
        self.used = set()


def discharge(conds, facts, goal, timeout):
    """('proved'|'failed'|'unknown', model text)"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', None
    if z3.is_and(g):
        for c in g.children():
            r = discharge(conds, facts, c, timeout)
            if r[0] != 'proved':
                return r
        return 'proved', None
    r = z3.unknown
    t0 = time.time()
    for cfg in ({}, {'smt.arith.solver': 2}, {'smt.arith.solver': 6, 'smt.random_seed': 7}):
        s = z3.Solver()
        s.set('timeout', timeout)
        for k, v in cfg.items():
            s.set(k.replace('smt.', ''), v)
        s.add(*conds, *facts, z3.Not(g))
        sym.STATS.queries += 1
        r = s.check()
        if r != z3.unknown:
            break
    sym.STATS.time += time.time() - t0
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'failed', str(s.model())[:2000]
    return 'unknown', None


def run_py(path, setup, post, loops=None, externals=None, timeout=5000, deadline=None, maxpaths=400, partial=False):
    """setup(vm) -> (function, args, keywords, data); post(vm, kind, value, data) -> [(name, goal)]"""
    res = PyResult()
    t0 = time.time()
    try:
        vm = VM(path, timeout, externals, loops, deadline, maxpaths)
        vm.partial = partial
        data = {}

        def start(vm):
            f, args, kw, data['d'] = setup(vm)
            return lambda: vm.call(f, args, kw)
        goals = []
        npaths = 0
        for kind, val in vm.explore(start):
            npaths += 1
            try:
                for name, goal in post(vm, kind, val, data['d']):
                    goals.append((name, list(vm.conds), list(vm.facts), term(goal), vm.line))
            except (AttributeError, TypeError, KeyError, IndexError, AssertionError) as e:
                raise Unsupported('the postcondition cannot be stated on this result: %r' % e)
        if npaths == 0:
            raise Unsupported(vm.missed[0] if vm.missed else 'no path returns')
        bad = unk = False
        for name, conds, facts, goal, line in goals + vm.obligs:
            if deadline and time.time() > deadline:
                s, m = 'unknown', None
            else:
                s, m = discharge(conds, facts, goal, timeout)
            res.obligs.append((name, 'post', 'proved' if s == 'proved' else s, '%s:%d' % (path, line), m))
            bad |= s == 'failed'
            unk |= s == 'unknown'
        res.used = vm.used
        res.status = 'failed' if bad else 'unsupported' if unk or vm.missed else 'proved'
        if res.status == 'unsupported':
            res.reason = vm.missed[0] if vm.missed else 'not discharged in time: ' + [o[0] for o in res.obligs if o[2] == 'unknown'][0]
    except Unsupported as e:
        res.status, res.reason = 'unsupported', str(e)
    except z3.Z3Exception as e:
        res.status, res.reason = 'unsupported', 'z3: %s' % e
    except RecursionError:
        res.status, res.reason = 'unsupported', 'recursion'
    except (AttributeError, TypeError, KeyError, IndexError, AssertionError, ValueError, ZeroDivisionError) as e:
        if os.environ.get('VF_DEBUG'):
            raise
        res.status, res.reason = 'unsupported', 'the engine stops: %r' % e
    res.time = time.time() - t0
    return res


def function(vm, name):
    """the function or the static or unbound method of the module"""
    if '.' in name:
        c, f = name.split('.')
        n = vm.module.member(c, f)
    else:
        n = vm.module.funcs.get(name)
    if n is None:
        raise Unsupported('no function %s in %s' % (name, vm.module.path))
    return Func(n, vm.module)
