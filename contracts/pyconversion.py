"""C26: SI, inunit, tounit and the factor of a derived unit (Python, executed symbolically).

One value is followed through the conversion (a quantity of no dimension), or the
values of a one-dimensional quantity; the transpositions that broadcast local units
over the leading or the trailing dimensions are then the identity (run-time checks)."""
import z3
from vf import pyexec as px, sym
from vf.pyexec import Unsupported

PATH = 'quantities.py'
R = z3.RealSort()
K = px.KEY


def unit(vm, name, nozero=True):
    u = px.PMap.fresh(vm, name)
    q = z3.Const('q!' + name, K)
    if nozero:
        vm.fact(z3.ForAll([q], z3.Implies(u.has(q), u.val(q) != 0), patterns=[u.has(q)]))
    return u


def emptymap(vm):
    return px.PMap(vm, lambda k: False, lambda k: z3.RealVal(0))


def method(vm, name):
    n = vm.module.member('Quantity', name)
    if n is None:
        raise Unsupported('no method ' + name)
    return n


# ------------------------------------------------------------------------ SI
def quantity(vm, mag, u):
    """a quantity that is multiplied and divided by its contract"""
    o = px.Obj('Quantity', {'_unit': u, 'magnitude': mag, 'carried': True})

    def mul(vm, y):
        if isinstance(y, px.Obj) and 'carried' in y.attrs:
            return quantity(vm, vm.binop('Mult', o.attrs['magnitude'], y.attrs['magnitude']), vm.call(px.function(vm, '_multiply_unit'), [o.attrs['_unit'], y.attrs['_unit']], {}))
        return quantity(vm, vm.binop('Mult', o.attrs['magnitude'], y), o.attrs['_unit'])

    def div(vm, y):
        if isinstance(y, px.Obj) and 'carried' in y.attrs:
            return quantity(vm, vm.binop('Div', o.attrs['magnitude'], y.attrs['magnitude']), vm.call(px.function(vm, '_divide_unit'), [o.attrs['_unit'], y.attrs['_unit']], {}))
        return quantity(vm, vm.binop('Div', o.attrs['magnitude'], y), o.attrs['_unit'])
    o.attrs['__truediv__'] = px.Builtin(div)
    o.attrs['__mul__'] = o.attrs['__rmul__'] = px.Builtin(mul)
    o.attrs['T'] = o
    o.attrs['view'] = px.Builtin(lambda vm, t=None: o.attrs['magnitude'])
    o.attrs['copy'] = px.Builtin(lambda vm: quantity(vm, o.attrs['magnitude'], o.attrs['_unit']))
    return o


class Product:
    """after i factors: the product of the magnitudes of the accumulators is F(i), the
    sum of their exponents is E(i, .)"""

    def __init__(self, F, E, step):
        self.F, self.E, self.step = F, E, step

    def names(self, vm, env):
        out = []
        for x, v in env.items():
            if isinstance(v, px.Obj) and 'carried' in v.attrs and x != 'self' and not getattr(v, 'readonly', False):
                out.append(x)
            elif isinstance(v, px.PMap) and not getattr(v, 'readonly', False):
                out.append(x)
            elif isinstance(v, (list, dict, px.Arr)):
                raise Unsupported('accumulator %s' % x)
        return out

    @staticmethod
    def unit(v):
        return v if isinstance(v, px.PMap) else v.attrs['_unit']

    def product(self, vm, env, names):
        p = z3.RealVal(1)
        for x in names:
            if isinstance(env[x], px.Obj):
                p = p * sym.to_real(px.term(env[x].attrs['magnitude']))
        return p

    def exponents(self, env, names, k):
        return sum([sym.to_real(self.unit(env[x]).exponent(k)) for x in names], z3.RealVal(0))

    def holds(self, vm, env, i):
        # the accumulators are the quantities that exist before the loop
        if px.isz(i) and z3.is_int_value(i):
            self.state = self.names(vm, env)
        names = self.state
        if any(not (isinstance(env.get(x), px.PMap) or isinstance(env.get(x), px.Obj) and 'carried' in env[x].attrs) for x in names):
            raise Unsupported('accumulators of another kind')
        k = vm.fresh('k', K)
        out = [('factor', self.product(vm, env, names) == self.F(i)), ('exponents', self.exponents(env, names, k) == self.E(i, k))]
        for x in names:
            u = self.unit(env[x])
            out.append(('no zero exponent', z3.Implies(px.term(u.has(k)), sym.to_real(px.term(u.val(k))) != 0)))
        return out

    def carry(self, vm, env, i, names):
        for x in names:
            u = unit(vm, x + '!unit%d' % vm.counter.setdefault('carried', 0))
            env[x] = u if isinstance(env[x], px.PMap) else quantity(vm, vm.fresh(x + '!magnitude', R), u)
            vm.counter['carried'] += 1
        vm.fact(*self.step(i))
        q = z3.Const('q!carry%d' % vm.counter['carried'], K)
        vm.assume(self.product(vm, env, names) == self.F(i))
        e = self.exponents(env, names, q) == self.E(i, q)
        vm.fact(z3.ForAll([q], e, patterns=[self.E(i, q)] + [px.term(self.unit(env[x]).has(q)) for x in names]))


def si():
    def setup(vm):
        n = vm.fresh('n')
        u = unit(vm, 'unit')
        key, val = z3.Function('key', px.I, K), z3.Function('val', px.I, R)
        u.order = (n, key, val)
        u.readonly = True
        vm.fact(n >= 1)
        loc, glob = z3.Function('islocal', px.I, px.B), z3.Function('isglobal', px.I, px.B)
        fl, fg = z3.Function('localfactor', px.I, R), z3.Function('globalfactor', px.I, R)
        F = z3.Function('F', px.I, R)
        E = z3.Function('E', px.I, K, R)
        has = {t: z3.Function('has' + t, px.I, K, px.B) for t in 'lg'}
        exps = {t: z3.Function('exp' + t, px.I, K, R) for t in 'lg'}
        i, q = z3.Int('i!s'), z3.Const('q!s', K)
        term_ = lambda i, q: z3.If(loc(i), z3.If(has['l'](i, q), exps['l'](i, q), 0), z3.If(glob(i), z3.If(has['g'](i, q), exps['g'](i, q), 0), z3.If(q == key(i), val(i), z3.RealVal(0))))
        vm.fact(F(0) == 1, z3.ForAll([q], E(0, q) == 0, patterns=[E(0, q)]), z3.ForAll([i], val(i) != 0, patterns=[val(i)]))

        def step(i):
            # one more factor, instantiated at the iteration of the loop
            return [F(i + 1) == F(i) * z3.If(loc(i), fl(i), z3.If(glob(i), fg(i), z3.RealVal(1))),
                    z3.ForAll([q], E(i + 1, q) == E(i, q) + term_(i, q), patterns=[E(i + 1, q)])]
        for t in 'lg':
            vm.fact(z3.ForAll([i, q], z3.Implies(has[t](i, q), exps[t](i, q) != 0), patterns=[has[t](i, q)]))
        local, glob_ = px.Obj('units', {}), px.Obj('units', {})

        def check(vm, input, k, v, du):
            # the item that is looked up
            if not (px.isz(k) and k.decl().name() == 'key'):
                vm.unsup('factor of another unit')
            j = k.arg(0)
            if not (px.isz(v) and v.eq(val(j))):
                vm.unsup('factor of another exponent')
            if du is local:
                t, f, is_ = 'l', fl, loc
            elif du is glob_:
                t, f, is_ = 'g', fg, glob
            else:
                vm.unsup('other derived units')
            if not vm.decide(is_(j)):
                return (None, None)
            b = 'leftward' if vm.decide(vm.fresh('leftward', px.B)) else 'rightward'
            return (quantity(vm, f(j), px.PMap(vm, lambda q: has[t](j, q), lambda q: exps[t](j, q))), b)

        def make(vm, x=1, un=None, *a, **k):
            if a or k or not isinstance(un, (str, px.PMap)) and un is not None or isinstance(un, str) and un.strip():
                vm.unsup('construction of a quantity')
            return quantity(vm, x if px.isz(x) else z3.RealVal(str(x)), emptymap(vm))
        mag = vm.fresh('magnitude', R)
        vm.externals = {'_check_du': px.Builtin(check), 'units': glob_, 'Quantity': px.Type('Quantity', lambda v: isinstance(v, px.Obj) and v.cls == 'Quantity', make)}
        self = quantity(vm, mag, u)
        self.attrs.update({'derived_units': local, '_derived_units': local})
        self.readonly = True
        vm.loops = {'items': Product(F, E, step)}
        if not vm.truth(u):
            raise px.Cut()
        return px.Func(method(vm, 'SI'), vm.module, self), [], {}, (self, mag, u, n, F, E)

    def post(vm, kind, val, d):
        self, mag, u, n, F, E = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        if not isinstance(val, px.Obj) or val.cls != 'Quantity':
            return [('returns a quantity', False)]
        k = vm.fresh('k', K)
        w = val.attrs['_unit']
        return [('value multiplied by the factors', sym.to_real(px.term(val.attrs['magnitude'])) == mag * F(n)), ('elementary unit', w.exponent(k) == E(n, k)),
                ('no zero exponent', z3.Implies(px.term(w.has(k)), sym.to_real(px.term(w.val(k))) != 0)),
                ('the quantity keeps its value and unit', val is not self and self.attrs['_unit'] is u and self.attrs['magnitude'] is mag)]
    return setup, post


def si_nounit():
    setup0, _ = si()

    def setup(vm):
        n = vm.fresh('n')
        self = quantity(vm, vm.fresh('magnitude', R), emptymap(vm))
        self.attrs.update({'derived_units': {}, '_derived_units': {}})
        self.readonly = True
        return px.Func(method(vm, 'SI'), vm.module, self), [], {}, (self, self.attrs['magnitude'])

    def post(vm, kind, val, d):
        self, mag = d
        if kind == 'raise' or not isinstance(val, px.Obj):
            return [('returns a quantity', False)]
        k = vm.fresh('k', K)
        return [('same value', px.term(val.attrs['magnitude']) == mag), ('no unit', val.attrs['_unit'].exponent(k) == 0)]
    return setup, post


# ------------------------------------------------------------ inunit, tounit
def convert(name, ndim, derived, empty, header=False):
    """empty: '' no unit is empty, 'a' the old unit is, 'b' the new one"""
    def setup(vm):
        n = vm.fresh('n')
        vm.assume(n >= 1)
        old = emptymap(vm) if empty == 'a' else unit(vm, 'old')
        new = emptymap(vm) if empty == 'b' else unit(vm, 'new')
        old.readonly = new.readonly = True
        for u in (old, new):
            if empty != {id(old): 'a', id(new): 'b'}[id(u)] and not vm.truth(u):
                raise px.Cut()
        # contract of SI: the factor of each unit, that may depend on the element
        # when there are units attached to the quantity; its elementary unit
        fac, base, nolocal = {}, {}, {}
        for nm, u in (('old', old), ('new', new)):
            fn = z3.Function('factor of ' + nm, px.I, R) if derived else (lambda c: lambda k: c)(z3.Real('factor of ' + nm))
            fac[id(u)] = fn
            nolocal[id(u)] = (lambda c: lambda k: c)(z3.Real('factor of %s without the local units' % nm))
            vm.fact(nolocal[id(u)](0) != 0)
            base[id(u)] = unit(vm, 'SI of ' + nm)
            q = z3.Int('i!' + nm)
            vm.fact(z3.ForAll([q], fn(q) != 0, patterns=[fn(q)]) if derived else fn(0) != 0)
        local = {'zork': px.Obj('any', {})} if derived else {}

        def make(vm, x, unit=None, derived_units=None, header=None, **k):
            if k or id(unit) not in fac:
                vm.unsup('construction of a quantity')
            if derived_units is not local and derived_units:
                vm.unsup('other derived units')
            f = (nolocal if derived_units is not local and derived else fac)[id(unit)]
            if isinstance(x, px.Arr):
                g = x.getter()
                m = vm.new(x.n, lambda k: sym.to_real(px.term(g(k))) * f(k))
            else:
                m = sym.to_real(px.term(x)) * (f(z3.IntVal(0)) if not derived or ndim == 0 else vm.fresh('factor of the first value', R))
            s = px.Obj('Quantity', {'magnitude': m, '_unit': base[id(unit)]})
            s.attrs['view'] = px.Builtin(lambda vm, t=None: m)
            return px.Obj('Quantity', {'SI': s, '_unit': unit})
        Q = px.Type('Quantity', lambda v: isinstance(v, px.Obj) and v.cls == 'Quantity', make)

        def ones(vm, shape=(), *a, **k):
            if shape == () or shape == []:
                return z3.RealVal(1)
            m, = shape
            return vm.new(m, lambda k: z3.RealVal(1))
        np_ = dict(px.NP)
        np_.update({'ones': px.Builtin(ones)})
        # the same unit twice has the same factor
        if not empty:
            q, differ = z3.Const('q!same', K), z3.Const('differ', K)
            one = lambda x: z3.And(old.has(x) == new.has(x), z3.Implies(old.has(x), old.val(x) == new.val(x)))
            equal = z3.Const('same unit', px.B)
            vm.same[frozenset([(old.has, old.val), (new.has, new.val)])] = equal
            vm.fact(z3.Implies(equal, z3.ForAll([q], one(q), patterns=[old.has(q), new.has(q)])), z3.Implies(z3.Not(equal), z3.Not(one(differ))))
            a, b = base[id(old)], base[id(new)]
            i = z3.Int('i!equal')
            for f in (fac, nolocal):
                x, y = f[id(old)], f[id(new)]
                vm.fact(z3.Implies(equal, x(0) == y(0) if not derived or f is nolocal else z3.ForAll([i], x(i) == y(i), patterns=[x(i), y(i)])))
            e = vm.same[frozenset([(a.has, a.val), (b.has, b.val)])] = z3.Const('same SI unit', px.B)
            one2 = lambda x: z3.And(a.has(x) == b.has(x), z3.Implies(a.has(x), a.val(x) == b.val(x)))
            vm.fact(z3.Implies(e, z3.ForAll([q], one2(q), patterns=[a.has(q), b.has(q)])), z3.Implies(z3.Not(e), z3.Not(one2(differ))), z3.Implies(equal, e))
        vm.externals = {'Quantity': Q, 'np': px.Namespace('np', np_), '_strunit': px.Builtin(lambda vm, u: '<unit>')}

        def quantity(mag):
            o = px.Obj('Quantity', {'_unit': old, '_derived_units': local, 'derived_units': local, 'shape': (n,) if ndim else (), 'ndim': ndim, 'magnitude': mag, 'unit': '<unit>'})
            o.attrs['__class__'] = Q
            o.attrs['view'] = px.Builtin(lambda vm, t=None: o.attrs['magnitude'])
            if header:
                o.attrs['_header'] = px.Obj('header', {})

            def copy(vm):
                m = o.attrs['magnitude']
                r = quantity(px._copyarr(vm, m) if isinstance(m, px.Arr) else m)
                r.attrs['_unit'] = o.attrs['_unit']
                return r
            o.attrs['copy'] = px.Builtin(copy)
            return o
        if ndim:
            x = z3.Function('x', px.I, R)
            mag = vm.new(n, lambda k: x(k))
            value = lambda k: x(k)
        else:
            mag = vm.fresh('x', R)
            value = lambda k, m=mag: m
        self = quantity(mag)
        if name == 'tounit':
            self.readonly = True
            if ndim:
                mag.readonly = True
        return px.Func(method(vm, name), vm.module, self), [new], {}, (self, old, new, n, fac, base, value)

    def post(vm, kind, val, d):
        self, old, new, n, fac, base, value = d
        k = vm.fresh('k') if ndim else z3.IntVal(0)
        inside = z3.And(0 <= k, k < n) if ndim else z3.BoolVal(True)

        def at(o):
            m = o.attrs['magnitude']
            return sym.to_real(px.term(m(k) if isinstance(m, px.Arr) else m))
        if not empty:
            a, b = base[id(old)], base[id(new)]
            e = vm.same.get(frozenset([(a.has, a.val), (b.has, b.val)]))
        if kind == 'raise':
            if empty or val != 'UnitError':
                return [('does not raise %s' % val, False)]
            return [('only incompatible units are refused', z3.Not(e)), ('a refused conversion leaves the value', z3.Implies(inside, at(self) == value(k))),
                    ('a refused conversion leaves the unit', self.attrs['_unit'] is old)]
        r = self if name == 'inunit' else val
        if not isinstance(r, px.Obj) or r.cls != 'Quantity':
            return [('returns a quantity', False)]
        j = vm.fresh('j', K)
        w = r.attrs['_unit']
        want = value(k) if empty else value(k) * fac[id(old)](k) / fac[id(new)](k)
        out = [('the new unit', w.exponent(j) == new.exponent(j)), ('the physical value is kept', z3.Implies(inside, at(r) == want))]
        if ndim:
            out.append(('shape', isinstance(r.attrs['magnitude'], px.Arr) and px.term(r.attrs['magnitude'].n) == n))
        if not empty:
            out.append(('incompatible units are refused', e))
            if name == 'tounit':
                out.append(('there and back', z3.Implies(inside, at(r) * fac[id(new)](k) / fac[id(old)](k) == value(k))))
        if name == 'tounit':
            out += [('the quantity is not modified', r is not self and self.attrs['_unit'] is old), ('its values are not modified', z3.Implies(inside, at(self) == value(k)))]
        return out
    return setup, post


# ------------------------------------------------------------------ _check_du
def check_du(nonempty):
    def setup(vm):
        key, val = vm.fresh('key', K), vm.fresh('val', R)
        vm.assume(val != 0)
        pw = z3.Function('pw', R, R, R)
        x = z3.Real('x!pw')
        vm.fact(z3.ForAll([x], pw(x, 1) == x, patterns=[pw(x, 1)]), z3.ForAll([x], z3.Implies(x != 0, pw(x, -1) == 1 / x), patterns=[pw(x, -1)]))
        pair, minus, single = (vm.fresh(s, px.B) for s in ('pair', 'minuspair', 'single'))
        none = {s: vm.fresh('none ' + s, px.B) for s in 'pms'}
        s = {t: vm.fresh('SI of ' + t, R) for t in 'pms'}
        vm.assume(*[v != 0 for v in s.values()])

        def measure(f, e):
            """a derived unit: its SI factor is f, to the power e"""
            o = px.Obj('Quantity', {})
            si = px.Obj('Quantity', {'factor': f, 'power': e})
            o.attrs.update({'SI': si, '_derived_units': None, '__rtruediv__': px.Builtin(lambda vm, y: measure(f, -e) if y == 1 else vm.unsup('division')),
                            '__pow__': px.Builtin(lambda vm, p: measure(f, sym.to_real(px.term(p)) * e))})
            return o

        def contains(vm, k):
            if isinstance(k, tuple) and len(k) == 2 and k[0] is key:
                return z3.If(px.term(k[1]) == val, pair, z3.If(px.term(k[1]) == -val, minus, z3.BoolVal(False))) if px.isz(k[1]) else vm.unsup('key')
            vm.unsup('key %r' % (k,))

        def get(vm, input, k, du):
            if du is not units:
                vm.unsup('other units')
            if isinstance(k, tuple):
                e = k[1]
                t = 'p' if vm.decide(px.term(e) == val) else 'm' if vm.decide(px.term(e) == -val) else vm.unsup('key')
                there = pair if t == 'p' else minus
            elif k is key:
                t, there = 's', single
            else:
                vm.unsup('key %r' % (k,))
            if not vm.decide(there) or vm.decide(none[t]):
                return (None, None)
            return (measure(s[t], z3.RealVal(1)), 'broadcast of ' + t)
        units = px.Obj('units', {'__len__': px.Builtin(lambda vm: 1 if nonempty else 0), '__contains__': px.Builtin(contains)})
        vm.externals = {'_get_du': px.Builtin(get), 'Quantity': px.Type('Quantity', lambda v: isinstance(v, px.Obj) and v.cls == 'Quantity')}
        return px.function(vm, '_check_du'), [px.Obj('Quantity', {}), key, val, units], {}, (val, pair, minus, single, none, s, pw)

    def post(vm, kind, r, d):
        val, pair, minus, single, none, s, pw = d
        if kind == 'raise':
            return [('does not raise %s' % r, False)]
        if not isinstance(r, tuple) or len(r) != 2:
            return [('a factor and a broadcast', False)]
        t = z3.If(pair, z3.If(none['p'], 0, 1), z3.If(minus, z3.If(none['m'], 0, 2), z3.If(z3.And(single, z3.Not(none['s'])), 3, 0)))
        if not nonempty:
            return [('no derived unit', r[0] is None)]
        if r[0] is None:
            return [('not a derived unit', t == 0)]
        a = r[0].attrs
        if 'factor' not in a:
            return [('the factor is in SI units', False)]
        got, e = a['factor'], a['power']
        b = {'broadcast of p': 1, 'broadcast of m': 2, 'broadcast of s': 3}.get(r[1], 0)
        return [('the definition for this exponent, else for the opposite one, else of the unit', z3.And(t != 0, got == z3.If(t == 1, s['p'], z3.If(t == 2, s['m'], s['s'])))),
                ('to the power of the unit', z3.And(e == z3.If(t == 1, z3.RealVal(1), z3.If(t == 2, z3.RealVal(-1), val)))), ('its broadcast', b == t)]
    return setup, post


# -------------------------------------------------------- _get_du, _check_in_du
class NotFound:
    """no earlier item has the key"""
    returns = True

    def __init__(self, matches):
        self.matches = matches

    def names(self, vm, env):
        return []

    def carry(self, vm, env, i, names):
        q = z3.Int('j!search')
        m = self.matches(q)
        vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), z3.Not(m)), patterns=[NotFound.pattern(q)]))

    def holds(self, vm, env, i):
        j = vm.fresh('j')
        return [('not found yet', z3.Implies(z3.And(0 <= j, j < i), z3.Not(self.matches(j))))]


def check_in_du():
    bracket, pos = z3.Function('has a broadcast', px.I, px.B), z3.Function('position of [', px.I, px.I)
    name, whole, part = (z3.Function(s, px.I, K) for s in ('name', 'whole key', 'broadcast'))
    value = z3.Function('definition', px.I, K)
    matches = lambda i, key: z3.If(bracket(i), name(i) == key, whole(i) == key)
    NotFound.pattern = staticmethod(lambda i: bracket(i))

    def setup(vm):
        n, wanted = vm.fresh('n'), vm.fresh('wanted', K)
        vm.assume(n >= 0)

        def item(i):
            o = px.Obj('key', {'i': i})
            vm.assume(pos(i) >= 0)

            def index(vm, c):
                if c != '[':
                    vm.unsup('index of %r' % (c,))
                if not vm.decide(bracket(i)):
                    raise px.PyRaise('ValueError')
                return pos(i)

            def sub(vm, s):
                if not isinstance(s, px.Slice) or s.step is not None or not vm.decide(bracket(i)):
                    vm.unsup('part of the key')
                if s.start is None and px.isz(s.stop) and vm.decide(s.stop == pos(i)):
                    return name(i)
                if s.stop == -1 and px.isz(s.start) and vm.decide(s.start == pos(i) + 1):
                    return part(i)
                vm.unsup('part of the key')

            def eq(vm, k):
                if not (px.isz(k) and k.sort() == K):
                    vm.unsup('comparison of the key')
                return whole(i) == k
            o.attrs.update({'index': px.Builtin(index), '__getitem__': px.Builtin(sub), '__eq__': px.Builtin(eq),
                            '__contains__': px.Builtin(lambda vm, c: bracket(i) if c == '[' else vm.unsup('membership of %r' % (c,)))})
            return o
        # a key is a string, or a unit and its exponent
        isstr = z3.Function('is a string', px.I, px.B)

        def kind(v):
            if isinstance(v, px.Obj) and v.cls == 'key':
                i = v.attrs['i']
                vm.assume(z3.Implies(bracket(i), isstr(i)))
                return vm.decide(isstr(i))
            return isinstance(v, str)
        vm.externals = {'str': px.Type('str', kind), 'tuple': px.Type('tuple', lambda v: not kind(v) if isinstance(v, px.Obj) and v.cls == 'key' else isinstance(v, tuple))}
        du = px.PMap.fresh(vm, 'derived_units')
        du.order = (n, item, lambda i: value(i))
        du.readonly = True
        vm.loops = {'items': NotFound(lambda i: matches(i, wanted))}
        return px.function(vm, '_check_in_du'), [wanted, du], {}, (n, wanted)

    def post(vm, kind, r, d):
        n, wanted = d
        j = vm.fresh('j')
        if kind == 'raise':
            return [('raises only if there is no definition', z3.And(z3.BoolVal(r == 'ValueError'), z3.Implies(z3.And(0 <= j, j < n), z3.Not(matches(j, wanted)))))]
        if r is None or isinstance(r, tuple) and len(r) == 2 and r[0] is None:
            raise AttributeError('another way to say that there is no definition')
        if not isinstance(r, tuple) or len(r) != 2 or not (px.isz(r[0]) and r[0].decl().name() == 'definition'):
            return [('returns a definition and its broadcast', False)]
        i, b = r[0].arg(0), r[1]
        if isinstance(b, str):
            b = z3.And(z3.BoolVal(b == 'leftward'), z3.Not(bracket(i)))
        else:
            b = z3.And(px.isz(b) and b == part(i), bracket(i))
        return [('the definition of the key', z3.And(0 <= i, i < n, matches(i, wanted))), ('its broadcast', b),
                ('the first one', z3.Implies(z3.And(0 <= j, j < i), z3.Not(matches(j, wanted))))]
    return setup, post


def get_du(header):
    def setup(vm):
        key = vm.fresh('key', K)
        there, function, none = (vm.fresh(s, px.B) for s in ('there', 'function', 'none'))
        units, cls, local, head = px.Obj('units', {}), px.Obj('class', {}), px.Obj('local units', {}), px.Obj('header', {})
        input = px.Obj('Quantity', {'_derived_units': local, '__class__': cls})
        if header:
            input.attrs['_header'] = head

        def measure(what):
            o = px.Obj('Quantity', {'what': what, '_derived_units': None, '_header': None} if header else {'what': what, '_derived_units': None})
            o.attrs['view'] = px.Builtin(lambda vm, t: measure(what) if t is cls else vm.unsup('view'))
            return o
        plain, called = measure('plain'), measure('called')

        def call(vm, x):
            if x is not input:
                vm.unsup('call of the definition')
            return None if vm.decide(none) else called

        def look(vm, k, du):
            if not (px.isz(k) and k.eq(key)) or du is not units:
                vm.unsup('lookup of another key')
            if not vm.decide(there):
                raise px.PyRaise('ValueError')
            return (px.Builtin(call) if vm.decide(function) else None if vm.decide(none) else plain, 'the broadcast')
        vm.externals = {'_check_in_du': px.Builtin(look), 'Callable': px.Type('Callable', lambda v: isinstance(v, px.Builtin)), 'callable': px.Builtin(lambda vm, v: isinstance(v, px.Builtin)),
                        'type': px.Builtin(lambda vm, v: cls if v is input else vm.unsup('type')), 'Quantity': px.Type('Quantity', lambda v: isinstance(v, px.Obj) and v.cls == 'Quantity')}
        return px.function(vm, '_get_du'), [input, key, units], {}, (there, function, none, local, head, input)

    def post(vm, kind, r, d):
        there, function, none, local, head, input = d
        if kind == 'raise' and r == 'ValueError':
            raise AttributeError('another way to say that there is no definition')
        if kind == 'raise':
            return [('does not raise %s' % r, False)]
        if not isinstance(r, tuple) or len(r) != 2:
            return [('a definition and a broadcast', False)]
        o, b = r
        found = z3.And(there, z3.Not(none))
        if o is None:
            return [('there is no definition', z3.Not(found))]
        if not isinstance(o, px.Obj) or 'what' not in o.attrs:
            return [('a definition', False)]
        out = [('the definition', z3.And(found, function == (o.attrs['what'] == 'called'))), ('its broadcast', b == 'the broadcast'),
               ('the derived units of the quantity', o.attrs['_derived_units'] is local), ('the quantity keeps its derived units', input.attrs['_derived_units'] is local)]
        if header:
            out.append(('the header of the quantity', o.attrs['_header'] is head))
        return out
    return setup, post


def tasks(mods):
    out = []
    todo = [('SI', 'SI', si()), ('SI without unit', 'SI', si_nounit())]
    for name in ('inunit', 'tounit'):
        for ndim in (0, 1):
            for derived in (False, True):
                todo.append(('%s, %d dimension, %s' % (name, ndim, 'local units' if derived else 'no local unit'), name, convert(name, ndim, derived, '')))
            for e in 'ab':
                todo.append(('%s, %d dimension, no %s unit' % (name, ndim, {'a': 'old', 'b': 'new'}[e]), name, convert(name, ndim, False, e)))
        todo.append(('%s with a header' % name, name, convert(name, 1, True, '', header=True)))
    for what, name, (setup, post) in todo:
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, setup=setup, post=post):
            return px.run_py(PATH, setup, post, timeout=timeout, deadline=deadline)
        out.append(('C26', what, None, PATH + ':Quantity.' + name, fn, {'nobounded': True}))
    for what, name, sp in (('lookup of a derived unit', '_check_in_du', check_in_du()), ('definition of a derived unit', '_get_du', get_du(False)), ('definition of a derived unit, with a header', '_get_du', get_du(True))):
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, sp=sp):
            return px.run_py(PATH, *sp, timeout=timeout, deadline=deadline)
        out.append(('C26', what, None, PATH + ':' + name, fn, {'nobounded': True}))
    for ne in (True, False):
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, sp=check_du(ne)):
            return px.run_py(PATH, *sp, timeout=timeout, deadline=deadline)
        out.append(('C26', 'factor of a derived unit' if ne else 'no derived unit', None, PATH + ':_check_du', fn, {'nobounded': True}))
    return out
