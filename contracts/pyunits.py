"""C22: the exponent algebra of units (Python functions, executed symbolically)."""
import z3
from vf import pyexec as px, sym

PATH = 'quantities.py'


def units(vm, n):
    """n unit dictionaries, none of which keeps a zero exponent"""
    out = []
    k = z3.Const('anykey!', px.KEY)
    for i in range(n):
        m = px.PMap.fresh(vm, 'unit%d' % (i + 1))
        q = z3.Const('q!u%d' % i, px.KEY)
        vm.fact(z3.ForAll([q], z3.Implies(m.has(q), m.val(q) != 0)))
        m.readonly = True
        out.append(m)
    return out


def same_operands(vm, ms, snaps):
    k = z3.Const('operandkey', px.KEY)
    out = []
    for m, s in zip(ms, snaps):
        out.append(('operands unchanged', z3.And(px.term(m.has(k)) == px.term(s.has(k)), z3.Implies(px.term(s.has(k)), px.term(m.val(k)) == px.term(s.val(k))))))
    return out


def binary(name, sign):
    def setup(vm):
        a, b = units(vm, 2)
        return px.function(vm, name), [a, b], {}, (a, b, a.copy(), b.copy())

    def post(vm, kind, val, d):
        a, b, sa, sb = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        if not isinstance(val, px.PMap):
            return [('returns a mapping', False)]
        k = vm.fresh('k', px.KEY)
        return [('exponents', val.exponent(k) == sa.exponent(k) + sign * sb.exponent(k)),
                ('no zero exponent', z3.Implies(px.term(val.has(k)), sym.to_real(px.term(val.val(k))) != 0))] + same_operands(vm, (a, b), (sa, sb))
    return setup, post


def power():
    def setup(vm):
        a, = units(vm, 1)
        p = vm.fresh('power', z3.RealSort())
        return px.function(vm, '_power_unit'), [a, p], {}, (a, p, a.copy())

    def post(vm, kind, val, d):
        a, p, sa = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        k = vm.fresh('k', px.KEY)
        return [('exponents', val.exponent(k) == sa.exponent(k) * p),
                ('no zero exponent', z3.Implies(px.term(val.has(k)), sym.to_real(px.term(val.val(k))) != 0))] + same_operands(vm, (a,), (sa,))
    return setup, post


def inplace():
    def setup(vm):
        a, = units(vm, 1)
        a.readonly = False
        key, v = vm.fresh('key', px.KEY), vm.fresh('v', z3.RealSort())
        return px.function(vm, '_multiply_unit_inplace'), [a, key, v], {}, (a, key, v, a.copy())

    def post(vm, kind, val, d):
        a, key, v, sa = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        k = vm.fresh('k', px.KEY)
        return [('exponents', val.exponent(k) == sa.exponent(k) + z3.If(k == key, v, z3.RealVal(0))),
                ('no zero exponent', z3.Implies(px.term(val.has(k)), sym.to_real(px.term(val.val(k))) != 0)),
                ('returns its argument', val is a)]
    return setup, post


def laws():
    """dividing undoes multiplying: composition of the real functions"""
    def setup(vm):
        a, b = units(vm, 2)
        mul, div = px.function(vm, '_multiply_unit'), px.function(vm, '_divide_unit')
        f = px.Builtin(lambda vm: (vm.call(div, [vm.call(mul, [a, b], {}), b], {}), vm.call(div, [a, a], {}), vm.call(div, [vm.call(mul, [b, a], {}), b], {})))
        return f, [], {}, (a, b, a.copy(), b.copy())

    def post(vm, kind, val, d):
        a, b, sa, sb = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        k = vm.fresh('k', px.KEY)
        r, one, r2 = val
        out = [('a * a^-1 is dimensionless', z3.Not(px.term(one.has(k))))]
        for x in (r, r2):
            out += [('(a * b) / b is a', z3.And(px.term(x.has(k)) == sa.has(k), z3.Implies(sa.has(k), px.term(x.val(k)) == sa.val(k))))]
        return out + same_operands(vm, (a, b), (sa, sb))
    return setup, post


def tasks(mods):
    out = []
    for name, (setup, post), what in [
            ('_multiply_unit', binary('_multiply_unit', 1), 'product'), ('_divide_unit', binary('_divide_unit', -1), 'quotient'),
            ('_power_unit', power(), 'power'), ('_multiply_unit_inplace', inplace(), 'product in place'),
            ('_divide_unit(_multiply_unit)', laws(), 'laws')]:
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, setup=setup, post=post):
            return px.run_py(PATH, setup, post, timeout=timeout, deadline=deadline)
        out.append(('C22', what, None, PATH + ':' + name, fn, {'nobounded': True}))
    return out
