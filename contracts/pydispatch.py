"""C26: the dispatch of numpy functions on quantities, and the conversions (Python, executed symbolically).

The contents of an array are a name and the unit in which its numbers are
expressed: converting changes the unit, never the name. numpy itself is an
opaque function of the contents that it is given."""
import fractions
import z3
from vf import pyexec as px, sym
from vf.pyexec import Unsupported

PATH = 'quantities.py'
NDARRAY = px.Type('ndarray', lambda v: isinstance(v, px.Arr) or isinstance(v, px.Obj) and v.cls in ('Quantity', 'raw'))


class Content:
    def __init__(self, name, unit=None, converted=False):
        self.name, self.unit, self.converted = name, unit, converted


class NpFunc(px.Builtin):
    """a function of numpy: its calls are recorded"""

    def __init__(self, vm, name):
        self.name = name

        def call(vm, *a, **k):
            vm.calls.append((name, a, k))
            return vm.npresult(name)
        self.fn = call


class Numpy(px.Namespace):
    def __init__(self, vm):
        class D(dict):
            def __missing__(d, name):
                d[name] = NpFunc(vm, name)
                return d[name]

            def __contains__(d, name):
                return True
        px.Namespace.__init__(self, 'np', D())
        self.d.update({'ndarray': NDARRAY, 'isscalar': px.Builtin(lambda vm, x: isinstance(x, px.Obj) and bool(x.attrs.get('scalar')) or px.isz(x) or isinstance(x, (int, float, fractions.Fraction))),
                       'newaxis': None})


def raw(vm, content, scalar=False):
    o = px.Obj('raw', {'content': content, 'scalar': scalar, 'ndim': 0 if scalar else 1})
    o.attrs['view'] = px.Builtin(lambda vm, t=None: o if t is None or t is NDARRAY else quantity(vm, content, emptymap(vm)) if t is vm.Q else vm.unsup('view'))
    return o


def emptymap(vm):
    return px.PMap(vm, lambda k: False, lambda k: z3.RealVal(0))


def quantity(vm, content, unit, readonly=False):
    o = px.Obj('Quantity', {'_unit': unit, '_derived_units': {}, 'content': content, 'ndim': 1})
    at = o.attrs

    def convert(vm, q, to):
        """contract of inunit"""
        if not isinstance(to, px.PMap):
            vm.unsup('unit given as %r' % (to,))
        c = q.attrs['content']
        if vm.truth(q.attrs['_unit']) and vm.truth(to):
            if not vm.samemap(q.attrs['_unit'], to):
                bad = vm.fresh('incompatible', px.B)
                if vm.decide(bad):
                    vm.incompatible = True
                    raise px.PyRaise('UnitError')
            c = Content(c.name, to.copy(), True)
        q.attrs['content'], q.attrs['_unit'] = c, to

    def copy(vm, *a, **k):
        return quantity(vm, at['content'], at['_unit'])

    def tounit(vm, to):
        r = copy(vm)
        convert(vm, r, to)
        return r

    def inunit(vm, to):
        if getattr(o, 'readonly', False):
            vm.oblige('the operand is not modified', False)
        convert(vm, o, to)

    def view(vm, t=None):
        if t is NDARRAY:
            return raw(vm, at['content'])
        if t is None or t is vm.Q:
            return quantity(vm, at['content'], at['_unit'])
        vm.unsup('view')

    def finalize(vm, other):
        if getattr(o, 'readonly', False):
            vm.oblige('the operand is not modified', False)
        at['_unit'] = other.attrs['_unit'] if isinstance(other, px.Obj) and '_unit' in other.attrs else emptymap(vm)
    at.update({'copy': px.Builtin(copy), 'tounit': px.Builtin(tounit), 'inunit': px.Builtin(inunit), 'view': px.Builtin(view), '__array_finalize__': px.Builtin(finalize)})
    o.readonly = readonly
    return o


def start(vm):
    """the names that the module takes from elsewhere"""
    vm.calls, vm.incompatible = [], False

    def make(vm, x, unit=None, *a, **k):
        if a or k:
            vm.unsup('construction of a quantity')
        c = x.attrs['content'] if isinstance(x, px.Obj) else Content('number')
        return quantity(vm, c, emptymap(vm) if unit is None or unit == '' else unit)
    vm.Q = px.Type('Quantity', lambda v: isinstance(v, px.Obj) and v.cls == 'Quantity', make)

    def type_(vm, x):
        if isinstance(x, px.Obj) and x.cls in ('Quantity', 'raw'):
            return vm.Q if x.cls == 'Quantity' else NDARRAY
        return px.TYPES['type'].call(vm, x)

    def super_(vm):
        def ufunc(vm, f, method, *a, **k):
            vm.calls.append((f.name, a, k))
            vm.methods.append(method)
            return vm.npresult(f.name)

        def function(vm, f, types, args, kwargs):
            vm.calls.append((f.name, tuple(args), kwargs))
            return vm.npresult(f.name)
        return px.Namespace('super()', {'__array_ufunc__': px.Builtin(ufunc), '__array_function__': px.Builtin(function)})
    vm.methods = []
    np_ = Numpy(vm)
    vm.externals = {'np': np_, 'Quantity': vm.Q, 'type': px.Type('type', lambda v: isinstance(v, px.Type), type_), 'super': px.Builtin(super_),
                    'hasattr': px.Builtin(lambda vm, o, k: False if isinstance(o, (tuple, list, dict)) else k in o.attrs if isinstance(o, px.Obj) else vm.unsup('hasattr')),
                    'getattr': px.Builtin(lambda vm, o, k, *d: vm.getattr(o, k)), 'len': px.BUILTINS['len']}
    return np_


def operand(vm, kind, name):
    """(object, unit or None, whether it has a unit)"""
    if kind == 'p':
        return raw(vm, Content(name)), None, False
    if kind == 's':
        return vm.fresh(name, z3.RealSort()), None, False
    if kind == 'i':
        return 1, None, False
    u = px.PMap.fresh(vm, 'unit of %s' % name)
    q = z3.Const('q!' + name, px.KEY)
    vm.fact(z3.ForAll([q], z3.Implies(u.has(q), u.val(q) != 0)))
    u.readonly = True
    ne = vm.truth(u)
    if (kind == 'q') != ne:
        raise px.Cut()
    return quantity(vm, Content(name, u.copy()), u, readonly=True), u, ne


def exponent(vm, u, k):
    return u.exponent(k) if isinstance(u, px.PMap) else z3.RealVal(0)


def same(vm, u, want):
    """the unit u has the exponents of want(key), none of them zero"""
    if isinstance(u, dict) and not u:
        u = emptymap(vm)
    if not isinstance(u, px.PMap):
        return False
    k = vm.fresh('k', px.KEY)
    return z3.And(u.exponent(k) == sym.to_real(want(k)), z3.Implies(px.term(u.has(k)), sym.to_real(px.term(u.val(k))) != 0))


def passed(vm, what, x, op, common=None):
    """numpy is given the numbers of the operand, in the common unit when there is one"""
    o, u, ne = op
    if not isinstance(o, px.Obj):
        return [('%s is passed as it is' % what, x is o or px.isz(x) and px.isz(o) and x.eq(o))]
    c = x.attrs.get('content') if isinstance(x, px.Obj) else None
    if c is None or c.name != o.attrs['content'].name:
        return [('%s is passed' % what, False)]
    out = [('numpy is given the array under %s' % what, x.cls == 'raw')]
    if ne:
        want = common if common is not None else u
        out.append(('%s is expressed in %s' % (what, 'the common unit' if common is not None else 'its unit'), same(vm, c.unit, want.exponent)))
    else:
        out.append(('%s, without unit, is not converted' % what, not c.converted))
    return out


def result(vm, what, r, name, want):
    if not isinstance(r, px.Obj) or r.cls != 'Quantity':
        return [('%s is a quantity' % what, False)]
    return [('%s holds what numpy returns' % what, r.attrs['content'].name == name), ('unit of %s' % what, same(vm, r.attrs['_unit'], want))]


COMMON = ('add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'remainder', 'fmod')
COMPARE = ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')
KEEP = ('absolute', 'ceil', 'conjugate', 'fabs', 'floor', 'negative', 'rint', 'trunc')
POWERS = {'reciprocal': -1, 'sqrt': fractions.Fraction(1, 2), 'square': 2}
PRODUCT, QUOTIENT = ('multiply', 'matmul'), ('divide', 'true_divide', 'floor_divide')
NONE = ('exp', 'log', 'log10', 'expm1')
PAIRS = ('qq', 'qQ', 'Qq', 'qp', 'pq', 'qs', 'sq', 'Qp', 'QQ')


def first_unit(ops):
    return next((u for o, u, ne in ops if ne), None)


def ufunc(names, kinds, method='__call__', out=None, scalar=False, tuple_=False):
    """one ufunc (the first of names that the path picks) on operands of the given kinds"""
    def setup(vm):
        np_ = start(vm)
        ops = [operand(vm, k, 'x%d' % (j + 1)) for j, k in enumerate(kinds)]
        name = names[-1]
        for n in names[:-1]:
            if vm.decide(vm.fresh('is ' + n, px.B)):
                name = n
                break
        f = np_.d[name]
        res = raw(vm, Content('result'), scalar)
        vm.npresult = lambda n: (res, raw(vm, Content('result2'))) if tuple_ else res
        self = next(o for o, u, ne in ops if isinstance(o, px.Obj) and o.cls == 'Quantity')
        kw = {}
        if out is not None:
            q = operand(vm, out, 'out')
            q[0].readonly = False
            kw = {'out': (q[0],)}
        if name == 'clip':
            # the ufunc is not the function np.clip
            f = px.Builtin(f.fn, 'clip')
        n = vm.module.member('Quantity', '__array_ufunc__')
        if n is None:
            raise Unsupported('no __array_ufunc__')
        return px.Func(n, vm.module, self), [f, method] + [o for o, u, ne in ops], kw, (name, ops, self)

    def post(vm, kind, val, d):
        name, ops, self = d
        if kind == 'raise':
            return [('only incompatible units are refused, not %s' % val, val == 'UnitError' and vm.incompatible and name in COMMON + COMPARE + ('clip',))]
        if len(vm.calls) != 1:
            return [('numpy is called once', False)]
        n, args, kw = vm.calls[0]
        goals = [('the same function of numpy', n == name and vm.methods in ([method], [])), ('all the operands', len(args) == len(ops))]
        if len(args) != len(ops):
            return goals
        common = first_unit(ops) if name in COMMON + COMPARE + ('clip',) else None
        if name == 'power':
            ops = ops[:1]
        for j, op in enumerate(ops):
            goals += passed(vm, 'operand %d of %s' % (j + 1, name), args[j], op, common)
        if out is not None:
            o = kw.get('out')
            goals.append(('the output is passed', isinstance(o, tuple) and len(o) == 1 and isinstance(o[0], px.Obj) and o[0].cls == 'raw' and o[0].attrs['content'].name == 'out'))
        exps = [lambda k, u=u, ne=ne: u.exponent(k) if ne else z3.RealVal(0) for o, u, ne in ops]
        if name in COMPARE:
            goals.append(('a comparison has no unit', isinstance(val, px.Obj) and (val.cls == 'raw' or val.cls == 'Quantity') and val.attrs['content'].name == 'result'))
            if isinstance(val, px.Obj) and val.cls == 'Quantity':
                goals.append(('a comparison has no unit', same(vm, val.attrs['_unit'], lambda k: z3.RealVal(0))))
            return goals
        if name in COMMON + ('clip',):
            want = common.exponent if common is not None else lambda k: z3.RealVal(0)
        elif name in KEEP:
            want = exps[0]
        elif name in POWERS:
            want = lambda k: exps[0](k) * z3.RealVal(str(POWERS[name]))
        elif name == 'power':
            want = lambda k: exps[0](k) * args[1]
        elif name in PRODUCT:
            want = lambda k: exps[0](k) + exps[1](k)
        elif name in QUOTIENT:
            want = lambda k: exps[0](k) - exps[1](k)
        else:
            want = lambda k: z3.RealVal(0)
        vals = val if isinstance(val, tuple) else (val,)
        goals.append(('as many results', len(vals) == 1 + tuple_))
        for v, c in zip(vals, ('result', 'result2')):
            goals += result(vm, 'the ' + c, v, c, want)
        return goals
    return setup, post


# (position of the operands, kind of the result): see function()
SEQ0 = ('concatenate', 'concat', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack')
PAIR01 = ('append', 'union1d', 'intersect1d', 'setdiff1d', 'setxor1d')
FIRST = ('amax', 'amin', 'around', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'average', 'broadcast_to', 'copy', 'cumsum', 'delete', 'diag', 'diagflat', 'diagonal', 'diff', 'expand_dims',
         'fix', 'flip', 'fliplr', 'flipud', 'imag', 'max', 'mean', 'median', 'min', 'moveaxis', 'nan_to_num', 'nancumsum', 'nanmax', 'nanmean', 'nanmedian', 'nanmin', 'nanstd',
         'nansum', 'pad', 'partition', 'ptp', 'ravel', 'real', 'repeat', 'reshape', 'resize', 'roll', 'rollaxis', 'rot90', 'round', 'sort', 'squeeze', 'std', 'sum', 'swapaxes',
         'take', 'take_along_axis', 'tile', 'trace', 'transpose', 'trim_zeros')
PRODF = ('convolve', 'correlate', 'cross', 'dot', 'inner', 'kron', 'outer', 'tensordot', 'vdot')
SPLIT = ('split', 'array_split', 'hsplit', 'vsplit', 'dsplit')


def function(name, layout, kinds, scalar=False, out=None):
    """layout: 'seq0' the first argument is a sequence of operands, 'seq1' the second,
    or the positions of the operands among three arguments"""
    def setup(vm):
        np_ = start(vm)
        ops = [operand(vm, k, 'x%d' % (j + 1)) for j, k in enumerate(kinds)]
        os_ = [o for o, u, ne in ops]
        if layout == 'seq0':
            args = [tuple(os_)] if len(os_) % 2 else [list(os_)]
        elif layout == 'seq1':
            args = [raw(vm, Content('selection')), list(os_)]
        else:
            args = [raw(vm, Content('argument')) for _ in range(max(layout) + 1)]
            for p, o in zip(layout, os_):
                args[p] = o
        res = raw(vm, Content('result'), scalar)
        parts = [raw(vm, Content('part%d' % j)) for j in range(3)]
        vm.npresult = lambda n: list(parts) if name in SPLIT + ('broadcast_arrays',) else (res, parts[1]) if name == 'unique' and len(kinds) == 1 and not scalar else None if name == 'fill_diagonal' else res
        self = next(o for o in os_ if isinstance(o, px.Obj) and o.cls == 'Quantity')
        n = vm.module.member('Quantity', '__array_function__')
        if n is None:
            raise Unsupported('no __array_function__')
        kw = {}
        if out is not None:
            q = operand(vm, out, 'out')
            q[0].readonly = False
            kw = {'out': q[0]}
        return px.Func(n, vm.module, self), [np_.d[name], (), tuple(args), kw], {}, (ops, args, parts)

    def post(vm, kind, val, d):
        ops, given, parts = d
        common = None
        both = name not in PRODF + ('broadcast_arrays',)
        if both and len(ops) > 1:
            common = first_unit(ops)
        if kind == 'raise':
            return [('only incompatible units are refused, not %s' % val, val == 'UnitError' and vm.incompatible and both)]
        calls = [c for c in vm.calls if c[0] == name]
        if len(calls) != 1 or len(vm.calls) != 1:
            return [('numpy is called once', False)]
        n, args, kw = calls[0]
        goals = [('all the arguments', len(args) == len(given))]
        if len(args) != len(given):
            return goals
        if layout in ('seq0', 'seq1'):
            s = args[int(layout[-1])]
            if not isinstance(s, (list, tuple)) or len(s) != len(ops):
                return goals + [('all the operands', False)]
            others = [(j, x) for j, x in enumerate(args) if j != int(layout[-1])]
        else:
            s = [args[p] for p in layout]
            others = [(j, x) for j, x in enumerate(args) if j not in layout]
        for j, op in enumerate(ops):
            goals += passed(vm, 'operand %d of %s' % (j + 1, name), s[j], op, common)
        for j, x in others:
            goals.append(('argument %d is passed as it is' % (j + 1), isinstance(x, px.Obj) and x.attrs.get('content') is given[j].attrs['content']))
        if out is not None:
            o = kw.get('out')
            goals.append(('the output is passed', isinstance(o, px.Obj) and o.cls == 'raw' and o.attrs['content'].name == 'out'))
        exps = [lambda k, u=u, ne=ne: u.exponent(k) if ne else z3.RealVal(0) for o, u, ne in ops]
        if name == 'fill_diagonal':
            return goals + [('returns nothing', val is None)]
        if name in SPLIT + ('broadcast_arrays',):
            if not isinstance(val, (list, tuple)) or len(val) != 3:
                return goals + [('all the parts', False)]
            for j in range(3):
                goals += result(vm, 'part %d' % (j + 1), val[j], 'part%d' % j, exps[j if name == 'broadcast_arrays' else 0])
            return goals
        if name == 'unique' and not scalar:
            if not isinstance(val, (list, tuple)) or len(val) != 2:
                return goals + [('both results', False)]
            goals.append(('the other results have no unit', isinstance(val[1], px.Obj) and val[1].cls == 'raw'))
            val = val[0]
        if name in PRODF:
            want = lambda k: exps[0](k) + exps[1](k)
        elif name in ('var', 'nanvar'):
            want = lambda k: 2 * exps[0](k)
        elif len(ops) > 1:
            want = common.exponent if common is not None else lambda k: z3.RealVal(0)
        else:
            want = exps[0]
        return goals + result(vm, 'the result', val, 'result', want)
    return setup, post


def merged(cases, timeout, deadline):
    """one task for several cases"""
    total = None
    for label, setup, post in cases:
        r = px.run_py(PATH, setup, post, timeout=timeout, deadline=deadline)
        r.obligs = [('%s: %s' % (label, o[0]),) + tuple(o[1:]) for o in r.obligs]
        if r.status == 'unsupported':
            r.reason = '%s: %s' % (label, r.reason)
        if total is None:
            total = r
            continue
        total.obligs += r.obligs
        total.time += r.time
        total.used |= r.used
        if r.status != 'proved' and (total.status == 'proved' or r.status == 'failed' and total.status != 'failed'):
            total.status, total.reason = r.status, r.reason
    return total


def groups():
    L = lambda k: k.replace('Q', 'u')
    up = []
    for names, kinds in (((COMMON), PAIRS), (COMPARE, PAIRS), (PRODUCT, PAIRS), (QUOTIENT, PAIRS)):
        up.append(('ufuncs %s...' % names[0], [('%s(%s)' % ('/'.join(names), k), *ufunc(names, k)) for k in kinds]))
    up.append(('ufuncs of one operand', [('%s(%s)' % ('/'.join(n), k), *ufunc(n, k, scalar=s)) for n in (KEEP, tuple(POWERS), NONE) for k in 'qQ' for s in (False, True)]))
    up.append(('power', [('power(%s)' % k, *ufunc(('power',), k)) for k in ('qs', 'Qs')]))
    up.append(('clip', [('clip(%s)' % k, *ufunc(('clip',), k)) for k in ('qqq', 'Qqq', 'qpp', 'qqp', 'qpq', 'pqq', 'qss', 'ppq')]))
    up.append(('ufuncs with an output, methods', [('add/maximum/subtract(qq, out)', *ufunc(('add', 'maximum', 'subtract'), 'qq', out='q')), ('add(qp, out)', *ufunc(('add', 'multiply'), 'qp', out='Q')),
                                                   ('add.outer', *ufunc(('add', 'multiply', 'less'), 'qq', method='outer')), ('reduce', *ufunc(COMMON, 'q', method='reduce')),
                                                   ('accumulate', *ufunc(COMMON, 'q', method='accumulate', scalar=False))]))
    seqs = ('qq', 'qQ', 'Qq', 'qp', 'pq', 'qqq', 'Qpq', 'qpq')
    up.append(('concatenations', [('%s(%s)' % (n, k), *function(n, 'seq0', k)) for n in SEQ0 for k in (seqs if n == 'concatenate' else ('qq', 'Qpq'))]))
    up.append(('choose, select', [('%s(%s)' % (n, k), *function(n, 'seq1', k)) for n in ('choose', 'select') for k in ('qq', 'Qpq', 'pq')]))
    up.append(('append, where, insert, clip', [('%s(%s)' % (n, k), *function(n, lay, k)) for n, lay in [(n, (0, 1)) for n in PAIR01 + ('fill_diagonal',)] + [('where', (1, 2)), ('insert', (0, 2))]
                                               for k in (PAIRS if n in ('append', 'where') else ('qq', 'Qq', 'qp', 'pq'))] +
               [('clip(%s)' % k, *function('clip', (0, 1, 2), k)) for k in ('qqq', 'Qqp', 'pqq', 'qss', 'ppq')]))
    up.append(('functions of one operand', [(n, *function(n, (0,), k, scalar=s)) for n in FIRST for k, s in (('q', False), ('Q', True))] + [(n, *function(n, (1,), 'q')) for n in ('compress', 'extract')] +
               [('sum(out)', *function('sum', (0,), 'q', out='q')), ('unique', *function('unique', (0,), 'q')), ('unique', *function('unique', (0,), 'q', scalar=True))]))
    up.append(('variances', [(n, *function(n, (0,), k, scalar=s)) for n in ('var', 'nanvar') for k, s in (('q', False), ('Q', True))]))
    up.append(('products', [('%s(%s)' % (n, k), *function(n, (0, 1), k)) for n in PRODF for k in ('qq', 'qp', 'pq', 'qs', 'Qq')]))
    up.append(('splits', [('%s(%s)' % (n, k), *function(n, (0,), k)) for n in SPLIT for k in 'qQ'] + [('broadcast_arrays(%s)' % k, *function('broadcast_arrays', (0, 1, 2), k)) for k in ('qqq', 'qpQ', 'pqq')]))
    return up


def tasks(mods):
    out = []
    for what, cases in groups():
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, cases=cases):
            return merged(cases, timeout, deadline)
        out.append(('C26', what, None, PATH + ':Quantity.' + ('__array_ufunc__' if 'ufunc' in what or what in ('power', 'clip') else '__array_function__'), fn, {'nobounded': True}))
    return out
