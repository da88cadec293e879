"""C19, C20: selections of packed tables, packing and unpacking.

A table is its layout size N and its index: Ellipsis (all the elements), a
normalised slice (start, start + m * step, step) or an array of integers.
The layout enters these functions through its size only; arrays are modelled
along their packed (or flattened) axis, the other axes are carried along."""
import itertools
import z3
from vf import pyexec as px
from vf.pyexec import term, Slice, Arr

PATH = 'packedtables/core.py'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CLS = 'PackedTable'


# ------------------------------------------------------------- the spec side
def spec_indices(vm, s, n):
    """start, step and length of an array of n elements indexed by s, as the
    language defines it (slice.indices)"""
    return vm.slice_indices(s, n)


def inrange(vm, a, m, c, n):
    """every a + k * c, 0 <= k < m, is in [0, n): the two ends are enough"""
    last = a + (m - 1) * term(c)
    return z3.Implies(m > 0, z3.And(0 <= a, a < n, 0 <= last, last < n))


def normalised(vm, name, n):
    """a normalised slice of m elements"""
    a, m, c = vm.fresh(name + '.start'), vm.fresh(name + '.m'), vm.fresh(name + '.step')
    vm.assume(m >= 0, c != 0, inrange(vm, a, m, c, n), z3.Implies(m == 0, a >= 0))
    return Slice(a, a + m * c, c), a, m, c


def between(vm, a, m, c, k, n):
    """lemma: a + k * c lies between the two ends (a product is monotonic)"""
    c = term(c)
    last = a + (m - 1) * c
    e = a + k * c
    return z3.Implies(z3.And(0 <= k, k < m), z3.If(c > 0, z3.And(a <= e, e <= last), z3.And(last <= e, e <= a)))


INDEXES = ('all', 'slice', 'array')


def table(vm, kind, extra=()):
    """a table satisfying the invariant, the number and the values of its indices"""
    N = vm.fresh('N')
    vm.assume(N >= 0)
    at = {'shape': (N,), 'ndim': 1, '_dtype_index': px.BUILTINS['int'], '_special_attributes': ('index', 'removed') + tuple(extra),
          '_reserved_attributes': ('all', 'comm', 'index', 'ndim', 'removed', 'shape'), 'comm': px.Obj('comm', {'size': 1})}
    o = px.Obj(CLS, at)
    if kind == 'all':
        at['_index'] = Ellipsis
        return o, N, N, lambda k: term(k)
    if kind == 'slice':
        at['_index'], a, m, c = normalised(vm, 'index', N)
        return o, N, m, lambda k: a + term(k) * c
    f, m = z3.Function('index', I, I), vm.fresh('m')
    vm.assume(m >= 0)
    q = z3.Int('q!x')
    vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= f(q), f(q) < N)), patterns=[f(q)]))
    at['_index'] = vm.new(m, lambda k: f(term(k)), 'i')
    at['_index'].readonly = True
    return o, N, m, lambda k: f(term(k))


def elements(vm, r):
    """number and values of the indices of a result of the functions: (n of the layout) -> (m, get)"""
    if r is Ellipsis:
        return None
    if isinstance(r, Slice):
        return ('slice', r.start, r.stop, r.step)
    if isinstance(r, Arr):
        return ('array', r.n, r.getter())
    return ('other',)


def check_index(vm, r, N, m, get, name=''):
    """the index r denotes the m values get(k), and satisfies the invariant"""
    k = vm.fresh('k')
    vm.instances_at(k)
    vm.instances_at(z3.IntVal(0))
    ink = z3.And(0 <= k, k < m)
    if r is Ellipsis:
        return [(name + 'number of elements', m == N), (name + 'elements', z3.Implies(ink, get(k) == k))]
    if isinstance(r, Slice):
        if any(x is None for x in (r.start, r.stop, r.step)):
            return [(name + 'normalised slice', False)]
        a, b, c = term(r.start), term(r.stop), term(r.step)
        return [(name + 'number of elements', b == a + m * c), (name + 'step', c != 0), (name + 'start of an empty slice', z3.Implies(m == 0, a >= 0)), (name + 'elements', z3.Implies(ink, a + k * c == get(k))),
                (name + 'elements in the layout', z3.Implies(ink, z3.And(0 <= a + k * c, a + k * c < N)))]
    if isinstance(r, Arr):
        return [(name + 'number of elements', term(r.n) == m), (name + 'elements', z3.Implies(ink, r(k) == get(k))),
                (name + 'elements in the layout', z3.Implies(ink, z3.And(0 <= r(k), r(k) < N)))]
    return [(name + 'the index is a slice, Ellipsis or an array', False)]


# ------------------------------------------------------------ _normalize_slice
def opt(vm, name, present):
    return vm.fresh(name) if present else None


def c_normalize_slice(shape):
    def setup(vm):
        n = vm.fresh('n')
        vm.assume(n >= 0)
        s = Slice(*[opt(vm, x, p) for x, p in zip(('start', 'stop', 'step'), shape)])
        if s.step is not None:
            vm.assume(s.step != 0)
        f = px.function(vm, CLS + '._normalize_slice')

        def run(vm):
            sp = spec_indices(vm, s, n)
            return sp, vm.call(f, [s, n], {})
        return px.Builtin(run), [], {}, (s, n)

    def post(vm, kind, val, d):
        s, n = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        (st, step, ln), r = val
        step, out = term(step), []
        k = vm.fresh('k')
        if r is Ellipsis:
            return [('all the elements', z3.And(ln == n, step == 1, z3.Implies(n > 0, st == 0)))]
        if not isinstance(r, Slice):
            return [('returns a slice', False)]
        a, b, c = term(r.start), term(r.stop), term(r.step)
        vm.fact(z3.Implies(z3.And(0 <= k, k < ln), z3.And(between(vm, st, ln, step, k, n))))
        return [('step', c == step), ('start', z3.Implies(ln > 0, a == st)), ('stop', b == a + ln * step),
                ('start of an empty slice', z3.Implies(ln == 0, a == 0)),
                ('elements in the array', z3.Implies(z3.And(0 <= k, k < ln), z3.And(0 <= a + k * c, a + k * c < n)))]
    return setup, post


def c_between():
    """the lemma used above"""
    def setup(vm):
        return px.Builtin(lambda vm: None), [], {}, None

    def post(vm, kind, val, d):
        a, m, c, k, n = [vm.fresh(x) for x in 'amckn']
        mono = lambda x, y, z: z3.Implies(z3.And(x <= y, z >= 0), x * z <= y * z)
        x, y, z = vm.fresh('x'), vm.fresh('y'), vm.fresh('z')
        vm.fact(mono(z3.IntVal(0), k, c), mono(k, m - 1, c), mono(z3.IntVal(0), k, -c), mono(k, m - 1, -c))
        return [('ends', between(vm, a, m, c, k, n))]
    return setup, post


def stub_normalize_slice(vm, s, n):
    """the contract of _normalize_slice, for its callers"""
    if s.step is not None and vm.decide(term(s.step) == 0):
        raise px.PyRaise('ValueError')
    st, step, ln = spec_indices(vm, s, n)
    if vm.decide(vm.fresh('whole', B)):
        vm.assume(ln == n, term(step) == 1, z3.Implies(term(n) > 0, st == 0))
        return Ellipsis
    a = vm.fresh('norm.start')
    vm.assume(z3.Implies(ln > 0, a == st), z3.Implies(ln == 0, a == 0), inrange(vm, a, ln, step, term(n)), ln >= 0)
    return Slice(a, a + ln * term(step), step)


def stub_normalize_int(vm, s, n):
    """the contract of _normalize_int_selection: any index with the same elements"""
    n = term(n)
    m = term(s.n)
    w = vm.fresh('w')
    vm.oblige('precondition of _normalize_int_selection: elements in the layout', z3.Implies(z3.And(0 <= w, w < m), z3.And(0 <= s(w), s(w) < n)))
    g = s.getter()
    r = px.Obj('IndexOf', {'n': m, 'get': g})
    return r


# ------------------------------------------------- _normalize_int_selection
def c_normalize_int():
    def setup(vm):
        n, m = vm.fresh('n'), vm.fresh('m')
        vm.assume(m >= 0, n >= 0)
        f = z3.Function('s', I, I)
        q = z3.Int('q!x')
        vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(0 <= f(q), f(q) < n)), patterns=[f(q)]))
        a = vm.new(m, lambda k: f(term(k)), 'i')
        a.readonly = True
        o = px.Obj(CLS, {})
        return px.Func(px.function(vm, CLS + '._normalize_int_selection').node, vm.module, o), [a, n], {}, (f, n, m)

    def post(vm, kind, val, d):
        f, n, m = d
        if kind == 'raise':
            return [('does not raise %s' % val, False)]
        return check_index(vm, val, n, m, lambda k: f(term(k)))
    return setup, post


# --------------------------------------------------- __len__, index, _indexable
def method(vm, o, name):
    return px.Builtin(lambda vm, *a, **k: vm.call(vm.getattr(o, name), list(a), k))


def c_len(kind):
    def setup(vm):
        o, N, m, get = table(vm, kind)
        o.readonly = True
        return method(vm, o, '__len__'), [], {}, m

    def post(vm, kind_, val, m):
        return [('length', term(val) == m if kind_ == 'return' else False)]
    return setup, post


def c_index(kind):
    def setup(vm):
        o, N, m, get = table(vm, kind)
        o.readonly = True
        return px.Builtin(lambda vm: vm.getattr(o, 'index')), [], {}, (m, get, N)

    def post(vm, kind_, val, d):
        m, get, N = d
        if kind_ == 'raise' or not isinstance(val, Arr):
            return [('returns an array', False)]
        k = vm.fresh('k')
        return [('number of elements', term(val.n) == m), ('elements', z3.Implies(z3.And(0 <= k, k < m), val(k) == get(k)))]
    return setup, post


def c_indexable(kind):
    """what _indexable selects in a flat array of the layout"""
    def setup(vm):
        o, N, m, get = table(vm, kind)
        o.readonly = True
        f = z3.Function('flat', I, R)
        x = vm.new(N, lambda k: f(term(k)))

        def run(vm):
            i = vm.getattr(o, '_indexable')
            return vm.getitem(x, i)
        return px.Builtin(run), [], {}, (m, get, N, f)

    def post(vm, kind_, val, d):
        m, get, N, f = d
        if kind_ == 'raise' or not isinstance(val, Arr):
            return [('selects', False)]
        k = vm.fresh('k')
        return [('number of elements', term(val.n) == m), ('elements', z3.Implies(z3.And(0 <= k, k < m), val(k) == f(get(k))))]
    return setup, post


# ---------------------------------------------------------------- __getitem__
SELECTIONS = ['int', 'ints', 'mask', 'none', 'emptylist'] + [('slice',) + p for p in itertools.product((0, 1), repeat=3)]


def c_getitem(kind, sel):
    def setup(vm):
        o, N, m, get = table(vm, kind, ('attr',))
        fa = z3.Function('attr', I, R)
        attr = vm.new(m, lambda k: fa(term(k)))
        attr.readonly = True
        o.attrs['attr'] = attr
        o.readonly = True
        ix0 = o.attrs['_index']
        # callees: by their contracts
        o.attrs['_normalize_slice'] = px.Builtin(lambda vm, s, n: stub_normalize_slice(vm, s, n))
        o.attrs['_normalize_int_selection'] = px.Builtin(lambda vm, s, n: stub_normalize_int(vm, s, n))
        pos = None
        if sel == 'int':
            i = vm.fresh('i')
            vm.assume(-m <= i, i < m)
            s, cnt, pos = i, z3.IntVal(1), lambda k: z3.If(i < 0, i + m, i)
        elif sel == 'ints':
            g, cnt = z3.Function('sel', I, I), vm.fresh('nsel')
            q = z3.Int('q!x')
            vm.assume(cnt >= 0)
            vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < cnt), z3.And(-m <= g(q), g(q) < m)), patterns=[g(q)]))
            s = vm.new(cnt, lambda k: g(term(k)), 'i')
            s.readonly = True
            pos = lambda k: z3.If(g(k) < 0, g(k) + m, g(k))
        elif sel == 'mask':
            g = z3.Function('mask', I, B)
            s = vm.new(m, lambda k: g(term(k)), 'b')
            s.readonly = True
            w = vm.where(s)
            cnt, pos = w.n, lambda k: w(k)
        elif sel == 'none':
            s, cnt, pos = Ellipsis, m, lambda k: k
        elif sel == 'emptylist':
            s, cnt, pos = [], z3.IntVal(0), lambda k: k
        else:
            s = Slice(*[opt(vm, x, p) for x, p in zip(('start', 'stop', 'step'), sel[1:])])
            if s.step is not None:
                vm.assume(s.step != 0)

        def run(vm):
            p, c = pos, cnt if pos else None
            if p is None:
                st, step, ln = spec_indices(vm, s, m)
                p, c = (lambda k: st + k * term(step)), ln
                vm.span = (st, step, ln)
            r = vm.call(vm.getattr(o, '__getitem__'), [s], {})
            return r, p, c
        return px.Builtin(run), [], {}, (o, N, m, get, fa, sel, s, ix0)

    def post(vm, kind_, val, d):
        o, N, m, get, fa, sel, s, ix0 = d
        if kind_ == 'raise':
            return [('does not raise %s' % val, False)]
        r, pos, cnt = val
        if not isinstance(r, px.Obj):
            return [('returns a table', False)]
        k = vm.fresh('k')
        if sel == 'mask':
            vm.fact(vm.where(s).about_pos(k))
        if isinstance(sel, tuple):
            st, step, ln = vm.span
            vm.fact(between(vm, st, ln, step, k, m))
        ix = r.attrs['_index']
        if kind == 'slice':
            # every position is between the two ends
            vm.fact(between(vm, ix0.start, m, ix0.step, pos(k), N))
        want = lambda k: get(pos(k))
        if isinstance(ix, px.Obj):
            out = [('number of elements', ix.attrs['n'] == cnt), ('elements', z3.Implies(z3.And(0 <= k, k < cnt), term(ix.attrs['get'](k)) == want(k)))]
        else:
            if isinstance(ix, Slice) and ix.stop is not None:
                # instances at k of what check_index asks
                out = [(nm, g) for nm, g in check_slice(vm, ix, N, cnt, want, k)]
            else:
                out = check_index(vm, ix, N, cnt, want)
        at = r.attrs.get('attr')
        out += [('number of attributes', term(at.n) == cnt), ('attributes follow', z3.Implies(z3.And(0 <= k, k < cnt), at(k) == fa(pos(k))))]
        return out
    return setup, post


def check_slice(vm, r, N, m, get, k):
    a, b, c = term(r.start), term(r.stop), term(r.step)
    ink = z3.And(0 <= k, k < m)
    return [('number of elements', b == a + m * c), ('step', c != 0), ('start of an empty slice', z3.Implies(m == 0, a >= 0)), ('elements', z3.Implies(ink, a + k * c == get(k))),
            ('elements in the layout', z3.Implies(ink, z3.And(0 <= get(k), get(k) < N)))]


# ------------------------------------------------------------- pack, unpack
def array(vm, name, n, writable=False):
    f = z3.Function(name, I, R)
    a = vm.new(n, lambda k: f(term(k)), 'f')
    a.store.fresh = False        # given by the caller: reshape may copy
    a.readonly = not writable
    return a, f


def stub_indexable(vm, o, N, m, kind):
    """the contract of _indexable: in an array of N elements, it selects the elements of the index"""
    ix = o.attrs['_index']
    if kind == 'slice':
        s = Slice(ix.start, vm.fresh('stop'), ix.step)
        s.view = (ix.start, ix.step, m, N)
        o.attrs['_indexable'] = s


def injective(vm, get, kind, m):
    if kind == 'array':
        p, q = z3.Ints('p!x q!x')
        vm.fact(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < m, 0 <= q, q < m, get(p) == get(q)), p == q), patterns=[z3.MultiPattern(get(p), get(q))]))


def witness(vm, o, kind, i, ix0):
    if kind == 'all':
        return i
    if kind == 'slice':
        return vm.fdiv(i - ix0.start, ix0.step)
    return vm.last_fancy[1](i)


def c_pack(kind, hasout, cp):
    def setup(vm):
        o, N, m, get = table(vm, kind)
        stub_indexable(vm, o, N, m, kind)
        o.readonly = True
        x, f = array(vm, 'x', N)
        kw = {'copy': cp}
        if hasout:
            kw['out'], _ = array(vm, 'out0', m, True)
        f_ = method(vm, o, 'pack')
        return f_, [x], kw, (N, m, get, x, f, kw.get('out'))

    def post(vm, kind_, val, d):
        N, m, get, x, f, out = d
        if kind_ == 'raise' or not isinstance(val, Arr):
            return [('returns an array', False)]
        k, i = vm.fresh('k'), vm.fresh('i')
        goals = [('number of elements', term(val.n) == m), ('elements', z3.Implies(z3.And(0 <= k, k < m), val(k) == f(get(k)))),
                 ('the argument is unchanged', z3.Implies(z3.And(0 <= i, i < N), x(i) == f(i)))]
        if out is not None:
            goals += [('the output is filled', z3.And(term(out.n) == m, z3.Implies(z3.And(0 <= k, k < m), out(k) == f(get(k)))))]
        elif cp:
            goals += [('the copy is not a view', val.store is not x.store)]
        return goals
    return setup, post


def c_unpack(kind, hasout, cp, missing, one):
    def setup(vm):
        o, N, m, get = table(vm, kind)
        stub_indexable(vm, o, N, m, kind)
        o.readonly = True
        n = z3.IntVal(1) if one else m
        x, f = array(vm, 'x', n)
        injective(vm, get, kind, m)
        default = vm.fresh('default', R)
        o.attrs['_get_default_missing_value'] = px.Builtin(lambda vm, dt: default)
        kw = {'copy': cp}
        mv = default
        if missing:
            mv = kw['missing_value'] = vm.fresh('missing', R)
        if hasout:
            kw['out'], _ = array(vm, 'out0', N, True)
        ix0 = o.attrs['_index']
        return method(vm, o, 'unpack'), [x], kw, (o, N, m, get, x, f, kw.get('out'), mv, ix0, n)

    def post(vm, kind_, val, d):
        o, N, m, get, x, f, out, mv, ix0, n = d
        if kind_ == 'raise' or not isinstance(val, Arr):
            return [('returns an array', False)]
        k, i, j = vm.fresh('k'), vm.fresh('i'), vm.fresh('j')
        src = (lambda k: f(z3.IntVal(0))) if one else f
        if kind == 'array':
            vm.fact(vm.last_fancy[2](k))
        if kind == 'slice':
            vm.fact(between(vm, ix0.start, m, ix0.step, k, N))
        goals = []
        for nm, a in (('', val),) + ((('output: ', out),) if out is not None else ()):
            ink, ini = z3.And(0 <= k, k < m), z3.And(0 <= i, i < N)
            v = a(i)
            w = witness(vm, o, kind, i, ix0)
            goals += [(nm + 'size', term(a.n) == N), (nm + 'selected elements', z3.Implies(ink, a(get(k)) == src(k))),
                      (nm + 'other elements', z3.Implies(ini, z3.Or(z3.And(0 <= w, w < m, get(w) == i), v == mv)))]
        goals += [('the argument is unchanged', z3.Implies(z3.And(0 <= j, j < n), x(j) == f(j)))]
        if cp and out is None:
            goals += [('the copy is not a view', val.store is not x.store)]
        return goals
    return setup, post


def c_roundtrip(kind, missing):
    """pack(unpack(x)) is x"""
    def setup(vm):
        o, N, m, get = table(vm, kind)
        stub_indexable(vm, o, N, m, kind)
        o.readonly = True
        x, f = array(vm, 'x', m)
        injective(vm, get, kind, m)
        o.attrs['_get_default_missing_value'] = px.Builtin(lambda vm, dt: vm.fresh('default', R))
        args = [x]
        kw = {'missing_value': vm.fresh('missing', R)} if missing else {}

        def run(vm):
            return vm.call(vm.getattr(o, 'pack'), [vm.call(vm.getattr(o, 'unpack'), [x], kw)], {})
        return px.Builtin(run), [], {}, (o, N, m, get, f, o.attrs['_index'])

    def post(vm, kind_, val, d):
        o, N, m, get, f, ix0 = d
        if kind_ == 'raise' or not isinstance(val, Arr):
            return [('returns an array', False)]
        k = vm.fresh('k')
        if kind == 'array':
            vm.fact(vm.last_fancy[2](k))
        if kind == 'slice':
            vm.fact(between(vm, ix0.start, m, ix0.step, k, N))
        return [('size', term(val.n) == m), ('identity', z3.Implies(z3.And(0 <= k, k < m), val(k) == f(k)))]
    return setup, post


def tasks(mods):
    out = []

    def add(prop, what, name, sp, **kw):
        setup, post = sp

        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None):
            return px.run_py(PATH, setup, post, timeout=timeout, deadline=deadline, **kw)
        out.append((prop, what, None, PATH + ':' + CLS + '.' + name, fn, {'nobounded': True}))
    for sh in itertools.product((0, 1), repeat=3):
        add('C19', 'slice(%s)' % ', '.join(x if p else 'None' for x, p in zip(('start', 'stop', 'step'), sh)), '_normalize_slice', c_normalize_slice(sh))
    add('C19', 'lemma: positions lie between the ends', '_normalize_slice', c_between())
    add('C19', 'regular lists', '_normalize_int_selection', c_normalize_int())
    for kind in INDEXES:
        add('C19', 'index: ' + kind, '__len__', c_len(kind))
        add('C19', 'index: ' + kind, 'index', c_index(kind))
        add('C19', 'index: ' + kind, '_indexable', c_indexable(kind))
        for sel in SELECTIONS:
            add('C19', 'index: %s, selection: %s' % (kind, sel if isinstance(sel, str) else 'slice(%s)' % ', '.join(x if p else 'None' for x, p in zip(('start', 'stop', 'step'), sel[1:]))),
                '__getitem__', c_getitem(kind, sel))
    for kind in INDEXES:
        for hasout in (False, True):
            for cp in (False, True):
                add('C20', 'index: %s, out: %s, copy: %s' % (kind, hasout, cp), 'pack', c_pack(kind, hasout, cp))
                for missing in (False, True):
                    for one in (False, True):
                        add('C20', 'index: %s, out: %s, copy: %s, missing value: %s, %s' % (kind, hasout, cp, missing, 'one value' if one else 'a value each'),
                            'unpack', c_unpack(kind, hasout, cp, missing, one))
        for missing in (False, True):
            add('C20', 'index: %s, missing value: %s' % (kind, missing), 'pack(unpack)', c_roundtrip(kind, missing))
    return out
