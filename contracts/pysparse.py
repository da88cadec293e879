"""The functions of sparse.py around the compiled kernels (C01, C02, C03, C04, C05, C06).

A kernel is known by its contract (contracts/sparse.py), through the number of the stored
entries, of the columns and of the rows it is given: here it is a symbol applied to the
contents of its arguments.  The calls of the wrappers are compared with the product the
matrix stands for: the kernel of the format of the matrix, on the records of the matrix, in a
precision that holds the values of the matrix and those of the input."""
import re
import z3
from vf import pyexec as px, nd
from vf.nd import ND, DT, Buf, same, cast
from vf.pyexec import term, Obj, Unsupported, PyRaise, Builtin, Namespace

PATH = 'sparse.py'
FORMATS = {'FSRMatrix': ('fsr', (1, 1)), 'FSCMatrix': ('fsc', (1, 1)), 'FSRRotation2dMatrix': ('fsr_rot2d', (2, 2)), 'FSCRotation2dMatrix': ('fsc_rot2d', (2, 2)),
           'FSRRotation3dMatrix': ('fsr_rot3d', (3, 3)), 'FSCRotation3dMatrix': ('fsc_rot3d', (3, 3))}
BLOCKS = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
R8, R4 = 'float64', 'float32'


def fields(cls, di, ds, bs):
    if 'Block' in cls:
        return [('index', di), ('value', ds, bs if cls.startswith('FSR') else bs[::-1])]
    if 'Rotation2d' in cls:
        return [('index', di), ('r11', ds), ('r21', ds)]
    if 'Rotation3d' in cls:
        return [('index', di), ('r11', ds), ('r22', ds), ('r32', ds)]
    return [('index', di), ('value', ds)]


# ------------------------------------------------------------------ kernels
def argument(vm, x, d):
    """an argument that is only read: converted when needed"""
    if not isinstance(x, ND) or x.view == ('bytes',) or not isinstance(x.dt_, DT) or len(x.shape) != 1:
        raise Unsupported('argument of a kernel')
    return cast(x.content(), x.dt_, DT(d))


def inout(vm, x, d):
    if not isinstance(x, ND) or len(x.shape) != 1:
        raise Unsupported('argument of a kernel')
    if x.view == ('bytes',) or x.dt_.name != d and not (d == 'int8' and x.dt_.name == 'bool') or not x.iscontig(vm):
        raise PyRaise('ValueError')
    return x.content()


def records(vm, x, n, write=False):
    """the records of an argument given as bytes, n of them"""
    if not isinstance(x, ND) or x.view != ('bytes',):
        raise Unsupported('records of a kernel')
    if len(x.shape) != 1:
        raise Unsupported('rank of the records')
    if write and not x.iscontig(vm):
        raise PyRaise('ValueError')
    item = vm.getattr(x.buf.dt, 'itemsize')
    if not nd.equal(vm, x.shape[0], vm.binop('Mult', n, item)):
        raise PyRaise('ValueError')
    return x.buf


def bind(names, defaults, hidden, a, k):
    out = dict(zip([x for x in names if x not in hidden], a))
    if len(a) > len(names) - len(hidden) or any(x in out or x not in names or x in hidden for x in k):
        raise PyRaise('TypeError')
    out.update(k)
    for x in names:
        if x not in out and x not in hidden and x not in defaults:
            raise PyRaise('TypeError')
    return out


def size1(vm, x):
    if not isinstance(x, ND):
        raise Unsupported('argument of a kernel')
    return x.size(vm)


def check(vm, x, n):
    if not nd.equal(vm, size1(vm, x), n):
        raise PyRaise('ValueError')


KIND = {'4': R4, '8': R8}


def matvec(name, unit):
    m = re.match(r'(fs[cr])(_homothety|_block|_rot2d|_rot3d)?_matvec_i(\d)_r(\d)_v(\d)$', name)
    form, kind, isize, rsize, vsize = m.groups()
    kind = kind or ''
    names = [str(x) for x in unit.args]
    v = KIND[vsize]

    def call(vm, *a, **k):
        h = bind(names, names[4:6] if kind not in ('_block', '_homothety') else [], names[8:] if kind == '_block' else [], a, k)
        A = [h.get(x) for x in names]
        b = (A[6], A[6]) if kind == '_homothety' else (A[6], A[7]) if kind == '_block' else {'': (1, 1), '_rot2d': (2, 2), '_rot3d': (3, 3)}[kind]
        if kind == '_block' and not all(isinstance(x, int) for x in b):
            raise Unsupported('shape of the blocks')
        nin = A[4] if A[4] is not None else vm.binop('FloorDiv', size1(vm, A[1]), b[1])
        nout = A[5] if A[5] is not None else vm.binop('FloorDiv', size1(vm, A[2]), b[0])
        check(vm, A[1], vm.binop('Mult', nin, b[1]))
        check(vm, A[2], vm.binop('Mult', nout, b[0]))
        mat = records(vm, A[0], vm.binop('Mult', A[3], nin if form == 'fsc' else nout))
        d = mat.dt.fields
        expected = kind not in ('', '_homothety') and kind[1:] or 'scalar'
        actual = {1: 'scalar', 2: 'rot2d', 3: 'rot3d'}[len(d) - 1] if not d[1][2] else 'block'
        ok = expected == actual and d[0][1].itemsize == int(isize) and d[1][1].itemsize == int(rsize)
        if kind == '_block' and actual == 'block':
            ok = ok and tuple(d[1][2]) == (b if form == 'fsr' else b[::-1])
        x = argument(vm, A[1], v)
        o = inout(vm, A[2], v)
        if A[2].buf is A[1].buf:
            raise Unsupported('the input of the kernel is its output')
        extra = A[6] if kind == '_homothety' else 1
        A[2].write(vm, ('matvec', form, expected, ok, v, mat.content, x, o, A[3], nin, nout, extra))
    return Builtin(call, name)


def diag(name, unit):
    m = re.match(r'fsc_fsr(_rot2d|_rot3d)?_ncolmax1_i(\d)_r(\d)_v(\d)$', name)
    kind, isize, rsize, vsize = m.groups()
    names = [str(x) for x in unit.args]
    v = KIND[vsize]
    b = {'_rot2d': 2, '_rot3d': 3}.get(kind, 1)

    def call(vm, *a, **k):
        h = bind(names, names[2:], [], a, k)
        A = [h.get(x) for x in names]
        nin = A[2] if A[2] is not None else vm.binop('FloorDiv', size1(vm, A[1]), b)
        if not isinstance(A[0], ND) or A[0].view != ('bytes',):
            raise Unsupported('records')
        item = vm.getattr(A[0].buf.dt, 'itemsize')
        nout = A[3] if A[3] is not None else vm.binop('FloorDiv', size1(vm, A[0]), item)
        check(vm, A[1], vm.binop('Mult', nin, b))
        mat = records(vm, A[0], nout)
        d = mat.dt.fields
        ok = len(d) - 1 == b and not d[1][2] and d[0][1].itemsize == int(isize) and d[1][1].itemsize == int(rsize)
        o = inout(vm, A[1], v)
        A[1].write(vm, ('diag', b, ok, v, mat.content, o, nin, nout))
    return Builtin(call, name)


def restrict(name, unit, what):
    isize = int(name[-1])
    names = [str(x) for x in unit.args]

    def call(vm, *a, **k):
        hidden = names[6:]
        h = bind(names, names[5:6], hidden, a, k)
        A = [h.get(x) for x in names]
        n = A[5] if A[5] is not None else size1(vm, A[1])
        check(vm, A[1], n)
        mat = records(vm, A[0], vm.binop('Mult', A[2], A[3]), what == 'restrict')
        d = mat.dt.fields
        ok = d[0][1].itemsize == isize and d[0][1].kind == 'i'
        stride = same(vm, A[4], vm.getattr(mat.dt, 'itemsize'))
        if what == 'restrict':
            x = argument(vm, A[1], 'int8') if A[1].dt_.name != 'bool' else A[1].content()
            c = dict(mat.content[1])
            before = mat.content
            new = ('rec', tuple((f, ('renumbered', ok, c[f], x, n, A[2], A[3]) if f == 'index' else c[f]) for f in [y[0] for y in mat.content[1]]))
            vm.oblige('the size of the records is given to the kernel', stride)
            A[0].write(vm, ('bytes', new))
            r = vm.fresh('kept')
            vm.assume(r >= 0, r <= term(n))
            vm.counts = getattr(vm, 'counts', [])
            vm.counts.append((r, x, n))
            return r
        o = inout(vm, A[1], 'int8')
        vm.oblige('the size of the records is given to the kernel', stride)
        A[1].write(vm, ('kernel', ok, mat.content, o, n, A[2], A[3]))
    return Builtin(call, name)


def library(mods, name='sparse'):
    d = {}
    for u, unit in mods[name].units.items():
        if '_matvec_i' in u:
            d[u] = matvec(u, unit)
        elif 'ncolmax1_i' in u:
            d[u] = diag(u, unit)
        elif u.startswith('fsr_restrict_i'):
            d[u] = restrict(u, unit, 'restrict')
        elif u.startswith('fsr_kernel_i'):
            d[u] = restrict(u, unit, 'kernel')
    return Namespace(name, d, complete=True)


ASSIGN = Builtin(lambda vm, out, x: vm.setitem(out, Ellipsis, x), 'operation_assignment')
OPERATORS = {n: Builtin(lambda vm, out, x, o=o: out.vm_iop(vm, o, x) if isinstance(out, px.Ext) else vm.unsup('operator'), n)
             for n, o in (('iadd', 'Add'), ('imul', 'Mult'), ('iand', 'BitAnd'), ('isub', 'Sub'), ('itruediv', 'Div'), ('ior', 'BitOr'))}


def externals(mods, more=None):
    d = nd.builtins()
    d.update({'fsp': library(mods), 'operation_assignment': ASSIGN, 'operator': Namespace('operator', OPERATORS), 'type': px.TYPES['type'],
              'isscalarlike': Builtin(lambda vm, x: not isinstance(x, (px.Ext, tuple, list, Obj))), 'tointtuple': Builtin(lambda vm, x: tuple(x) if isinstance(x, (tuple, list)) else (x,))})
    d.update(more or {})
    return d


# ----------------------------------------------------------------- matrices
def positive(vm, *names):
    out = []
    for n in names:
        x = vm.fresh(n)
        vm.assume(x >= 1)
        out.append(x)
    return out


def matrix(vm, cls, di, ds, bs, ndim=2, contig=None, readonly=True):
    """a matrix made by the constructor of the class, from the structured array of its records"""
    nbr, nbc, nmax = positive(vm, 'nrow', 'ncol', 'nmax')
    fsr = cls.startswith('FSR')
    if ndim == 3:
        n1, n2 = positive(vm, 'n1', 'n2')
        lead = (n1, n2)
        if fsr:
            nbr = n1 * n2
        else:
            nbc = n1 * n2
    else:
        lead = (nbr if fsr else nbc,)
    if contig is None:
        contig = vm.fresh('contiguous records', z3.BoolSort())
    data = nd.array(vm, 'records', lead + (nmax,), fields(cls, di, ds, bs), contig, readonly)
    shape = (vm.binop('Mult', nbr, bs[0]), vm.binop('Mult', nbc, bs[1]))
    t = vm.glob(cls)
    if not isinstance(t, px.Type) or t.call is None:
        raise Unsupported('class ' + cls)
    m = vm.call(t, [shape], {'data': data})
    return m, data, dict(nbr=nbr, nbc=nbc, nmax=nmax, shape=shape, bs=bs, fsr=fsr)


def wide(ds, dv):
    return R8 if R8 in (ds, dv) else R4


def accepted(vm, c, m, data, g, ds, v, vc, o, oc, extra):
    """whether c is the product added to the content oc of the output"""
    kind = 'scalar'
    n = len(data.dt_.fields)
    if data.dt_.fields[1][2]:
        kind = 'block'
    elif n == 3:
        kind = 'rot2d'
    elif n == 4:
        kind = 'rot3d'
    odt = o or None
    inner = c
    # the last cast to the type of the output
    alts = []
    for X in (R4, R8):
        if X != R8 and wide(ds, v.dt_.name if v.dt_.name in (R4, R8) else ds) == R8:
            continue
        d = odt or DT(X)
        e = ('matvec', 'fsr' if g['fsr'] else 'fsc', kind, True, X, data.buf.before, cast(vc, v.dt_, DT(X)), cast(oc, d, DT(X)), g['nmax'], g['nbc'], g['nbr'], extra)
        alts.append(same(vm, inner, cast(e, DT(X), d)))
    return z3.Or(alts)


def c_matvec(mods, cls, di, ds, bs, ndim, via='method'):
    scalar = bs == (1, 1)

    def setup(vm):
        h = {}

        def run(vm):
            m, data, g = matrix(vm, cls, di, ds, bs, ndim)
            e = positive(vm, 'extra')[0] if scalar else 1
            dv = choose(vm, (R8, R4, 'int64', 'float16', 'int8', 'bool'))
            size = vm.binop('Mult', g['shape'][1], e)
            v = nd.array(vm, 'x', (size,), dv, vm.fresh('contiguous input', z3.BoolSort()), True)
            o = choose(vm, (None, R8, R4, 'int64'))
            args = [v]
            out = None
            if o is not None:
                out = nd.array(vm, 'output', (vm.binop('Mult', g['shape'][0], e),), o)
                args.append(out)
            h['d'] = (m, data, g, v, out, e)
            return vm.call(vm.getattr(m, '_matvec'), args, {})
        return Builtin(run), [], {}, h

    def post(vm, kind, val, d):
        if kind == 'raise':
            return [('returns the product', False)]
        m, data, g, v, out, e = d['d']
        if not isinstance(val, ND):
            return [('returns the product', False)]
        oc = ('full', 0) if out is None else out.buf.before
        r = val if out is None else ND(out.buf, out.shape)
        goals = [('the product is added to the output', accepted(vm, r.content(), m, data, g, ds, v, v.buf.before, r.dt_, oc, e)),
                 ('size', same(vm, val.size(vm), vm.binop('Mult', g['shape'][0], e)))]
        if out is None:
            goals.append(('type of the result', nd.cancast(DT(ds), val.dt_) and (v.dt_.name not in (R4, R8) or nd.cancast(v.dt_, val.dt_))))
        else:
            goals.append(('returns the output', val.buf is out.buf))
        return goals
    return setup, post


def choose(vm, xs):
    for x in xs[:-1]:
        if vm.decide(vm.fresh('choice', z3.BoolSort())):
            return x
    return xs[-1]


def run(f):
    """the contract of a call made by f(vm, holder)"""
    def setup(vm):
        h = {}
        return Builtin(lambda vm: f(vm, h)), [], {}, h
    return setup


def unchanged(data):
    return ('the records are not modified', data.buf.content is data.buf.before or data.buf.content == data.buf.before)


# -------------------------------------------------------- other operations
def c_scale(mods, cls, di, ds, bs, side):
    """matrix * scalar: every value is multiplied, in a new matrix"""
    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs, choose(vm, (2, 3)))
        s = vm.fresh('scalar', z3.RealSort())
        h['d'] = (m, data, g, s)
        return vm.call(vm.getattr(m, side), [s], {})

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, Obj) or not isinstance(val.attrs.get('data'), ND):
            return [('returns a matrix', False)]
        m, data, g, s = h['d']
        b = val.attrs['data'].buf
        name = data.dt_.fields[1][1].name
        c0, c1 = dict(data.buf.before[1]), dict(b.content[1])
        goals = [unchanged(data), ('another matrix', b is not data.buf and val is not m), ('of the same class', val.cls == cls),
                 ('shape', same(vm, tuple(val.attrs['shape']), tuple(g['shape']))), ('the indices are kept', same(vm, c1['index'], c0['index'])),
                 ('number of records', same(vm, val.attrs['data'].size(vm), data.size(vm))), ('type of the records', vm.truth(vm.compare1('Eq', val.attrs['data'].dt_, data.dt_)))]
        for f in c0:
            if f != 'index':
                goals.append(('the values are multiplied', z3.Or(same(vm, c1[f], ('op', 'Mult', name, c0[f], ('full', s))), same(vm, c1[f], ('op', 'Mult', name, ('full', s), c0[f])))))
        return goals
    return run(go), post


def c_transpose(mods, cls, di, ds, bs):
    """the product by the transpose is that of the kernel of the other format, on the same records"""
    other = ('FSC' if cls.startswith('FSR') else 'FSR') + cls[3:]

    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs, choose(vm, (2, 3)))
        e = positive(vm, 'extra')[0] if bs == (1, 1) else 1
        v = nd.array(vm, 'x', (vm.binop('Mult', g['shape'][0], e),), R8, True, True)
        h['d'] = (m, data, g, v, e)
        mt = vm.call(vm.getattr(m, '_transpose'), [], {})
        h['t'] = mt
        return vm.call(vm.getattr(mt, '_matvec'), [v], {}) if isinstance(mt, Obj) else None

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, ND):
            return [('returns the product by the transpose', False)]
        m, data, g, v, e = h['d']
        gt = dict(g, fsr=not g['fsr'], nbr=g['nbc'], nbc=g['nbr'])
        return [unchanged(data), ('format', h['t'].cls == other), ('shape', same(vm, tuple(h['t'].attrs['shape']), tuple(g['shape'][::-1]))),
                ('product by the transpose', accepted(vm, val.content(), h['t'], data, gt, ds, v, v.buf.before, val.dt_, ('full', 0), e)),
                ('size', same(vm, val.size(vm), vm.binop('Mult', g['shape'][1], e)))]
    return run(go), post


def c_mul(mods, cls, di, ds, bs, side):
    """matrix * vector, vector * matrix"""
    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs)
        v = nd.array(vm, 'x', (g['shape'][1 if side == '__mul__' else 0],), choose(vm, (R8, R4)), True, True)
        h['d'] = (m, data, g, v)
        return vm.call(vm.getattr(m, side), [v], {})

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, ND):
            return [('returns the product', False)]
        m, data, g, v = h['d']
        gt = g if side == '__mul__' else dict(g, fsr=not g['fsr'], nbr=g['nbc'], nbc=g['nbr'])
        return [unchanged(data), ('product', accepted(vm, val.content(), m, data, gt, ds, v, v.buf.before, val.dt_, ('full', 0), 1))]
    return run(go), post


def c_copy(mods, cls, di, ds, bs):
    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs, choose(vm, (2, 3)))
        h['d'] = (m, data, g)
        return vm.call(vm.getattr(m, 'copy'), [], {})

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, Obj):
            return [('returns a matrix', False)]
        m, data, g = h['d']
        b = val.attrs['data'].buf
        return [unchanged(data), ('another memory', b is not data.buf), ('class', val.cls == cls), ('records', same(vm, b.content, data.buf.before)),
                ('shape', same(vm, tuple(val.attrs['shape']), tuple(g['shape'])))]
    return run(go), post


# ---------------------------------------------------------------- operators
def operator(vm, m, cls='SparseOperator', **attrs):
    o = Obj(cls, dict({'matrix': m, 'dtype': m.attrs['dtype']}, **attrs))
    o.module = px.Module.get(PATH if cls == 'SparseOperator' else 'operators.py')

    def copy(vm):
        c = Obj(o.cls, dict(o.attrs))
        c.module = o.module
        del c.attrs['copy']
        c.readonly = False
        return c
    o.attrs['copy'] = Builtin(copy)
    o.attrs['delete'] = Builtin(lambda vm: None)
    return o


def c_direct(mods, cls, di, ds, bs):
    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs)
        o = operator(vm, m)
        if bs == (1, 1):
            e = choose(vm, (1, positive(vm, 'extra')[0]))
            shin, shout = ((g['nbc'],), (g['nbr'],)) if not z3.is_expr(e) else ((g['nbc'], e), (g['nbr'], e))
        else:
            e = 1
            shin = (g['nbc'],) + ((bs[1],) if bs[1] > 1 else ())
            shout = (g['nbr'],) + ((bs[0],) if bs[0] > 1 else ())
        x = nd.array(vm, 'x', shin, choose(vm, (R8, R4)), vm.fresh('contiguous input', z3.BoolSort()), True)
        y = nd.array(vm, 'y', shout, choose(vm, (R8, R4)))
        op = choose(vm, (None, ASSIGN, OPERATORS['iadd'], OPERATORS['imul']))
        h['d'] = (m, data, g, x, y, op, e)
        return vm.call(vm.getattr(o, 'direct'), [x, y] + ([] if op is None else [op]), {})

    def post(vm, kind, val, h):
        m, data, g, x, y, op, e = h['d']
        if op is OPERATORS['imul']:
            return [('a product cannot be multiplied into the output', kind == 'raise' and val == 'ValueError'), ('the output is not modified', y.buf.content is y.buf.before)]
        if kind == 'raise':
            return [('returns', False)]
        oc = y.buf.before if op is OPERATORS['iadd'] else ('full', 0)
        return [unchanged(data), ('the output is the product' if oc[0] == 'full' else 'the product is added to the output',
                                  accepted(vm, y.buf.content, m, data, g, ds, x, x.buf.before, y.dt_, oc, e))]
    return run(go), post


class Made:
    """calls of the constructor of SparseOperator"""

    def __init__(self):
        self.calls = []
        self.type = px.Type('SparseOperator', lambda v: isinstance(v, Obj) and v.cls == 'SparseOperator', self.make)

    def make(self, vm, arg, **k):
        o = Obj('SparseOperator', {'matrix': arg, 'keywords': k})
        o.module = px.Module.get(PATH)
        return o


def c_ruleT(mods, cls, di, ds, bs):
    other = ('FSC' if cls.startswith('FSR') else 'FSR') + cls[3:]

    def go(vm, h):
        vm.externals = dict(vm.externals, SparseOperator=Made().type)
        m, data, g = matrix(vm, cls, di, ds, bs)
        o = operator(vm, m)
        if bs == (1, 1):
            o.attrs.update(broadcastable_shapein=(g['nbc'],), broadcastable_shapeout=(g['nbr'],), shapein=None, shapeout=None)
        else:
            o.attrs.update(shapein=(g['nbc'],) + ((bs[1],) if bs[1] > 1 else ()), shapeout=(g['nbr'],) + ((bs[0],) if bs[0] > 1 else ()))
        h['d'] = (m, data, g, o)
        return vm.call(px.Func(vm.module.member('SparseOperator', '_rule_transpose'), vm.module), [o], {})

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, Obj) or 'matrix' not in val.attrs or not isinstance(val.attrs['matrix'], Obj):
            return [('returns an operator', False)]
        m, data, g, o = h['d']
        mt, k = val.attrs['matrix'], val.attrs['keywords']
        goals = [unchanged(data), ('format', mt.cls == other), ('shape', same(vm, tuple(mt.attrs['shape']), tuple(g['shape'][::-1]))),
                 ('records', same(vm, mt.attrs['data'].buf.content, data.buf.before)), ('size of the records', same(vm, mt.attrs['data'].size(vm), data.size(vm)))]
        for a, b in (('broadcastable_shapein', 'broadcastable_shapeout'), ('broadcastable_shapeout', 'broadcastable_shapein'), ('shapein', 'shapeout'), ('shapeout', 'shapein')):
            if a in k:
                goals.append((a, same(vm, k[a], o.attrs[b])))
        if bs == (1, 1) and not ('shapein' in k and 'shapeout' in k):
            goals.append(('the shapes of the components are given', 'broadcastable_shapein' in k and 'broadcastable_shapeout' in k))
        return goals
    return run(go), post


def c_shapes(mods, cls, func):
    """reshapein, reshapeout, validatein, validateout of operators with extra values"""
    def go(vm, h):
        m, data, g = matrix(vm, cls, 'int32', R8, (1, 1))
        a, b, c = positive(vm, 'a', 'b', 'c')
        out = func.endswith('out')
        n = g['nbr'] if out else g['nbc']
        two = choose(vm, (False, True))
        if two:
            vm.assume(a * b == n)
        own = (a, b) if two else (n,)
        more = choose(vm, ((), (c,), (c, positive(vm, 'd')[0])))
        their = (g['nbc'],) if out else (g['nbr'],)
        o = operator(vm, m, shapein=None, shapeout=None, broadcastable_shapein=their if out else own, broadcastable_shapeout=own if out else their)
        if func.startswith('validate'):
            # any shape
            k, r = vm.fresh('multiple'), vm.fresh('rest')
            vm.assume(k >= 0, r > 0, r < n)
            more = choose(vm, (True, False))
            own = (n * k,) if more else (n * k + r,)
            h['d'] = (g, their, more, n, own)
            return vm.call(vm.getattr(o, func), [own], {})
        h['d'] = (g, their, more, n, own)
        return vm.call(vm.getattr(o, func), [own + more], {})

    def post(vm, kind, val, h):
        g, their, more, n, own = h['d']
        if func.startswith('validate'):
            return [('the sizes that are not multiples are refused', kind == 'return' if more else (kind, val) == ('raise', 'ValueError'))]
        if kind == 'raise' or not isinstance(val, tuple):
            return [('returns a shape', False)]
        return [('the extra dimensions are kept', same(vm, val, their + more))]
    return run(go), post


def c_pTp(mods, cls, di, ds, dv, first):
    """the rule that makes a diagonal of P.T P, when it applies"""
    bs = FORMATS[cls][1] if cls in FORMATS else (2, 2)

    def go(vm, h):
        vm.externals = dict(vm.externals, DiagonalOperator=px.Type('DiagonalOperator', lambda v: False, lambda vm, x, **k: Obj('Diagonal', {'data': x, 'keywords': k})))
        m, data, g = matrix(vm, cls, di, ds, bs)
        e = 1
        if first == 'extra':
            e = positive(vm, 'extra')[0]
            sh = (g['nbc'], e)
        else:
            sh = (g['nbc'],) + ((bs[1],) if bs[1] > 1 else ())
        o = operator(vm, m, shapein=choose(vm, (sh, None)))
        o.attrs['dtype'] = DT(dv)
        h['d'] = (m, data, g, o, sh, e)
        return vm.call(px.Func(vm.module.member('SparseOperator', '_rule_pTp'), vm.module), [Obj('transpose', {}), o], {})

    def post(vm, kind, val, h):
        if kind == 'raise':
            return [('returns', False)]
        m, data, g, o, sh, e = h['d']
        if val is None:
            return [unchanged(data), ('the rule applies to projections with one column', z3.Or(g['nmax'] != 1, o.attrs['shapein'] is None, cls not in ('FSRMatrix', 'FSRRotation2dMatrix', 'FSRRotation3dMatrix'), term(ds == R8 and dv == R4)))]
        if not isinstance(val, Obj) or val.cls != 'Diagonal' or not isinstance(val.attrs['data'], ND):
            return [('returns a diagonal', False)]
        x = val.attrs['data']
        c = ('diag', bs[0], True, dv, data.buf.before, ('full', 0), g['nbc'], g['nbr'])
        goals = [unchanged(data), ('applies to one column only', g['nmax'] == 1), ('shape of the diagonal', same(vm, x.shape, sh))]
        alts = [z3.And(term(e) == 1, same(vm, x.content(), c))]
        if z3.is_expr(e):
            alts.append(same(vm, x.content(), ('repeat', c, e)))
        return goals + [('the diagonal has the sums of the squares', z3.Or(alts))]
    return run(go), post


def c_restrict(mods, cls, di, ds, bs, inplace, shaped):
    def go(vm, h):
        m, data, g = matrix(vm, cls, di, ds, bs, 2, True if inplace else None, readonly=not inplace)
        e = ()
        if cls == 'FSRMatrix':
            own = (g['nbc'],)
            e = choose(vm, ((), (positive(vm, 'extra')[0],))) if shaped else ()
            o = operator(vm, m, broadcastable_shapein=own, broadcastable_shapeout=(g['nbr'],), shapein=own + e if shaped else None, shapeout=(g['nbr'],) + e if shaped else None)
        else:
            own = (g['nbc'],)
            o = operator(vm, m, shapein=own + ((bs[1],) if bs[1] > 1 else ()), shapeout=(g['nbr'],) + ((bs[0],) if bs[0] > 1 else ()))
        o.readonly = not inplace
        m.readonly = not inplace
        mask = nd.array(vm, 'mask', own, 'bool', vm.fresh('contiguous mask', z3.BoolSort()), True)
        h['d'] = (m, data, g, o, mask, e)
        return vm.call(vm.getattr(o, 'restrict'), [mask], {'inplace': True} if inplace else {})

    def post(vm, kind, val, h):
        if kind == 'raise' or not isinstance(val, Obj) or len(getattr(vm, 'counts', [])) != 1:
            return [('returns an operator', False)]
        m, data, g, o, mask, e = h['d']
        kept, x, n = vm.counts[0]
        mat = val.attrs['matrix']
        b = mat.attrs['data'].buf
        c0 = dict(data.buf.before[1])
        c1 = dict(b.content[1])
        goals = [('the kept columns are those of the mask', same(vm, x, mask.buf.before)), ('all the columns', same(vm, n, g['nbc'])),
                 ('class', mat.cls == cls), ('shape of the matrix', same(vm, tuple(mat.attrs['shape']), (g['shape'][0], vm.binop('Mult', kept, bs[1])))),
                 ('indices', same(vm, c1['index'], ('renumbered', True, c0['index'], mask.buf.before, g['nbc'], g['nmax'], g['nbr']))),
                 ('number of records', same(vm, mat.attrs['data'].size(vm), data.size(vm)))]
        goals += [('the values are kept', same(vm, c1[f], c0[f])) for f in c0 if f != 'index']
        if not inplace:
            goals += [unchanged(data), ('another operator', val is not o and mat is not m)]
        if cls == 'FSRMatrix':
            goals.append(('input shape of the components', same(vm, tuple(val.attrs['broadcastable_shapein']), (kept,))))
            if shaped:
                goals.append(('input shape', same(vm, tuple(val.attrs['shapein']), (kept,) + e)))
            goals.append(('output shape', same(vm, val.attrs['broadcastable_shapeout'], o.attrs['broadcastable_shapeout'])))
        else:
            goals.append(('input shape', same(vm, tuple(val.attrs['shapein']), (kept,) + ((bs[1],) if bs[1] > 1 else ()))))
        return goals

    def setup(vm):
        vm.counts = []
        return run(go)(vm)
    return setup, post


def tasks(mods):
    out = []

    def add(prop, what, func, fn, **more):
        def task(mods, unit, kinds=None, timeout=4000, deadline=None, sizes=None, **k):
            setup, post = fn(mods)
            return px.run_py(PATH, setup, post, externals=externals(mods), timeout=timeout, deadline=deadline, maxpaths=6000, partial=True)
        out.append((prop, what, None, PATH + ':' + func, task, {'nobounded': True}))
    for di in ('int32', 'int64'):
        for ds in (R4, R8):
            for cls in FORMATS:
                prop = 'C02' if 'Rotation' in cls else 'C01'
                add(prop, 'product by %s %s %s' % (cls, di, ds), cls + '._matvec', lambda mods, cls=cls, di=di, ds=ds: c_matvec(mods, cls, di, ds, FORMATS[cls][1], 2))
            for cls in ('FSRBlockMatrix', 'FSCBlockMatrix'):
                for bs in BLOCKS:
                    add('C02', 'product by %s %s %s %dx%d' % (cls, di, ds, *bs), cls + '._matvec', lambda mods, cls=cls, di=di, ds=ds, bs=bs: c_matvec(mods, cls, di, ds, bs, 2))
    every = [(c, FORMATS[c][1]) for c in FORMATS] + [(c, b) for c in ('FSRBlockMatrix', 'FSCBlockMatrix') for b in ((1, 2), (3, 2), (2, 2), (2, 1))]
    for cls, bs in every:
        prop = 'C01' if bs == (1, 1) else 'C02'
        n = cls + (' %dx%d' % bs if 'Block' in cls else '')
        for side in ('__mul__', '__rmul__'):
            add(prop, '%s: %s by a number' % (n, side), cls + '.' + side, lambda mods, cls=cls, bs=bs, side=side: c_scale(mods, cls, 'int32', R4, bs, side))
            add(prop, '%s: %s by a vector' % (n, side), cls + '.' + side, lambda mods, cls=cls, bs=bs, side=side: c_mul(mods, cls, 'int32', R8, bs, side))
        add(prop, n + ': copy', cls + '.copy', lambda mods, cls=cls, bs=bs: c_copy(mods, cls, 'int32', R8, bs))
        add(prop, n + ': direct', 'SparseOperator.direct', lambda mods, cls=cls, bs=bs: c_direct(mods, cls, 'int32', R8, bs))
        add('C03', n + ': transpose of the matrix', cls + '._transpose', lambda mods, cls=cls, bs=bs: c_transpose(mods, cls, 'int32', R8, bs))
        add('C03', n + ': transpose of the operator', 'SparseOperator._rule_transpose', lambda mods, cls=cls, bs=bs: c_ruleT(mods, cls, 'int64', R4, bs))
    for cls in ('FSRMatrix', 'FSCMatrix'):
        for f in ('reshapein', 'reshapeout', 'validatein', 'validateout'):
            add('C01', '%s: %s' % (cls, f), 'SparseOperator.' + f, lambda mods, cls=cls, f=f: c_shapes(mods, cls, f))
    for di in ('int32', 'int64'):
        for ds in (R4, R8):
            for dv in (R4, R8):
                for cls in ('FSRMatrix', 'FSRRotation2dMatrix', 'FSRRotation3dMatrix'):
                    for first in ('', 'extra') if cls == 'FSRMatrix' else ('',):
                        add('C04', '%s %s %s %s: rule of P.T P %s' % (cls, di, ds, dv, first), 'SparseOperator._rule_pTp',
                            lambda mods, cls=cls, di=di, ds=ds, dv=dv, first=first: c_pTp(mods, cls, di, ds, dv, first))
    for cls, bs in every:
        if cls.startswith('FSR'):
            for di in ('int8', 'int16', 'int32', 'int64'):
                for inplace in (False, True):
                    for shaped in (False, True) if cls == 'FSRMatrix' else (True,):
                        n = cls + (' %dx%d' % bs if 'Block' in cls else '')
                        add('C06', '%s %s: restriction%s%s' % (n, di, ' in place' if inplace else '', ', explicit shape' if shaped else ''), 'SparseOperator.restrict',
                            lambda mods, cls=cls, di=di, bs=bs, inplace=inplace, shaped=shaped: c_restrict(mods, cls, di, R8, bs, inplace, shaped))
    for cls in ('FSCMatrix', 'FSCBlockMatrix', 'FSRBlockMatrix'):
        add('C04', cls + ': no rule for P.T P', 'SparseOperator._rule_pTp', lambda mods, cls=cls: c_pTp(mods, cls, 'int32', R8, R8, ''))
    return out
