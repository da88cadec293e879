"""Arrays of any dimensions as whole objects, for the functions that prepare the
arguments of the compiled kernels: types are concrete, sizes are symbolic, and the
contents are terms built from the contents of the arguments by casts, fills, kernels
and elementwise operations.  Two contents are the same when their terms are (their
numbers are compared by the solver).

numpy, as assumed: ravel and reshape return a view of a contiguous array and a copy of
another one; astype copies; a view as bytes or as a recarray shares the memory; f2py
copies (and converts) the arguments that are only read and refuses the arguments that
are written when they are not contiguous or of another type."""
import z3
from . import pyexec as px, sym
from .pyexec import Ext, Unsupported, PyRaise, Obj, Builtin, Type, Namespace, term, isz

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
KINDS = {'bool': ('b', 1), 'int8': ('i', 1), 'int16': ('i', 2), 'int32': ('i', 4), 'int64': ('i', 8), 'uint8': ('u', 1), 'uint16': ('u', 2),
         'uint32': ('u', 4), 'uint64': ('u', 8), 'float16': ('f', 2), 'float32': ('f', 4), 'float64': ('f', 8), 'float128': ('f', 16),
         'complex64': ('c', 8), 'complex128': ('c', 16)}
TYPES = {n: Type(n, lambda v: False) for n in KINDS}
TYPES['int64'], TYPES['float64'], TYPES['bool'] = px.TYPES['int'], px.TYPES['float'], px.TYPES['bool']
NAMES = {id(t): n for n, t in TYPES.items()}
VOID = Type('void', lambda v: False)
RECARRAY = Type('recarray', lambda v: isinstance(v, ND) and v.rec)
NDARRAY = Type('ndarray', lambda v: isinstance(v, ND))
DTYPE = Type('dtype', lambda v: isinstance(v, (DT, ST)), lambda vm, x: dt(x))


class DT(Ext):
    def __init__(self, name):
        self.name = name
        self.kind, self.itemsize = KINDS[name]

    def vm_getattr(self, vm, name):
        if name in ('kind', 'itemsize', 'name'):
            return getattr(self, name)
        if name == 'type':
            return TYPES[self.name]
        if name in ('names', 'subdtype', 'fields'):
            return None
        if name == 'shape':
            return ()
        if name == 'str':
            return '<' + self.kind + str(self.itemsize)
        raise Unsupported('dtype.' + name)

    def vm_compare(self, vm, op, x):
        try:
            x = dt(x)
        except Unsupported:
            if op in ('Eq', 'NotEq') and x is None:
                x = dt('float64')
            else:
                raise
        if isinstance(x, ST):
            r = False
            if op not in ('Eq', 'NotEq'):
                raise Unsupported('order of types')
        else:
            r = {'Eq': self.name == x.name, 'NotEq': self.name == x.name, 'Lt': self.name != x.name and cancast(self, x), 'LtE': cancast(self, x),
                 'Gt': self.name != x.name and cancast(x, self), 'GtE': cancast(x, self)}[op]
        return not r if op == 'NotEq' else r

    def vm_str(self, vm):
        return self.name

    def vm_truth(self, vm):
        return True

    def __repr__(self):
        return self.name


def cancast(a, b):
    if a.name == b.name or a.kind == 'b':
        return True
    if a.kind in 'iu' and b.kind in 'iu':
        return a.kind == b.kind and a.itemsize <= b.itemsize or a.kind == 'u' and b.kind == 'i' and a.itemsize < b.itemsize
    if a.kind in 'iu' and b.kind in 'fc':
        need = {1: 2, 2: 4, 4: 8, 8: 8}[a.itemsize]
        return (b.itemsize // (2 if b.kind == 'c' else 1)) >= need
    if a.kind == 'f' and b.kind in 'fc':
        return a.itemsize <= b.itemsize // (2 if b.kind == 'c' else 1)
    if a.kind == 'c' and b.kind == 'c':
        return a.itemsize <= b.itemsize
    return False


def promote(a, b):
    c = [n for n in KINDS if cancast(a, DT(n)) and cancast(b, DT(n))]
    if not c:
        raise Unsupported('common type')
    return DT(min(c, key=lambda n: ('biufc'.index(KINDS[n][0]), KINDS[n][1])))


class ST(Ext):
    """structured type: [(name, DT, shape)]"""

    def __init__(self, fields, itemsize=None):
        self.fields = fields
        self.itemsize = itemsize

    def vm_getattr(self, vm, name):
        if name == 'names':
            return tuple(f[0] for f in self.fields)
        if name == 'itemsize':
            n = 0
            for _, d, s in self.fields:
                k = d.itemsize
                for x in s:
                    k *= x
                n += k
            return n
        if name == 'kind':
            return 'V'
        if name == 'type':
            return VOID
        raise Unsupported('dtype.' + name)

    def vm_getitem(self, vm, k):
        fs = [f for f in self.fields if f[0] == k] if isinstance(k, str) else self.fields[k:k + 1] if isinstance(k, int) else vm.unsup('dtype[]')
        if not fs:
            raise PyRaise('KeyError')
        return Sub(fs[0][1], fs[0][2]) if fs[0][2] else fs[0][1]

    def vm_compare(self, vm, op, x):
        if op not in ('Eq', 'NotEq'):
            raise Unsupported('order of types')
        x = dt(x)
        r = isinstance(x, ST) and [(a, b.name, tuple(c)) for a, b, c in self.fields] == [(a, b.name, tuple(c)) for a, b, c in x.fields]
        return r == (op == 'Eq')

    def vm_truth(self, vm):
        return True


class Sub(Ext):
    """a type with a shape"""

    def __init__(self, base, shape):
        self.base, self.shape = base, tuple(shape)

    def vm_getattr(self, vm, name):
        if name == 'type':
            return VOID
        if name == 'subdtype':
            return (self.base, self.shape)
        if name == 'base':
            return self.base
        if name == 'shape':
            return self.shape
        if name == 'kind':
            return 'V'
        raise Unsupported('dtype.' + name)


def dt(x):
    if isinstance(x, (DT, ST)):
        return x
    if isinstance(x, Type) and id(x) in NAMES:
        return DT(NAMES[id(x)])
    if isinstance(x, str) and x in KINDS:
        return DT(x)
    if isinstance(x, (list, tuple)) and x and all(isinstance(f, (tuple, list)) and len(f) in (2, 3) for f in x):
        fs = []
        for f in x:
            d = dt(f[1])
            s = f[2] if len(f) == 3 else ()
            s = (s,) if isinstance(s, int) else tuple(s)
            if not isinstance(d, DT) or not all(isinstance(k, int) for k in s):
                raise Unsupported('structured type')
            fs.append((f[0], d, s))
        return ST(fs)
    raise Unsupported('type %r' % (x,))


class Buf:
    """memory: its content, and that at the start for the checks of frames"""

    def __init__(self, content, d, size):
        self.content, self.dt, self.size, self.before = content, d, size, content
        self.readonly = False


def cast(c, a, b):
    if a.name == b.name or c[0] == 'full':
        return c
    return ('cast', b.name, c)


def prod(vm, shape):
    r = 1
    for x in shape:
        r = vm.binop('Mult', r, x)
    return r


def same(vm, a, b):
    """equality of two terms, a formula"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([same(vm, x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return z3.BoolVal(type(a) is type(b) and a == b)
    if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)):
        x, y = px.both(a, b)
        return z3.simplify(x == y, som=True)
    return z3.BoolVal(a is b)


def equal(vm, a, b):
    """decides whether two sizes are the same"""
    if not isz(a) and not isz(b):
        return a == b
    c = z3.simplify(term(a) - term(b), som=True)
    if z3.is_int_value(c):
        return c.as_long() == 0
    return vm.decide(c == 0)


class ND(Ext):
    def __init__(self, buf, shape, contig=True, view=None, d=None, rec=False):
        self.buf, self.shape, self.contig, self.view, self.dt_, self.rec = buf, tuple(shape), contig, view, d or buf.dt, rec
        self.readonly = False

    # view: None (all the elements of the memory, in order), ('field', name), ('bytes',)
    def size(self, vm):
        return prod(vm, self.shape)

    def content(self):
        if self.view is None:
            return self.buf.content
        if self.view[0] == 'field':
            return dict(self.buf.content[1])[self.view[1]]
        if self.view[0] == 'bool':
            return ('bool', self.buf.content)
        raise Unsupported('content of a view')

    def write(self, vm, c):
        if self.buf.readonly or self.readonly:
            vm.oblige('the argument is not modified', same(vm, c[1], self.buf.content) if self.view == ('bytes',) and c[0] == 'bytes' else same(vm, c, self.content()))
        if self.view is None:
            self.buf.content = c
        elif self.view[0] == 'field':
            self.buf.content = ('rec', tuple((n, c if n == self.view[1] else x) for n, x in self.buf.content[1]))
        elif self.view == ('bytes',) and c[0] == 'bytes':
            self.buf.content = c[1]
        else:
            raise Unsupported('write to a view')

    def like(self, buf=None, shape=None, **k):
        a = dict(contig=self.contig, view=self.view, d=self.dt_, rec=self.rec)
        a.update(k)
        return ND(buf or self.buf, self.shape if shape is None else shape, **a)

    def fresh(self, vm, shape=None, d=None):
        """a contiguous copy"""
        d = d or self.dt_
        c = self.content()
        if isinstance(d, DT) and isinstance(self.dt_, DT):
            c = cast(c, self.dt_, d)
        elif d is not self.dt_ and vm.truth(vm.compare1('NotEq', d, self.dt_)):
            raise Unsupported('cast of records')
        b = Buf(c, d, self.size(vm))
        return ND(b, self.shape if shape is None else shape, True, None, d, self.rec)

    def iscontig(self, vm):
        return vm.truth(self.contig) if isz(self.contig) else self.contig

    def reshape(self, vm, *shape, **k):
        if k and set(k) != {'order'} or k.get('order', 'C') != 'C':
            raise Unsupported('reshape')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n = self.size(vm)
        neg = [i for i, x in enumerate(shape) if not isz(x) and x == -1]
        if len(neg) > 1:
            raise PyRaise('ValueError')
        if neg:
            rest = prod(vm, [x for i, x in enumerate(shape) if i != neg[0]])
            if self.view == ('bytes',):
                q = n
                if len(shape) > 1:
                    raise Unsupported('reshape of bytes')
            else:
                if not isz(rest) and rest == 0:
                    raise PyRaise('ValueError')
                q = vm.binop('FloorDiv', n, rest)
                if not equal(vm, vm.binop('Mult', q, rest), n):
                    raise PyRaise('ValueError')
            shape = shape[:neg[0]] + (q,) + shape[neg[0] + 1:]
        elif not equal(vm, prod(vm, shape), n):
            raise PyRaise('ValueError')
        if self.iscontig(vm):
            return self.like(shape=shape, contig=True)
        if len(shape) == len(self.shape) and all(equal(vm, x, y) for x, y in zip(shape, self.shape)):
            return self
        if self.view == ('bytes',):
            return ND(Buf(self.buf.content, self.buf.dt, self.buf.size), shape, True, self.view, self.dt_)
        return self.fresh(vm, shape)

    def vm_getattr(self, vm, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return len(self.shape)
        if name == 'size':
            return self.size(vm)
        if name == 'dtype':
            return self.dt_
        if name == 'itemsize':
            return vm.getattr(self.dt_, 'itemsize')
        if name == 'T' and len(self.shape) <= 1:
            return self
        if name == 'flags':
            c = self.contig
            return Obj('flags', {'contiguous': c, 'c_contiguous': c, 'writeable': True})
        if name == 'strides' and self.iscontig(vm):
            s = [vm.getattr(self.dt_, 'itemsize')]
            for x in self.shape[:0:-1]:
                s.insert(0, vm.binop('Mult', s[0], x))
            return tuple(s)
        if name == 'ravel' or name == 'flatten' or name == 'copy':
            def ravel(vm, *a, **k):
                if any(x != 'C' for x in list(a) + list(k.values())):
                    raise Unsupported('order')
                shape = self.shape if name == 'copy' else (self.size(vm),)
                if self.view == ('bytes',):
                    shape = self.shape if name == 'copy' else (self.size(vm),)
                    if name == 'ravel' and self.iscontig(vm):
                        return self.like(shape=shape)
                    return ND(Buf(self.buf.content, self.buf.dt, self.buf.size), shape, True, self.view, self.dt_)
                if name == 'ravel' and self.iscontig(vm):
                    return self.like(shape=shape)
                return self.fresh(vm, shape)
            return Builtin(ravel)
        if name == 'reshape':
            return Builtin(lambda vm, *a, **k: self.reshape(vm, *a, **k))
        if name == 'astype':
            def astype(vm, d=None, copy=True, **k):
                d = dt(d)
                if not vm.truth(copy) and d.name == self.dt_.name:
                    return self
                return self.fresh(vm, d=d)
            return Builtin(astype)
        if name == 'view':
            return Builtin(self.vm_view)
        if name == 'fill':
            return Builtin(lambda vm, x: self.vm_setitem(vm, Ellipsis, x))
        if self.rec and isinstance(self.dt_, ST) and self.view is None:
            for n, d, s in self.dt_.fields:
                if n == name:
                    return self.field(vm, n)
        raise Unsupported('ndarray.%s' % name)

    def field(self, vm, n):
        d, s = [(f[1], f[2]) for f in self.dt_.fields if f[0] == n][0]
        return ND(self.buf, self.shape + tuple(s), False, ('field', n), d)

    def vm_view(self, vm, t=None, type=None):
        t = t if t is not None else type
        if t is None or t is NDARRAY:
            return self.like(rec=False)
        if t is RECARRAY:
            return self.like(rec=True)
        if isinstance(t, Obj):
            raise Unsupported('view')
        d = dt(t)
        if isinstance(d, DT) and isinstance(self.dt_, DT) and d.name == self.dt_.name:
            return self.like()
        if isinstance(d, DT) and isinstance(self.dt_, DT) and d.itemsize == self.dt_.itemsize == 1:
            return self.like(d=d)
        if self.view is None and isinstance(self.dt_, ST) and isinstance(d, DT) and d.itemsize in (1, 8):
            # the last axis has to be contiguous
            if not self.iscontig(vm):
                raise Unsupported('view of strided records')
            n = vm.getattr(self.dt_, 'itemsize')
            if n % d.itemsize:
                raise Unsupported('view of records')
            return self.like(shape=self.shape[:-1] + (vm.binop('Mult', self.shape[-1], n // d.itemsize),), view=('bytes',), d=d, rec=False)
        raise Unsupported('view')

    def vm_getitem(self, vm, k):
        if isinstance(k, str) and isinstance(self.dt_, ST) and self.view is None:
            if k not in [f[0] for f in self.dt_.fields]:
                raise PyRaise('ValueError')
            return self.field(vm, k)
        if k is Ellipsis or isinstance(k, px.Slice) and (k.start, k.stop, k.step) == (None, None, None):
            return self.like()
        raise Unsupported('subscript of an array')

    def vm_setitem(self, vm, k, w):
        if not (k is Ellipsis or isinstance(k, px.Slice) and (k.start, k.stop, k.step) == (None, None, None)):
            raise Unsupported('assignment to a part of an array')
        if not isinstance(w, ND):
            if isinstance(w, (bool, int, float)) or isz(w) or isinstance(w, px.fractions.Fraction):
                return self.write(vm, ('full', number(w)))
            raise Unsupported('assignment')
        if self.view == ('bytes',) or w.view == ('bytes',):
            raise Unsupported('assignment of bytes')
        if not isinstance(self.dt_, DT) or not isinstance(w.dt_, DT):
            raise Unsupported('assignment of records')
        if len(w.shape) != len(self.shape):
            raise Unsupported('broadcasting')
        for x, y in zip(self.shape, w.shape):
            if not equal(vm, x, y):
                if vm.truth(vm.compare1('Eq', y, 1)):
                    raise Unsupported('broadcasting')
                raise PyRaise('ValueError')
        self.write(vm, cast(w.content(), w.dt_, self.dt_))

    def operand(self, vm, x):
        if isinstance(x, ND):
            if len(x.shape) != len(self.shape):
                raise Unsupported('broadcasting')
            for a, b in zip(self.shape, x.shape):
                if not equal(vm, a, b):
                    raise Unsupported('broadcasting')
            return x.content()
        if isinstance(x, (bool, int, float, px.fractions.Fraction)) or isz(x):
            return ('full', number(x))
        raise Unsupported('operand')

    def result(self, op, x):
        if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            return DT('bool')
        if isinstance(x, ND):
            return promote(self.dt_, x.dt_)
        if self.dt_.kind in 'fc' or op in ('Add', 'Sub', 'Mult', 'Mod', 'FloorDiv') and self.dt_.kind == 'i' and isinstance(x, int):
            return self.dt_
        raise Unsupported('type of the result')

    def vm_binop(self, vm, op, x, reflected):
        c = self.operand(vm, x)
        d = self.result(op, x)
        a, b = (c, self.content()) if reflected else (self.content(), c)
        return ND(Buf(('op', op, d.name, a, b), d, self.size(vm)), self.shape, True)

    def vm_iop(self, vm, op, x):
        c = self.operand(vm, x)
        self.write(vm, ('op', op, self.dt_.name, self.content(), c))
        return self

    def vm_compare(self, vm, op, x):
        return self.vm_binop(vm, op, x, False)

    def vm_unary(self, vm, op):
        if op == 'UAdd':
            return self
        return ND(Buf(('op', op, self.dt_.name, self.content()), self.dt_, self.size(vm)), self.shape, True)

    def vm_len(self, vm):
        return self.shape[0] if self.shape else vm.unsup('len')


def number(x):
    if isinstance(x, bool):
        return int(x)
    if isz(x):
        return x
    return int(x) if x == int(x) else z3.RealVal(str(px.fractions.Fraction(x)))


# -------------------------------------------------------------------- numpy
def asshape(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def made(what):
    def f(vm, shape, dtype=None, *a, **k):
        if a or set(k) - {'verbose', 'order', 'description'} or k.get('order', 'C') != 'C':
            raise Unsupported('new array')
        d = dt(dtype) if dtype is not None else DT('float64')
        s = asshape(shape)
        c = ('empty', Fresh(vm)) if what is None else ('full', what)
        if isinstance(d, ST):
            if what is None:
                c = ('rec', tuple((n, c) for n, _, _ in d.fields))
            else:
                raise Unsupported('records')
        return ND(Buf(c, d, prod(vm, s)), s, True)
    return Builtin(f)


class Fresh:
    def __init__(self, vm):
        pass


def madelike(what):
    def f(vm, a, dtype=None, **k):
        if not isinstance(a, ND) or k:
            raise Unsupported('like')
        return made(what).fn(vm, a.shape, dtype if dtype is not None else a.dt_)
    return Builtin(f)


def asarray(vm, x, dtype=None, order=None, copy=None, **k):
    if not isinstance(x, ND):
        raise Unsupported('asarray(%r)' % (x,))
    if k or order not in (None, 'C', 'K', 'A') or copy not in (None, False, True):
        raise Unsupported('asarray')
    if dtype is not None and vm.truth(vm.compare1('NotEq', dt(dtype), x.dt_)):
        return x.fresh(vm, d=dt(dtype))
    if copy is True or order == 'C' and not x.iscontig(vm):
        return x.fresh(vm)
    return x


def repeat(vm, a, n, axis=None):
    if not isinstance(a, ND) or len(a.shape) != 1 or axis not in (None, 0, -1):
        raise Unsupported('repeat')
    return ND(Buf(('repeat', a.content(), n), a.dt_, None), (vm.binop('Mult', a.shape[0], n),), True)


def ufunc(op):
    def f(vm, a, b, out=None, **k):
        if k:
            raise Unsupported('ufunc')
        r = vm.binop(op, a, b)
        if out is None:
            return r
        if not isinstance(out, ND) or not isinstance(r, ND):
            raise Unsupported('ufunc')
        return a.vm_iop(vm, op, b) if a is out else (out.vm_setitem(vm, Ellipsis, r), out)[1]
    return Builtin(f)


def contiguous(vm, x, dtype=None, **k):
    return asarray(vm, x, dtype, 'C')


def product(vm, x, **k):
    if k or not isinstance(x, (tuple, list)):
        raise Unsupported('product')
    return prod(vm, x)


def restype(vm, *a):
    ds = [x.dt_ if isinstance(x, ND) else dt(x) for x in a]
    r = ds[0]
    for x in ds[1:]:
        r = promote(r, x)
    return r


ABSTRACT = {'floating': 'f', 'integer': 'iu', 'signedinteger': 'i', 'unsignedinteger': 'u', 'complexfloating': 'c', 'inexact': 'fc', 'number': 'iufc'}
ABST = {n: Type(n, lambda v: False) for n in ABSTRACT}


def issub(vm, a, b):
    for n, t in ABST.items():
        if b is t:
            return dt(a).kind in ABSTRACT[n]
    return dt(a).name == dt(b).name


def numpy(more=None):
    d = dict(px.NP)
    d.update({n: t for n, t in TYPES.items()})
    d.update({n + '_' if n == 'bool' else n: t for n, t in TYPES.items()})
    d.update(ABST)
    d.update({'ndarray': NDARRAY, 'recarray': RECARRAY, 'void': VOID, 'dtype': DTYPE, 'asarray': Builtin(asarray), 'asanyarray': Builtin(asarray),
              'ascontiguousarray': Builtin(contiguous), 'empty': made(None), 'zeros': made(0), 'ones': made(1), 'empty_like': madelike(None),
              'zeros_like': madelike(0), 'ones_like': madelike(1), 'repeat': Builtin(repeat), 'result_type': Builtin(restype),
              'promote_types': Builtin(restype), 'prod': Builtin(product), 'product': Builtin(product), 'ravel': Builtin(lambda vm, a, **k: vm.call(vm.getattr(a, 'ravel'), [], k)),
              'reshape': Builtin(lambda vm, a, s, **k: a.reshape(vm, s, **k)), 'copy': Builtin(lambda vm, a, **k: a.fresh(vm)),
              'array': Builtin(lambda vm, a, dtype=None, copy=True, **k: vm.unsup('array') if k or not isinstance(a, ND) else a.fresh(vm, d=None if dtype is None else dt(dtype))),
              'issubdtype': Builtin(issub), 'can_cast': Builtin(lambda vm, a, b: cancast(dt(a), dt(b))),
              'copyto': Builtin(lambda vm, a, b: vm.setitem(a, Ellipsis, b)),
              'full': Builtin(lambda vm, s, v, dtype=None, **k: _full(vm, s, v, dtype)), 'isscalar': Builtin(lambda vm, x: not isinstance(x, (ND, tuple, list)))})
    for n, o in (('multiply', 'Mult'), ('add', 'Add'), ('subtract', 'Sub'), ('divide', 'Div'), ('logical_and', 'BitAnd')):
        d[n] = ufunc(o)
    for n in ('all', 'any', 'sum', 'take', 'where', 'flatnonzero', 'nonzero', 'flip', 'arange', 'count_nonzero', 'atleast_1d'):
        d.pop(n, None)
    d.update(more or {})
    return Namespace('np', d)


def _full(vm, s, v, dtype):
    if dtype is None:
        raise Unsupported('full')
    a = made(0).fn(vm, s, dtype)
    vm.setitem(a, Ellipsis, v)
    a.buf.before = a.buf.content
    return a


def builtins():
    """names of the module under contract that stand for numpy or pyoperators functions"""
    return {'np': numpy(), 'empty': made(None), 'zeros': made(0), 'ones': made(1), 'product': Builtin(product), 'max': Builtin(extreme('Gt')),
            'min': Builtin(extreme('Lt'))}


def extreme(op):
    def f(vm, *a):
        xs = list(a[0]) if len(a) == 1 else list(a)
        r = xs[0]
        for x in xs[1:]:
            # the first of the extreme values, like Python's
            r = x if vm.truth(vm.compare1(op, x, r)) else r
        return r
    return f


def array(vm, name, shape, d, contig=True, readonly=False, rec=False):
    """an argument"""
    d = dt(d)
    c = ('arg', name) if isinstance(d, DT) else ('rec', tuple((n, ('arg', name, n)) for n, _, _ in d.fields))
    b = Buf(c, d, prod(vm, shape))
    b.readonly = readonly
    return ND(b, shape, contig, None, d, rec)
