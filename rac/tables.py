"""Run-time checks of the packed tables (C19, C20) and of the distribution of work (C21)."""
import threading
import numpy as np
from vf.rac import case, RANDOM, layout, outlayout


def PT():
    import pysimulators.packedtables as m
    return m


# ----------------------------------------------------------------- selections

def rnd_selection(rng, n, kind=None):
    """a JSON description of a selection of a sequence of n elements, valid for an array of that length"""
    kind = kind or str(rng.choice(['int', 'list', 'array', 'bool', 'boollist', 'slice', 'slice', 'slice', 'slicewide', 'run', 'all', 'npint']))
    if kind in ('int', 'npint'):
        if n == 0:
            kind = 'slice'
        else:
            return [kind, int(rng.integers(-n, n))]
    if kind in ('list', 'array'):
        k = int(rng.integers(0, n + 3)) if n else 0
        return [kind, [int(rng.integers(-n, n)) for _ in range(k)]]
    if kind == 'run':
        # evenly spaced integers
        if n == 0:
            return ['list', []]
        a, s = int(rng.integers(-n, n)), int(rng.integers(-3, 4))
        o = [a]
        while len(o) < 6 and -n <= o[-1] + s < n:
            o.append(o[-1] + s)
        return ['list', o]
    if kind in ('bool', 'boollist'):
        p = rng.choice([0, .5, .5, .9, 1])
        return [kind, [bool(x) for x in rng.random(n) < p]]
    if kind == 'all':
        return [str(rng.choice(['ellipsis', 'none', 'empty'])), 0]
    w = n + 3 if kind == 'slice' else 3 * n + 12
    o = [None if rng.random() < .3 else int(rng.integers(-w, w + 1)) for _ in range(2)]
    st = [None, 1, -1, 2, -2, 3, -3, int(rng.integers(1, 12)), -int(rng.integers(1, 12))][rng.integers(9)]
    return ['slice', o + [st]]


def decode(s):
    k, v = s
    if k == 'npint':
        return np.int64(v)
    if k == 'array':
        return np.array(v, dtype=int)
    if k == 'bool':
        return np.array(v, dtype=bool)
    if k == 'slice':
        return slice(*v)
    if k == 'ellipsis':
        return Ellipsis
    if k == 'none':
        return None
    if k == 'empty':
        return ()
    return v


def apply(a, s):
    """what the selection keeps in an array"""
    k, v = s
    if k in ('int', 'npint'):
        return a[[v]]
    if k in ('list', 'array'):
        return a[np.array(v, dtype=int)]
    if k in ('bool', 'boollist'):
        return a[np.array(v, dtype=bool)]
    if k == 'slice':
        return a[slice(*v)]
    return a


def constructor(rng, shape, nd, kind):
    """keywords of the table and the indices (flat) it must hold"""
    n = int(np.prod(shape[:nd]))
    flat = np.arange(n)
    kw, want = {}, flat
    sel = None
    if kind == 'bool':
        m = rng.random(shape[:nd]) < rng.choice([0, .3, .7, 1])
        kw['selection'] = m
        sel = m
    elif kind == 'boollist':
        m = rng.random(shape[:nd]) < .6
        kw['selection'] = m.tolist()
        sel = m
        if m.size == 0:
            kw, sel = {}, None
    elif kind == 'ints' and n:
        v = rng.integers(-n, n, size=int(rng.integers(0, n + 2)))
        kw['selection'] = v if rng.random() < .5 else v.tolist()
        if rng.random() < .7:
            return kw, flat[v]
        sel = np.zeros(n, bool)
        sel[v] = True
        kind = 'ordering'
    elif kind == 'slice':
        s = rnd_selection(rng, n, 'slice')
        kw['selection'] = slice(*s[1])
        if rng.random() < .8:
            return kw, flat[kw['selection']]
        sel = np.zeros(n, bool)
        sel[kw['selection']] = True
        kind = 'ordering'
    elif kind == 'slices':
        t = []
        for d in shape[:int(rng.integers(1, nd + 1))]:
            s = slice(*rnd_selection(rng, d, 'slice')[1])
            t.append(s)
        if rng.random() < .2:
            t[int(rng.integers(len(t)))] = Ellipsis
        elif rng.random() < .2:
            i = int(rng.integers(len(t)))
            d = shape[i]
            if d:
                t[i] = int(rng.integers(-d, d))
                if not any(isinstance(x, slice) for x in t):
                    t[i] = slice(None)
        kw['selection'] = tuple(t)
        sel = np.zeros(shape[:nd], bool)
        sel[tuple(t)] = True
        if len(t) == 1 and nd == 1 and isinstance(t[0], slice) and t[0] is not Ellipsis:
            return kw, flat[t[0]]
    if sel is not None:
        want = flat[sel.ravel()]
    if kind == 'ordering' or rng.random() < .15 and kind in ('bool', 'slices', 'none'):
        o = rng.permutation(n).reshape(shape[:nd]) * int(rng.integers(1, 3))
        o[rng.random(shape[:nd]) < rng.choice([0, .3, 1])] = -int(rng.integers(1, 5))
        kw['ordering'] = o
        keep = [i for i in want if o.ravel()[i] >= 0]
        want = np.array(sorted(keep, key=lambda i: o.ravel()[i]), dtype=int)
    return kw, want


KINDS = ('none', 'bool', 'boollist', 'ints', 'slice', 'slices', 'ordering')


def gen_table(ctx):
    def one(**k):
        p = dict(shape=[4], nd=1, kind='none', seed=ctx.newseed(), sels=[])
        p.update(k)
        return p
    # every slice of a small table, built in one or two steps
    for n in (0, 1, 2, 3, 5):
        w = [None] + list(range(-n - 2, n + 3))
        for a in w:
            for b in w:
                for st in (None, 1, 2, 3, -1, -2, -3):
                    yield one(shape=[n], sels=[['slice', [a, b, st]]])
    for k in KINDS:
        for shape, nd in (([1], 1), ([6], 1), ([2, 3], 2), ([2, 3], 1), ([3, 1], 2), ([0], 1), ([0, 2], 2), ([2, 2, 2], 3), ([2, 3, 2], 2)):
            for _ in range(6):
                yield one(shape=shape, nd=nd, kind=k)
    for s in ctx.sizes(12):
        if s <= 5000:
            yield one(shape=[s], kind=str(ctx.rng.choice(KINDS)))
            yield one(shape=[s, 2], nd=2, kind=str(ctx.rng.choice(KINDS)))
    yield RANDOM
    r = ctx.rng
    while True:
        nd = int(r.integers(1, 4))
        sh = [ctx.size(7 if nd > 1 else 12, cap=300 if nd == 1 else 12) for _ in range(nd)]
        yield one(shape=sh, nd=int(r.integers(1, nd + 1)), kind=str(r.choice(KINDS)))


def attributes(rng, shape, nd):
    full = tuple(shape[:nd])
    return {'a': rng.integers(0, 1000, size=full), 'b': rng.standard_normal(full + (2,)), 's': np.array(7.),
            'c': np.array(['x%d' % i for i in range(int(np.prod(full)))]).reshape(full) if np.prod(full) else np.zeros(full, 'S2')}


def same(got, want):
    got = np.asarray(got)
    return got.shape == want.shape and np.array_equal(got, want)


def check_table(t, idx, shape, nd, attrs, what):
    """the table holds exactly the elements idx (flat indices), in order"""
    n = int(np.prod(shape[:nd]))
    if len(t) != len(idx):
        return '%s: the length is %d instead of %d' % (what, len(t), len(idx))
    ix = np.asarray(t.index)
    if not same(ix, np.asarray(idx)):
        return '%s: index %s instead of %s' % (what, ix.tolist()[:20], list(idx)[:20])
    if len(ix) and (ix.min() < 0 or ix.max() >= n):
        return '%s: an index is out of the layout' % what
    if t.shape != tuple(shape) or t.ndim != nd:
        return '%s: the shape of the layout changed' % what
    for k, v in attrs.items():
        g = getattr(t, k)
        w = v if v.ndim == 0 else v.reshape((n,) + v.shape[nd:])[np.asarray(idx, dtype=int)]
        if not same(g, w):
            return '%s: attribute %s is %s instead of %s' % (what, k, np.asarray(g).tolist()[:10] if np.ndim(g) else g, w.tolist()[:10] if w.ndim else w)
    d = t.dyn
    if not same(d, np.asarray(idx) * 10):
        return '%s: a computed attribute does not follow the selection' % what


def make(p):
    rng = np.random.default_rng(p['seed'])
    shape, nd = tuple(p['shape']), p['nd']
    kw, idx = constructor(rng, shape, nd, p['kind'])
    at = attributes(rng, shape, nd)
    kws = {k: v.copy() for k, v in at.items()}
    if rng.random() < .3:
        kws['a'] = layout(kws['a'], int(rng.integers(6)))
    t = PT().PackedTable(shape, ndim=nd, dyn=lambda s: s.index * 10, **kw, **kws)
    return rng, shape, nd, kw, np.asarray(idx, dtype=int), at, t


@case('C19', 'table-selection', gen_table)
def table_selection(p):
    """selections, several in a row, keep the elements the same selections keep in an array"""
    rng, shape, nd, kw, idx, at, t = make(p)
    what = 'table of selection %r' % (kw,)
    r = check_table(t, idx, shape, nd, at, what)
    if r:
        return r
    chain = [(t, idx, what)]
    for k in range(4):
        if k < len(p['sels']):
            s = p['sels'][k]
        else:
            s = rnd_selection(rng, len(idx))
        what += ' then %s' % (s,)
        t2 = t[decode(s)]
        idx2 = apply(idx, s)
        r = check_table(t2, idx2, shape, nd, at, what)
        if r:
            return r
        t, idx = t2, idx2
        chain.append((t, idx, what))
    # selecting does not modify what was selected from
    for t, idx, what in chain:
        r = check_table(t, idx, shape, nd, at, what + ' (afterwards)')
        if r:
            return r
    # removed elements
    rem = np.ones(int(np.prod(shape[:nd])), bool)
    rem[idx] = False
    if not same(t.all.removed, rem.reshape(shape[:nd])):
        return what + ': all.removed does not tell which elements are not selected'


def gen_oob(ctx):
    for n in (0, 1, 2, 5):
        for k in ('none', 'bool', 'ordering', 'slice'):
            for d in (0, 1, 7, 100):
                for form in ('int', 'neg', 'list', 'neglist', 'maskshort', 'masklong'):
                    yield dict(n=n, kind=k, d=d, form=form, seed=ctx.newseed())


@case('C19', 'table-out-of-range', gen_oob)
def table_oob(p):
    """integers out of the table and masks of another length are refused, as arrays refuse them"""
    rng = np.random.default_rng(p['seed'])
    shape = (p['n'],)
    kw, idx = constructor(rng, shape, 1, p['kind'])
    t = PT().PackedTable(shape, **kw)
    n = len(idx)
    if len(t) != n:
        return 'length'
    f = p['form']
    s = n + p['d'] if f == 'int' else -n - 1 - p['d'] if f == 'neg' else [0] * (n > 0) + [n + p['d']] if f == 'list' else [-n - 1 - p['d']] + [0] * (n > 0) \
        if f == 'neglist' else np.ones(n - 1, bool) if f == 'maskshort' and n else np.ones(n + 1 + p['d'], bool)
    try:
        t2 = t[s]
    except (IndexError, ValueError, TypeError):
        return None
    ix = t2.index
    return 'selecting %r in a table of %d elements gives index %s, instead of an error' % (s, n, ix.tolist())


@case('C19', 'table-split', gen_table)
def table_split(p):
    """the groups of split, in order, are the table; copy is an independent table"""
    rng, shape, nd, kw, idx, at, t = make(p)
    m = int(rng.integers(1, 6))
    parts = t.split(m)
    if len(parts) != m:
        return 'split gives %d groups' % len(parts)
    pos = 0
    for i, q in enumerate(parts):
        w = idx[pos:pos + len(q)]
        pos += len(q)
        r = check_table(q, w, shape, nd, at, 'group %d of %d' % (i, m))
        if r:
            return r
    if pos != len(idx):
        return 'split: %d elements instead of %d' % (pos, len(idx))
    sz = [len(q) for q in parts]
    if max(sz) - min(sz) > 1:
        return 'split: uneven groups %s' % sz


@case('C19', 'table-copy', gen_table)
def table_copy(p):
    """a copy has the same contents, and setting it leaves the original alone"""
    rng, shape, nd, kw, idx, at, t = make(p)
    c = t.copy()
    r = check_table(c, idx, shape, nd, at, 'copy')
    if r:
        return r
    if len(idx):
        c.a[...] = -1
        c.b = np.zeros((len(idx), 2))
    c.s = 3
    return check_table(t, idx, shape, nd, at, 'the original after changes in its copy')


@case('C19', 'table-setattr', gen_table)
def table_setattr(p):
    """setting an attribute, packed or through all, is seen in the selected elements only"""
    rng, shape, nd, kw, idx, at, t = make(p)
    n = int(np.prod(shape[:nd]))
    at = dict(at)
    v = rng.integers(0, 99, size=shape[:nd] + (3,))
    t.all.a = v
    at['a'] = v
    r = check_table(t, idx, shape, nd, at, 'after all.a = ...')
    if r:
        return r
    w = rng.integers(0, 99, size=(len(idx), 2))
    t.b = w
    if not same(t.b, w):
        return 'after b = ...'
    g = t.all.a
    wantv = np.full((n, 3), -1)
    wantv[idx] = v.reshape(n, 3)[idx]
    if not same(g, wantv.reshape(shape[:nd] + (3,))):
        return 'all.a: %s instead of %s' % (g.tolist(), wantv.tolist())
    for bad in (np.zeros(len(idx) + 1), np.zeros((len(idx) + 2, 2))):
        try:
            t.a = bad
        except ValueError:
            continue
        return 'an attribute of length %d is accepted in a table of %d elements' % (len(bad), len(idx))


# ----------------------------------------------------------------- pack, unpack

DT = ('f8', 'f4', 'i8', 'i4', 'i2', 'u1', 'bool', 'c16', 'S3', 'U3', 'struct')


def rnd_array(rng, shape, dt):
    if dt == 'struct':
        a = np.zeros(shape, [('x', float), ('n', int)])
        a['x'] = rng.standard_normal(shape)
        a['n'] = rng.integers(0, 9, size=shape)
        return a
    if dt in ('S3', 'U3'):
        return rng.integers(0, 999, size=shape).astype(dt)
    if dt == 'bool':
        return rng.random(shape) < .5
    if dt == 'c16':
        return rng.standard_normal(shape) + 1j
    if dt == 'u1':
        return rng.integers(0, 255, size=shape).astype(dt)
    return (rng.standard_normal(shape) * 100).astype(dt)


def missing(dt):
    d = np.dtype([('x', float), ('n', int)] if dt == 'struct' else dt)
    if dt == 'struct':
        return np.array((np.nan, -1), d)
    return {'f': np.nan, 'c': np.nan, 'i': -1, 'u': 0, 'b': False, 'S': b'', 'U': ''}[d.kind]


def gen_pack(ctx):
    k = 0
    for p in gen_table(ctx):
        if p is RANDOM:
            yield p
            continue
        if p['sels']:
            continue
        k += 1
        p = dict(p, dt=DT[k % len(DT)], extra=[[], [2], [3, 1], [0]][int(ctx.rng.integers(4))], lay=int(ctx.rng.integers(6)),
                 out=int(ctx.rng.integers(-2, 5)), copy=bool(ctx.rng.integers(2)), q=bool(ctx.rng.integers(2)), steps=int(ctx.rng.integers(3)))
        del p['sels']
        yield p


def eqn(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.names:
        return all(eqn(a[f], b[f]) for f in a.dtype.names)
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def bytes_of(a):
    return np.array(a.view(np.ndarray)).tobytes()


@case('C20', 'pack-unpack', gen_pack)
def pack_unpack(p):
    """pack keeps the selected elements in order; unpack puts them back and the missing value elsewhere; neither changes its argument"""
    rng = np.random.default_rng(p['seed'])
    shape, nd = tuple(p['shape']), p['nd']
    kw, idx = constructor(rng, shape, nd, p['kind'])
    idx = np.asarray(idx, dtype=int)
    t = PT().PackedTable(shape, ndim=nd, **kw)
    for _ in range(p['steps']):
        s = rnd_selection(rng, len(idx))
        t, idx = t[decode(s)], apply(idx, s)
    if len(t) != len(idx) or not same(t.index, idx):
        return None        # C19
    n = int(np.prod(shape[:nd]))
    dt, extra = p['dt'], tuple(p['extra'])
    x = rnd_array(rng, shape[:nd] + extra, dt)
    x = layout(x, p['lay']) if x.size else x
    qty = p['q'] and dt in ('f8', 'f4', 'c16')
    if qty:
        from pysimulators.quantities import Quantity
        x = Quantity(x, 'm', dtype=x.dtype) if x.dtype.kind == 'f' else x
        qty = type(x) is Quantity
    b0 = bytes_of(x)
    base = np.array(x.view(np.ndarray)).reshape((n,) + extra)
    want = base[idx]
    if p['out'] >= 0:
        out = outlayout((len(idx),) + extra, np.dtype([('x', float), ('n', int)]) if dt == 'struct' else x.dtype, np.zeros((), x.dtype)[()], p['out']) if want.size else np.empty(want.shape, x.dtype)
        got = t.pack(x, out=out)
        if got is not out:
            return 'pack does not return the output it is given'
    else:
        got = t.pack(x, copy=p['copy'])
    if not eqn(np.asarray(got), want):
        return 'pack: %s instead of %s' % (np.asarray(got).tolist(), want.tolist())
    if got.dtype != x.dtype and p['out'] < 0:
        return 'pack: the type becomes %s' % got.dtype
    if qty and p['out'] < 0 and (type(got) is not type(x) or got.unit != 'm'):
        return 'pack of a quantity in m gives a %s (%s)' % (type(got).__name__, getattr(got, 'unit', None))
    if bytes_of(x) != b0:
        return 'pack modified its argument'
    if p['copy'] and p['out'] < 0 and np.shares_memory(np.asarray(got), np.asarray(x)):
        return 'pack(copy=True) returns a view'
    # unpack
    y = rnd_array(rng, (len(idx),) + extra, dt)
    if len(set(idx.tolist())) < len(idx):
        y = y.copy()
        for i, v in enumerate(idx):
            y[i] = y[idx.tolist().index(v)]      # repeated elements hold one value
    y = layout(y, int(rng.integers(6))) if y.size else y
    if qty:
        from pysimulators.quantities import Quantity
        y = Quantity(y, 'm', dtype=y.dtype)
    b0 = bytes_of(y)
    mv = None
    if rng.random() < .4 and dt not in ('struct',):
        k = np.dtype(dt).kind
        mv = {'b': [True, False], 'S': [b'zz', b''], 'U': ['zz', ''], 'u': [5, 0, 255], 'i': [5, 0, -3]}.get(k, [5, 0, 0., -0.5, float('inf'), np.float32(2)])
        mv = mv[rng.integers(len(mv))]
    want = np.empty((n,) + extra, y.dtype)
    want[...] = missing(dt) if mv is None else mv
    want[idx] = np.asarray(y)
    want = want.reshape(shape[:nd] + extra)
    if p['out'] >= 0 and want.size:
        odt = np.dtype('f8') if y.dtype.kind in 'iuf' and y.dtype.itemsize < 8 and rng.random() < .4 else y.dtype
        out = outlayout(want.shape, odt, np.zeros((), odt)[()], p['out'])
        got = t.unpack(y, out=out, missing_value=mv)
        if got is not out:
            return 'unpack does not return the output it is given'
    else:
        got = t.unpack(y, missing_value=mv, copy=p['copy'])
    if not eqn(np.asarray(got), want):
        return 'unpack of index %s: %s instead of %s' % (idx.tolist(), np.asarray(got).tolist(), want.tolist())
    if qty and not (p['out'] >= 0 and want.size) and (type(got) is not type(y) or got.unit != 'm'):
        return 'unpack of a quantity in m gives a %s (%s)' % (type(got).__name__, getattr(got, 'unit', None))
    if bytes_of(y) != b0:
        return 'unpack modified its argument'
    if p['copy'] and p['out'] < 0 and np.shares_memory(np.asarray(got), np.asarray(y)):
        return 'unpack(copy=True) returns a view'
    # inverses
    if not eqn(np.asarray(t.pack(got)), np.asarray(y)):
        return 'packing what was unpacked does not return it'
    z = t.unpack(t.pack(x), missing_value=mv)
    want = np.empty((n,) + extra, x.dtype)
    want[...] = missing(dt) if mv is None else mv
    want[idx] = base[idx]
    if not eqn(np.asarray(z), want.reshape(shape[:nd] + extra)):
        return 'unpacking what was packed does not return the selected elements and the missing value elsewhere'
    if bytes_of(y) != b0:
        return 'the argument of unpack was modified'


@case('C20', 'unpack-broadcast', gen_pack)
def unpack_broadcast(p):
    """unpacking a scalar or a one-element array fills the selected elements"""
    rng = np.random.default_rng(p['seed'])
    shape, nd = tuple(p['shape']), p['nd']
    kw, idx = constructor(rng, shape, nd, p['kind'])
    t = PT().PackedTable(shape, ndim=nd, **kw)
    n = int(np.prod(shape[:nd]))
    for v in (3., np.array([3.]), np.array(3.)):
        if len(idx) == 0 and False:
            continue
        got = t.unpack(v)
        want = np.full(n, np.nan)
        want[idx] = 3
        if not eqn(got, want.reshape(shape[:nd])):
            return 'unpack(%r): %s instead of %s' % (v, got.tolist(), want.tolist())
    if t.pack(None) is not None or t.unpack(None) is not None:
        return 'None'
    for bad in ((len(idx) + 2,), (len(idx) + 3, 2)):
        try:
            t.unpack(np.zeros(bad))
        except ValueError:
            continue
        return 'unpack accepts %s elements instead of %d' % (bad, len(idx))


# ----------------------------------------------------------------- distribution

class FakeWorld:
    """n processes played by threads: the collective calls of MPI that the code uses"""

    def __init__(self, n):
        self.n = n
        self.barrier = threading.Barrier(n, timeout=30)
        self.slots = [None] * n

    def exchange(self, rank, x):
        self.slots[rank] = x
        self.barrier.wait()
        r = list(self.slots)
        self.barrier.wait()
        return r

    def run(self, f):
        res, err = [None] * self.n, [None] * self.n

        def go(r):
            try:
                res[r] = f(FakeComm(self, r))
            except BaseException as e:
                err[r] = e
                self.barrier.abort()
        ts = [threading.Thread(target=go, args=(r,)) for r in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for e in err:
            if e is not None and not isinstance(e, threading.BrokenBarrierError):
                raise e
        for e in err:
            if e is not None:
                raise e
        return res


class FakeComm:
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def allgather(self, x):
        import copy
        return self.world.exchange(self.rank, copy.copy(x))

    def allreduce(self, x, op=None):
        return sum(self.allgather(x))

    def bcast(self, x=None, root=0):
        return self.allgather(x)[root]

    def Barrier(self):
        self.world.barrier.wait()

    def Allreduce(self, i, o, op=None):
        a = o[0] if isinstance(o, (list, tuple)) else o
        v = a if isinstance(i, int) else i[0] if isinstance(i, (list, tuple)) else i
        r = self.allgather(np.array(v))
        a[...] = sum(r[1:], r[0])

    def Allgatherv(self, i, o):
        i = i[0] if isinstance(i, (list, tuple)) else i
        buf, (counts, offsets) = o[0], o[1]
        parts = self.allgather(np.array(i).ravel().view(np.uint8))
        flat = np.zeros(buf.size * buf.itemsize, np.uint8)
        for q, c, f in zip(parts, counts, offsets):
            if q.size != c:
                raise ValueError('Allgatherv: %d bytes sent, %d announced' % (q.size, c))
            flat[f:f + c] = q
        buf[...] = flat.view(buf.dtype).reshape(buf.shape)

    def Dup(self):
        return self


def gen_world(ctx):
    for n in (1, 2, 3, 4, 7):
        for m in list(range(0, 12)):
            yield dict(n=n, m=m, seed=ctx.newseed())
    for s in ctx.sizes(12):
        yield dict(n=int(ctx.rng.integers(1, 9)), m=s, seed=ctx.newseed())
    yield RANDOM
    while True:
        yield dict(n=ctx.size(8, lo=1, cap=24), m=ctx.size(40, cap=2000), seed=ctx.newseed())


def header(rng, m, ndim):
    import astropy.io.fits as pf
    h = pf.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = ndim
    dims = [int(rng.integers(1, 9)) for _ in range(ndim - 1)] + [m]
    for i, d in enumerate(dims):
        h['NAXIS%d' % (i + 1)] = d
    if rng.random() < .8:
        for i in range(ndim):
            h['CTYPE%d' % (i + 1)] = ['RA---TAN', 'DEC--TAN', 'FREQ'][i]
            h['CRPIX%d' % (i + 1)] = float(rng.integers(-8, 20)) / 2
            h['CRVAL%d' % (i + 1)] = float(rng.integers(0, 50))
            h['CDELT%d' % (i + 1)] = .5
    h['OTHER'] = 'kept'
    return h


@case('C21', 'scatter-gather-header', gen_world)
def scatter_gather(p):
    """the local headers tile the global map with their reference pixels shifted; gathering restores it"""
    import pysimulators.mpiutils as mu
    rng = np.random.default_rng(p['seed'])
    ndim = int(rng.integers(1, 4))
    h = header(rng, p['m'], ndim)
    h0 = h.copy()
    w = FakeWorld(p['n'])
    loc = w.run(lambda c: mu.scatter_fitsheader(h, comm=c))
    if h.tostring() != h0.tostring():
        return 'scatter_fitsheader modified its argument'
    a = 'NAXIS%d' % ndim
    start = 0
    sizes = []
    for r, l in enumerate(loc):
        n = l[a]
        sizes.append(n)
        e = h.copy()
        e[a] = n
        if n < 0:
            return 'rank %d has a negative number of rows' % r
        if 'CRPIX%d' % ndim in h:
            e['CRPIX%d' % ndim] = h['CRPIX%d' % ndim] - start
        if dict(e) != dict(l):
            return 'rank %d of %d: header %s instead of %s' % (r, p['n'], dict(l), dict(e))
        start += n
    if start != p['m']:
        return 'the processes have %d rows of %d (%s)' % (start, p['m'], sizes)
    for f in ('gather_fitsheader', 'gather_fitsheader_if_needed'):
        if f.endswith('needed') and 'CRPIX1' not in h:
            continue
        back = w.run(lambda c: getattr(mu, f)(loc[c.rank], comm=c))
        if f.endswith('needed') and len(set(l['CRPIX%d' % ndim] for l in loc)) == 1 and p['n'] > 1:
            # all the processes hold the same part: nothing tells it from a global header
            if p['m'] == 0:
                continue
        for r, b in enumerate(back):
            if dict(b) != dict(h):
                return '%s on rank %d: %s instead of %s' % (f, r, dict(b), dict(h))


@case('C21', 'distribute-observation', gen_world)
def distribute(p):
    """every pair of a valid detector and an observation goes to exactly one process"""
    import pysimulators.mpiutils as mu
    rng = np.random.default_rng(p['seed'])
    nd = int(rng.integers(1, 3))
    shape = tuple(int(rng.integers(0, 7)) for _ in range(nd)) if rng.random() < .9 else (int(rng.integers(1, 150)),)
    removed = rng.random(shape) < rng.choice([0, .3, .9, 1])
    removed = layout(removed, int(rng.integers(6))) if removed.size else removed
    obs = list(range(int(rng.integers(0, 9)) if rng.random() < .9 else p['m'] % 60))
    r0 = np.array(removed)
    nth = int(rng.integers(1, 9))
    old = mu.omp_num_threads
    mu.omp_num_threads = lambda: nth
    try:
        w = FakeWorld(p['n'])
        count = np.zeros((r0.size, len(obs)), int)
        form = int(rng.integers(2))
        for c in [FakeComm(w, r) for r in range(p['n'])]:
            if form:
                d, o = mu.distribute_observation(removed, obs, comm=c)
            else:
                k = FakeComm(w, 0)
                d, o = mu.distribute_observation(removed, obs, rank=c.rank, comm=k)
            if d.shape != r0.shape or d.dtype != bool:
                return 'the mask has shape %s' % (d.shape,)
            if np.any(~d & r0):
                return 'rank %d gets a detector that is not valid' % c.rank
            for i in np.where(~np.asarray(d).ravel())[0]:
                for j in o:
                    count[i, j] += 1
    finally:
        mu.omp_num_threads = old
    if not np.array_equal(np.array(removed), r0):
        return 'the mask passed as argument was modified'
    want = np.repeat(~r0.ravel()[:, None], len(obs), 1).astype(int)
    if not np.array_equal(count, want):
        b = np.argwhere(count != want)[0]
        return '%d processes, %d threads: detector %d, observation %d are on %d processes' % (p['n'], nth, b[0], b[1], count[tuple(b)])


@case('C21', 'table-scatter', gen_world)
def table_scatter(p):
    """scattering a table gives every element to exactly one process; gathering restores it, and arrays"""
    rng = np.random.default_rng(p['seed'])
    shape = (p['m'],) if rng.random() < .6 else (p['m'], 2)
    nd = len(shape)
    kw, idx = constructor(rng, shape, nd, str(rng.choice(KINDS)))
    at = attributes(rng, shape, nd)
    t = PT().PackedTable(shape, ndim=nd, dyn=lambda s: s.index * 10, **kw, **at)
    if not same(t.index, np.asarray(idx)):
        return None    # C19
    n = p['n']
    w = FakeWorld(n)
    tail = ((2,), (), (3, 2), (2, 1, 3))[rng.integers(4)]
    glob = rng.standard_normal((len(idx),) + tail).astype(rng.choice(['f8', 'f4', 'c16']))

    def go(c):
        l = t.scatter(c)
        return l
    loc = w.run(go)
    pos = 0
    for r, l in enumerate(loc):
        q = check_table(l, idx[pos:pos + len(l)], shape, nd, at, 'rank %d of %d' % (r, n))
        if q:
            return q
        pos += len(l)
    if pos != len(idx):
        return 'the processes have %d elements of %d' % (pos, len(idx))
    off = np.cumsum([0] + [len(l) for l in loc])
    if n == 1:
        return None
    full = np.prod(shape)

    def back(c):
        l = loc[c.rank]
        g = l.gather(glob[off[c.rank]:off[c.rank + 1]])
        u = l.unpack(glob[off[c.rank]:off[c.rank + 1]])
        return g, l.gather(), u
    want = np.full((int(full),) + tail, np.nan, glob.dtype)
    want[idx] = glob
    rep = len(set(np.asarray(idx).tolist())) < len(idx)
    for r, (g, tg, u) in enumerate(w.run(back)):
        if not same(g, glob):
            return 'gather on rank %d: %s instead of %s' % (r, g.tolist(), glob.tolist())
        q = check_table(tg, idx, shape, nd, at, 'gathered on rank %d' % r)
        if q:
            return q
        if not rep and not eqn(u, want.reshape(shape + tail)):
            return 'unpack of the distributed table on rank %d: %s instead of %s' % (r, u.tolist(), want.tolist())


@case('C21', 'instrument-scatter', gen_world)
def instrument_scatter(p):
    """scattering or splitting an instrument gives every detector to exactly one process"""
    import pysimulators as ps
    rng = np.random.default_rng(p['seed'])
    m = min(p['m'], 60)
    if m == 0:
        return None
    lay = ps.LayoutGrid((m, 2), 1.)
    i = ps.Instrument(lay) if hasattr(ps, 'Instrument') else None
    if i is None:
        return None
    n = p['n']
    w = FakeWorld(n)
    for parts in (w.run(lambda c: i.scatter(c)), list(i.split(n))):
        ix = np.concatenate([np.asarray(q.detector.index) for q in parts])
        if not np.array_equal(ix, np.arange(2 * m)):
            return 'the detectors of the %d parts are %s' % (n, ix.tolist())
        c = np.concatenate([np.asarray(q.detector.center) for q in parts])
        if not np.array_equal(c, np.asarray(lay.center)):
            return 'the attributes do not follow the detectors'
