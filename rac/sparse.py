"""Run-time checks of the sparse matrices and projections (C01-C06, C10, C11)."""
import operator
import itertools
import numpy as np
from vf.rac import case, RANDOM, layout, outlayout

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float16', 'float32', 'float64', 'float128']
SCALAR = ['FSCMatrix', 'FSRMatrix']
ROT = ['FSCRotation2dMatrix', 'FSRRotation2dMatrix', 'FSCRotation3dMatrix', 'FSRRotation3dMatrix']
BLOCK = ['FSCBlockMatrix', 'FSRBlockMatrix']
BSHAPES = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
VMAX = {'float16': 4, 'float32': 200, 'float64': 1 << 26, 'float128': 1 << 26}
XMAX = {'float16': 4, 'float32': 50, 'float64': 1 << 16, 'float128': 40, 'int8': 40, 'int32': 40, 'int64': 40, 'uint8': 40, 'bool': 1}


def S():
    import pysimulators.sparse
    return pysimulators.sparse


def bshape(cls, bs):
    return (1, 1) if cls in SCALAR else (2, 2) if '2d' in cls else (3, 3) if '3d' in cls else tuple(bs)


def make(p, split=False):
    """matrix and its dense expansion, from the parameters"""
    S_ = S()
    cls = p['cls']
    bs = bshape(cls, p.get('bs'))
    nr, nc, nmax = p['nr'], p['nc'], p['nmax']
    rng = np.random.default_rng(p['seed'])
    shape = (nr * bs[0], nc * bs[1])
    C = getattr(S_, cls)
    if cls in BLOCK:
        M = C(shape, bs, nmax, dtype=np.dtype(p['ds']), dtype_index=np.dtype(p['di']))
    else:
        M = C(shape, nmax, dtype=np.dtype(p['ds']), dtype_index=np.dtype(p['di']))
    fsc = cls.startswith('FSC')
    nent, lim = (nc, nr) if fsc else (nr, nc)
    data = M.data
    if data.shape != (nent, nmax):
        # rectangular blocks: build the storage explicitly
        dt = np.dtype(data.dtype.descr)
        data = np.zeros((nent, nmax), dt).view(np.recarray)
        M = C(shape, data=data)
        data = M.data
    di = np.dtype(p['di'])
    style = p.get('style', 'mix')
    top = min(lim, int(np.iinfo(di).max) + 1)
    idx = rng.integers(0, top, size=(nent, nmax)) if top else np.zeros((nent, nmax), int)
    if style == 'dup' and top:
        idx[...] = rng.integers(0, min(2, top), size=idx.shape)
    if style == 'perm' and top:
        idx[...] = (np.arange(nent)[:, None] + np.arange(nmax)) % top
    neg = np.zeros(idx.shape, bool)
    if di.kind == 'i' and style in ('mix', 'dup', 'neg'):
        neg = rng.random(idx.shape) < {'mix': 0.3, 'dup': 0.2, 'neg': 0.8}[style]
        bad = rng.choice([-1, -1, -2, int(np.iinfo(di).min)], size=idx.shape)
        idx = np.where(neg, bad, idx)
    data.index[...] = idx.astype(di)
    vm = VMAX[p['ds']]
    fields = [n for n in data.dtype.names if n != 'index']
    for f in fields:
        v = rng.integers(-vm, vm + 1, size=data[f].shape)
        if p.get('zeros'):
            v = np.where(rng.random(v.shape) < p['zeros'], 0, v)
        data[f][...] = v
    D = expand(M, cls, bs, idx, neg, shape, fsc)
    if nent % 2 == 0 and nent and split and p['seed'] % 5 == 1:
        # the entries may be laid out along several axes
        M = C(shape, data=np.array(data).reshape((2, nent // 2, nmax)))
    return M, D, idx, neg, bs


def expand(M, cls, bs, idx, neg, shape, fsc):
    D = np.zeros(shape, np.float64)
    d = M.data
    for e in range(idx.shape[0]):
        for k in range(idx.shape[1]):
            if neg[e, k]:
                continue
            q = int(idx[e, k])
            r = d[e, k]
            if cls in SCALAR:
                B = np.array([[float(r['value'])]])
            elif '2d' in cls:
                a, b = float(r['r11']), float(r['r21'])
                B = np.array([[a, -b], [b, a]])
                if fsc:
                    B = B.T
            elif '3d' in cls:
                a, c, s = float(r['r11']), float(r['r22']), float(r['r32'])
                B = np.array([[a, 0, 0], [0, c, -s], [0, s, c]])
                if fsc:
                    B = B.T
            elif fsc:
                B = np.array(r['value'], float).T
            else:
                B = np.array(r['value'], float)
            i, j = (q, e) if fsc else (e, q)
            D[i * bs[0]:(i + 1) * bs[0], j * bs[1]:(j + 1) * bs[1]] += B
    return D


def canary(n, dtype, vals, pad=5):
    """array of n values inside a larger one, to see stray writes"""
    big = np.full(n + 2 * pad, 77, dtype)
    v = big[pad:pad + n]
    v[...] = vals
    return big, v, pad


def intact(big, pad, what):
    if not (np.all(big[:pad] == 77) and np.all(big[big.size - pad:] == 77)):
        return 'write outside %s' % what
    return None


def xvec(rng, n, dv):
    x = rng.integers(0 if np.dtype(dv).kind in 'ub' else -XMAX[dv], XMAX[dv] + 1, size=n)
    return x.astype(dv)


def same(got, want, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        return '%s: shape %s instead of %s' % (what, got.shape, want.shape)
    g = got.astype(np.float64)
    if not np.array_equal(g, want):
        b = np.argwhere(g != want)[0]
        return '%s: component %s is %r, the definition gives %r' % (what, tuple(int(i) for i in b), g[tuple(b)], want[tuple(b)])
    return None


def base(ctx, classes, blocks=False):
    """systematic then random parameters"""
    def one(cls, di, ds, dv, bs=None, **k):
        p = dict(cls=cls, di=di, ds=ds, dv=dv, nr=3, nc=4, nmax=2, seed=ctx.newseed(), style='mix', extra=1)
        if bs:
            p['bs'] = list(bs)
        p.update(k)
        return p
    for cls in classes:
        for bs in (BSHAPES if cls in BLOCK else [None]):
            for di in INTS:
                for ds in FLOATS:
                    for dv in FLOATS:
                        yield one(cls, di, ds, dv, bs)
                        if di in ('int32', 'int64') and ds in ('float32', 'float64'):
                            yield one(cls, di, ds, dv, bs, nr=7, nc=5, nmax=4, style='dup')
    sz = ctx.sizes(12)
    small = [s for s in sz if 1 <= s <= 12]
    # every size of the row / column / list dimension, compiled kernels
    for cls in classes:
        for bs in (BSHAPES if cls in BLOCK else [None]):
            for s in sz:
                if s < 1:
                    continue
                for di, ds, dv in (('int32', 'float64', 'float64'), ('int64', 'float32', 'float64'), ('int32', 'float32', 'float32')):
                    if cls in BLOCK and s > 12 and tuple(bs) not in ((2, 2), (3, 1), (1, 2)):
                        continue
                    yield one(cls, di, ds, dv, bs, nmax=s)
                    yield one(cls, di, ds, dv, bs, nr=s)
                    yield one(cls, di, ds, dv, bs, nc=s)
                    if cls in SCALAR:
                        yield one(cls, di, ds, dv, bs, extra=s)
                        yield one(cls, di, ds, dv, bs, extra=s, nmax=1)
    yield RANDOM
    while True:
        cls = classes[ctx.rng.integers(len(classes))]
        bs = BSHAPES[ctx.rng.integers(len(BSHAPES))] if cls in BLOCK else None
        p = one(cls, str(ctx.rng.choice(INTS if ctx.rng.random() < 0.3 else ['int32', 'int64'])),
                str(ctx.rng.choice(FLOATS if ctx.rng.random() < 0.3 else ['float32', 'float64'])),
                str(ctx.rng.choice(FLOATS if ctx.rng.random() < 0.3 else ['float32', 'float64'])), bs,
                nr=ctx.size(12, 1),
                nc=ctx.size(12, 1),
                nmax=ctx.size(8, 1),
                style=str(ctx.rng.choice(['mix', 'dup', 'neg', 'perm'])),
                extra=max(1, ctx.size(5, -2)) if cls in SCALAR else 1,
                zeros=float(ctx.rng.choice([0, 0.4])))
        if p['nr'] * p['nc'] * p['nmax'] > 100000:
            continue
        yield p


def product_check(p):
    M, D, idx, neg, bs = make(p, True)
    rng = np.random.default_rng(p['seed'] + 1)
    e = p['extra']
    snap = M.data.tobytes()
    bigv, x, pad = canary(D.shape[1] * e, p['dv'], xvec(rng, D.shape[1] * e, p['dv']))
    x0 = x.copy()
    want = (D @ x.astype(float).reshape(-1, e)).reshape(-1)
    r = None
    # 1. fresh output
    xl = layout(x, p['seed'] // 3)
    got = M._matvec(xl) if (e > 1 or p['seed'] % 2) else M * xl
    r = r or same(got, want, '%s product' % p['cls'])
    # 2. accumulated output, in every float type able to hold it
    odt = np.result_type(p['ds'], p['dv'])
    if odt.kind != 'f':
        odt = np.dtype(p['ds'])
    o0 = rng.integers(-3, 4, size=D.shape[0] * e)
    big, out, pad2 = canary(D.shape[0] * e, odt, o0)
    got = M._matvec(x, out)
    r = r or same(out, want + o0, '%s accumulated product' % p['cls'])
    r = r or same(got, want + o0, '%s returned accumulated product' % p['cls']) if not r else r
    r = r or intact(big, pad2, 'the output')
    r = r or intact(bigv, pad, 'the input')
    if r is None and x0.tobytes() != x.tobytes():
        r = 'the input vector is modified'
    if r is None and snap != M.data.tobytes():
        r = 'the matrix is modified'
    # 3. through the operator
    if r is None and np.dtype(p['dv']).kind == 'f':
        from pysimulators.sparse import SparseOperator
        op = SparseOperator(M)
        sh = x.reshape((-1, e)) if e > 1 else x.reshape((-1,)) if bs[1] == 1 else x.reshape((-1, bs[1]))
        y = op(layout(sh, p['seed'] // 5))
        r = same(np.asarray(y).ravel(), want, '%s operator' % p['cls'])
        if r is None and y.shape != ((D.shape[0], e) if e > 1 else (D.shape[0],) if bs[0] == 1 else (D.shape[0] // bs[0], bs[0])):
            r = '%s operator: wrong output shape %s' % (p['cls'], y.shape)
        if r is None:
            out = np.array(np.broadcast_to(0, y.shape), y.dtype)
            out[...] = o0.reshape(y.shape)
            op(sh, out, operation=operator.iadd)
            r = same(out.ravel(), want + o0, '%s operator, accumulated' % p['cls'])
        if r is None:
            out[...] = 9
            op(sh, out)
            r = same(out.ravel(), want, '%s operator, output given' % p['cls'])
    # 4. row vector times matrix
    if r is None and np.dtype(p['dv']).kind == 'f':
        z = xvec(rng, D.shape[0], p['dv'])
        r = same(layout(z, p['seed'] // 7) * M, z.astype(float) @ D, 'vector times %s' % p['cls'])
        if r is None and e == 1:
            r = same(M * [float(v) for v in x], want, '%s times a list' % p['cls'])
        if r is None and p['nr'] * p['nc'] < 40 and p['seed'] % 4 == 2:
            op = SparseOperator(M)
            r = same(np.asarray(op.todense(shapein=sh.shape)), np.kron(D, np.eye(e)), 'dense form of %s' % p['cls'])
    # 5. scalar multiples and copies
    if r is None and p['seed'] % 3 == 0:
        r = same((2 * M)._matvec(x) if p['seed'] % 2 else (M * 2)._matvec(x), 2 * want, '%s times a scalar' % p['cls'])
        r = r or same(M.copy()._matvec(x), want, 'copy of %s' % p['cls'])
        if r is None and snap != M.data.tobytes():
            r = 'the matrix is modified by a scalar multiplication'
    return r


@case(['C01', 'C11'], 'sparse-product', lambda c: base(c, SCALAR))
def _(p):
    """products of FSC / FSR matrices equal the dense product, accumulated, homothety, operators"""
    return product_check(p)


@case(['C02', 'C11'], 'block-product', lambda c: base(c, ROT + BLOCK))
def _(p):
    """products of block and rotation matrices equal the dense product of the expanded blocks"""
    return product_check(p)


@case('C01', 'sparse-unsigned-all', lambda c: ({'cls': k, 'di': d, 'ds': s, 'dv': v, 'nr': a, 'nc': b, 'nmax': n, 'seed': c.newseed(), 'style': 'perm', 'extra': e}
      for k in SCALAR for d in INTS for s in FLOATS for v in FLOATS + ['int8', 'int32', 'int64', 'uint8'] for a, b, n, e in ((5, 6, 3, 1), (4, 3, 2, 2))))
def _(p):
    """every combination of index, value and vector type"""
    return product_check(p)


# ---------------------------------------------------------------- C03
def gen_adjoint(ctx):
    for p in base(ctx, SCALAR + ROT + BLOCK):
        if p is RANDOM:
            yield p
            continue
        p['shaped'] = int(ctx.rng.integers(5))
        yield p


@case('C03', 'adjoint', gen_adjoint)
def _(p):
    """<y, A x> = <A^T y, x> and A^T is the transposed dense matrix"""
    from pysimulators.sparse import SparseOperator
    M, D, idx, neg, bs = make(p, True)
    e = p['extra']
    kw = {}
    scal = p['cls'] in SCALAR
    shin = shout = None
    if scal and p['shaped'] == 1 and D.shape[1] % 2 == 0:
        kw['shapein'] = shin = (2, D.shape[1] // 2) + ((e,) if e > 1 else ())
    if scal and p['shaped'] == 2 and D.shape[0] % 2 == 0:
        kw['shapeout'] = shout = (D.shape[0] // 2, 2) + ((e,) if e > 1 else ())
    if scal and p['shaped'] == 3:
        if D.shape[0] % 2 == 0:
            kw['shapeout'] = shout = (D.shape[0] // 2, 2) + ((e,) if e > 1 else ())
            kw['shapein'] = shin = (D.shape[1],) + ((e,) if e > 1 else ())
    if scal and p['shaped'] == 4:
        if D.shape[1] % 2 == 0:
            kw['broadcastable_shapein'] = (D.shape[1] // 2, 2)
            shin = kw['broadcastable_shapein'] + ((e,) if e > 1 else ())
        if D.shape[0] % 2 == 0:
            kw['broadcastable_shapeout'] = (2, D.shape[0] // 2)
            shout = kw['broadcastable_shapeout'] + ((e,) if e > 1 else ())
    op = SparseOperator(M, **kw)
    T = op.T
    rng = np.random.default_rng(p['seed'] + 1)
    dv = p['dv']
    x = xvec(rng, D.shape[1] * e, dv)
    y = xvec(rng, D.shape[0] * e, dv)
    if shin is None:
        shin = (D.shape[1],) + ((e,) if e > 1 else ()) if scal or bs[1] == 1 else (D.shape[1] // bs[1], bs[1])
    if shout is None:
        shout = (D.shape[0],) + ((e,) if e > 1 else ()) if scal or bs[0] == 1 else (D.shape[0] // bs[0], bs[0])
    ax = np.asarray(op(layout(x.reshape(shin), p['seed'] // 3)))
    ty = np.asarray(T(layout(y.reshape(shout), p['seed'] // 5)))
    if ax.shape != shout:
        return 'A x has shape %s instead of %s' % (ax.shape, shout)
    if ty.shape != shin:
        return 'A^T y has shape %s instead of %s' % (ty.shape, shin)
    wx = (D @ x.astype(float).reshape(-1, e)).ravel()
    wy = (D.T @ y.astype(float).reshape(-1, e)).ravel()
    r = same(ax.ravel(), wx, 'A x') or same(ty.ravel(), wy, 'A^T y')
    if r:
        return r
    # the inner products, in exact integers
    a = sum(int(u) * int(v) for u, v in zip(y.ravel().tolist(), ax.astype(float).ravel().tolist()))
    b = sum(int(u) * int(v) for u, v in zip(x.ravel().tolist(), ty.astype(float).ravel().tolist()))
    if a != b:
        return '<y, A x> = %d but <A^T y, x> = %d' % (a, b)
    r = same(np.asarray(T.T(x.reshape(shin))).ravel(), wx, '(A^T)^T x')
    if r is None and e == 1:
        r = same(y * M if p['seed'] % 2 else M._transpose() * y, wy, 'y A')
    return r


# ---------------------------------------------------------------- projections
PROJ = ['FSRMatrix', 'FSRRotation2dMatrix', 'FSRRotation3dMatrix']
PROJB = PROJ + ['FSRBlockMatrix']


def gen_proj(classes, blocks=((1, 2), (2, 2), (3, 3), (2, 1), (1, 3), (3, 2)), shaped=True, empty=False):
    def gen(ctx):
        def one(cls, **k):
            p = dict(cls=cls, di='int32', ds='float64', dv='float64', nr=5, nc=4, nmax=2, seed=ctx.newseed(), style='mix', shape=None, bs=None)
            if cls == 'FSRBlockMatrix':
                p['bs'] = list(blocks[ctx.rng.integers(len(blocks))])
            p.update(k)
            if p['cls'] == 'FSRBlockMatrix' and p['bs'] is None:
                p['bs'] = list(blocks[0])
            return p
        for cls in classes:
            for di in INTS:
                for ds in FLOATS:
                    for dv in ('float32', 'float64'):
                        yield one(cls, di=di, ds=ds, dv=dv)
            for bs in (blocks if cls == 'FSRBlockMatrix' else [None]):
                for di in ('int32', 'int64', 'uint32', 'int16') if empty else ():
                    yield one(cls, di=di, bs=list(bs) if bs else None, nmax=0, style='none')
                    yield one(cls, di=di, ds='float32', bs=list(bs) if bs else None, nmax=0, style='none')
                for di in INTS[:4]:
                    for ds in ('float32', 'float64'):
                        for st in ('mix', 'dup', 'neg', 'perm'):
                            for nm in (1, 2, 3, 5):
                                yield one(cls, di=di, ds=ds, bs=list(bs) if bs else None, style=st, nmax=nm, zeros=0.4)
                for nm in (1, 2, 3):
                    for z in (0, 0.5):
                        yield one(cls, bs=list(bs) if bs else None, nmax=nm, zeros=z)
                        yield one(cls, bs=list(bs) if bs else None, nmax=nm, zeros=z, nr=7, nc=9)
                        if shaped:
                            yield one(cls, bs=list(bs) if bs else None, nmax=nm, zeros=z, nr=6, nc=6, shape=[2, 3])
            for s in ctx.sizes(12):
                if s:
                    yield one(cls, nmax=s, zeros=0.3)
                    yield one(cls, nr=s, zeros=0.3)
                    yield one(cls, nc=s, zeros=0.3)
                    yield one(cls, nc=s, nmax=1, zeros=0.3)
                    yield one(cls, nc=s, nmax=1, zeros=0.3, ds='float32', di='int64')
        yield RANDOM
        while True:
            nr, nc = ctx.size(12, 1), ctx.size(12, 1)
            sh = None
            if shaped and nc % 2 == 0 and ctx.rng.random() < 0.3:
                sh = [2, nc // 2]
            yield one(str(ctx.rng.choice(classes)), di=str(ctx.rng.choice(INTS[:4])), ds=str(ctx.rng.choice(['float32', 'float64'])),
                      dv=str(ctx.rng.choice(['float32', 'float64'])), nr=nr, nc=nc, nmax=ctx.size(5, 1),
                      style=str(ctx.rng.choice(['mix', 'dup', 'neg', 'perm'])), zeros=float(ctx.rng.choice([0, 0.3, 0.7])), shape=sh)
    return gen


def proj(p, exact3=False):
    from pysimulators import ProjectionOperator
    M, D, idx, neg, bs = make(p)
    if '2d' in p['cls'] and p.get('pyth'):
        rng = np.random.default_rng(p['seed'] + 7)
        k = rng.integers(-3, 4, size=idx.shape)
        t = rng.integers(0, 4, size=idx.shape)
        a, b = np.array([3, 4, 1, 0])[t], np.array([4, -3, 0, -1])[t]
        M.data.r11[...] = k * a
        M.data.r21[...] = k * b
        D = expand(M, p['cls'], bs, idx, neg, D.shape, False)
    kw = {}
    if p.get('shape'):
        kw['shapein'] = tuple(p['shape']) + (() if bs[1] == 1 else (bs[1],))
    return ProjectionOperator(M, **kw), M, D, idx, neg, bs


def gen_c04(ctx):
    for p in gen_proj(PROJB)(ctx):
        if p is not RANDOM:
            p['pyth'] = 1
        yield p


@case('C04', 'coverage', gen_c04)
def _(p):
    """pT1 is the transpose applied to ones (modulus sum for 2-d rotations, first component for 3-d)"""
    P, M, D, idx, neg, bs = proj(p)
    npix = D.shape[1] // bs[1]
    sh = tuple(p['shape']) if p['shape'] else (npix,)
    want = np.zeros(npix)
    if '2d' in p['cls']:
        for e in range(idx.shape[0]):
            for k in range(idx.shape[1]):
                if not neg[e, k]:
                    want[idx[e, k]] += round(np.hypot(float(M.data.r11[e, k]), float(M.data.r21[e, k])))
    else:
        want = (D.T @ np.ones(D.shape[0])).reshape(npix, bs[1])[:, 0]
        if '3d' in p['cls']:
            want = (D.T @ np.tile([1, 0, 0], D.shape[0] // 3)).reshape(npix, 3)[:, 0]
    want = want.reshape(sh)
    r = same(P.pT1(), want, 'pT1')
    if r:
        return r
    odt = np.result_type(p['ds'], p['dv'])
    out = outlayout(sh, odt, 7, p['seed'] // 3)
    P.pT1(out=out)
    r = same(out, want, 'pT1(out)')
    out[...] = 3
    P.pT1(out=out, operation=operator.iadd)
    return r or same(out, want + 3, 'pT1(out, iadd)')


@case('C04', 'backprojection', lambda c: gen_proj([k for k in PROJB if '2d' not in k])(c))
def _(p):
    """pTx_pT1 is the transpose of the input and the coverage"""
    P, M, D, idx, neg, bs = proj(p)
    npix = D.shape[1] // bs[1]
    sh = tuple(p['shape']) if p['shape'] else (npix,)
    rng = np.random.default_rng(p['seed'] + 1)
    x = xvec(rng, D.shape[0], p['dv'])
    if p['cls'] == 'FSRBlockMatrix' and bs[0] != bs[1]:
        xs = x.reshape((-1,) if bs[0] == 1 else (-1, bs[0]))
    else:
        xs = x.reshape((-1,) if bs[0] == 1 else (-1, bs[0]))
    w1 = (D.T @ x.astype(float)).reshape(npix, bs[1])[:, 0].reshape(sh)
    one = np.tile([1, 0, 0], D.shape[0] // 3) if '3d' in p['cls'] else np.ones(D.shape[0])
    w2 = (D.T @ one).reshape(npix, bs[1])[:, 0].reshape(sh)
    if P.shapeout is not None and xs.shape != P.shapeout:
        xs = x.reshape(P.shapeout)
    a, b = P.pTx_pT1(xs)
    r = same(a, w1, 'pTx') or same(b, w2, 'pT1')
    if r:
        return r
    dt = max(P.dtype, x.dtype)
    o = outlayout(sh, dt, 2, p['seed'] // 3), outlayout(sh, dt, 5, p['seed'] // 15)
    P.pTx_pT1(layout(xs, p['seed'] // 75), out=o)
    r = same(o[0], w1, 'pTx (out)') or same(o[1], w2, 'pT1 (out)')
    if r:
        return r
    o[0][...], o[1][...] = 2, 5
    P.pTx_pT1(xs, out=o, operation=operator.iadd)
    return same(o[0], w1 + 2, 'pTx (iadd)') or same(o[1], w2 + 5, 'pT1 (iadd)')


def gen_ptp(ctx):
    for p in gen_proj(PROJ)(ctx):
        if p is RANDOM:
            yield p
            continue
        if ctx.rng.random() < 0.7 or p['nmax'] == 1:
            p['nmax'] = 1
        p['expl'] = int(ctx.rng.integers(2))
        if p['di'] not in ('int32', 'int64') and ctx.rng.random() < 0.6:
            p['di'] = 'int32'
        yield p


@case('C04', 'ptp-diagonal', gen_ptp)
def _(p):
    """P^T P (replaced by a diagonal when there is one pixel per sample) equals P^T (P x)"""
    from pysimulators.sparse import SparseOperator
    P, M, D, idx, neg, bs = proj(p)
    if p['cls'] == 'FSRMatrix' and not p.get('shape') and p['expl']:
        from pysimulators import ProjectionOperator
        P = ProjectionOperator(M, shapein=D.shape[1])
    if p['cls'] != 'FSRMatrix' and p['nmax'] == 1:
        pass
    rng = np.random.default_rng(p['seed'] + 1)
    if '2d' not in p['cls'] and '3d' not in p['cls'] or p['nmax'] >= 1:
        dt = P.dtype
        x = rng.integers(-4, 5, size=D.shape[1]).astype(dt if p['ds'] == 'float16' else dt)
        sh = P.shapein or (D.shape[1],)
        small = 3 if p['ds'] != 'float64' else 1000
        for f in M.data.dtype.names[1:]:
            M.data[f][...] = np.sign(M.data[f]) * (np.abs(M.data[f]) % small)
        D = expand(M, p['cls'], bs, idx, neg, D.shape, False)
        Q = P.T * P
        got = np.asarray(Q(x.reshape(sh)))
        want = (D.T @ (D @ x.astype(float))).reshape(sh)
        r = same(got, want, 'P^T P x')
        if r:
            return r
        again = np.asarray((P.T * P)(x.reshape(sh)))
        return same(again, want, 'P^T P x (second time)')


@case('C05', 'kernel', lambda c: gen_proj(PROJB, empty=True)(c))
def _(p):
    """canonical_basis_in_kernel is exactly the complement of the observed pixels"""
    P, M, D, idx, neg, bs = proj(p)
    npix = D.shape[1] // bs[1]
    sh = tuple(p['shape']) if p['shape'] else (npix,)
    rng = np.random.default_rng(p['seed'] + 3)
    # partially zero entries: every single field non zero in turn
    names = M.data.dtype.names[1:]
    for e in range(idx.shape[0]):
        for k in range(idx.shape[1]):
            mode = rng.integers(5)
            if mode == 0:
                for f in names:
                    M.data[f][e, k] = 0
            elif mode == 1:
                f = names[rng.integers(len(names))]
                for g in names:
                    if g != f:
                        M.data[g][e, k] = 0
                    elif M.data[g][e, k].ndim:
                        v = np.array(M.data[g][e, k])
                        v[...] = 0
                        v.flat[rng.integers(v.size)] = 1
                        M.data[g][e, k] = v
            elif mode == 3 and np.dtype(p['ds']).itemsize >= 4:
                for f in names:
                    M.data[f][e, k] = np.finfo(p['ds']).tiny if rng.integers(2) else -np.finfo(p['ds']).smallest_subnormal
    want = np.ones(npix, bool)
    for e in range(idx.shape[0]):
        for k in range(idx.shape[1]):
            if not neg[e, k] and any(np.any(np.asarray(M.data[f][e, k]) != 0) for f in names):
                want[idx[e, k]] = False
    want = want.reshape(sh)
    snap = M.data.tobytes()
    got = P.canonical_basis_in_kernel()
    if got.dtype != bool or got.shape != sh or not np.array_equal(got, want):
        return 'kernel is %s, unobserved pixels are %s' % (np.asarray(got).tolist(), want.tolist())
    big = np.ones(npix + 16, bool)
    out = big[8:8 + npix].reshape(sh)
    old = rng.random(sh) < 0.6
    for op in (operator.iand, operator.imul):
        out[...] = old
        P.canonical_basis_in_kernel(out=out, operation=op)
        if not np.array_equal(out, want & old):
            return 'kernel accumulated with %s is %s instead of %s' % (op.__name__, out.tolist(), (want & old).tolist())
    out[...] = old
    P.canonical_basis_in_kernel(out=out, operation=operator.ior)
    if not np.array_equal(out, want | old):
        return 'kernel accumulated with ior is %s instead of %s' % (out.tolist(), (want | old).tolist())
    out[...] = False
    P.canonical_basis_in_kernel(out=out)
    if not np.array_equal(out, want):
        return 'kernel written to out is wrong'
    if not (big[:8].all() and big[8 + npix:].all()):
        return 'write outside the kernel buffer'
    strided = np.zeros(sh + (2,), bool)
    P.canonical_basis_in_kernel(out=strided[..., 0])
    if not np.array_equal(strided[..., 0], want):
        return ('noncontiguous', 'kernel written to a non-contiguous out is wrong')
    if M.data.tobytes() != snap:
        return 'the matrix is modified'


@case('C05', 'kernel-negative-zero', lambda c: gen_proj(PROJB)(c))
def _(p):
    """entries whose values are all -0.0 do not make a pixel observed"""
    P, M, D, idx, neg, bs = proj(p)
    npix = D.shape[1] // bs[1]
    for f in M.data.dtype.names[1:]:
        M.data[f][...] = -0.0
    if not np.all(P.canonical_basis_in_kernel()):
        return ('negative-zero', 'pixels only seen with the value -0.0 are reported as observed')


@case('C06', 'restrict', lambda c: gen_proj(PROJB)(c))
def _(p):
    """the restricted operator applied to packed maps is the original on zero-filled maps"""
    P, M, D, idx, neg, bs = proj(p)
    npix = D.shape[1] // bs[1]
    sh = tuple(p['shape']) if p['shape'] else (npix,)
    rng = np.random.default_rng(p['seed'] + 5)
    mask = (rng.random(npix) < rng.choice([0., 0.3, 0.7, 1.])).reshape(sh)
    if not mask.any() and p['seed'] % 5:
        mask.flat[rng.integers(npix)] = True
    from pysimulators.sparse import SparseOperator
    plain = p['seed'] % 2 == 0
    kw = {}
    if p.get('shape'):
        kw['shapein'] = P.shapein
    op = SparseOperator(M, **kw) if plain else P
    snap, vals = M.data.tobytes(), {f: np.array(M.data[f]) for f in M.data.dtype.names[1:]}
    n = int(mask.sum())
    if n == 0 or p['di'][0] == 'u':     # dropped entries cannot be marked in unsigned indices
        return None
    inplace = p['seed'] % 4 == 1
    R = op.restrict(layout(mask, p['seed'] // 7), inplace=inplace)
    # entries
    rank = np.cumsum(mask.ravel()) - 1
    new = R.matrix.data.index
    for e in range(idx.shape[0]):
        for k in range(idx.shape[1]):
            g = int(new[e, k])
            if neg[e, k] or not mask.ravel()[idx[e, k]]:
                ok = g < 0 or g == int(np.iinfo(p['di']).max) and p['di'][0] == 'u'
            else:
                ok = g == rank[idx[e, k]]
            if not ok:
                return 'entry (%d, %d) of index %d is renumbered %d (mask %s)' % (e, k, idx[e, k], g, mask.astype(int).tolist())
    for f in vals:
        if not np.array_equal(vals[f], R.matrix.data[f]):
            return 'values are modified by restrict'
    if not inplace and M.data.tobytes() != snap:
        return 'restrict modifies the original operator'
    if R.matrix.shape != (D.shape[0], n * bs[1]):
        return 'restricted matrix has shape %s instead of %s' % (R.matrix.shape, (D.shape[0], n * bs[1]))
    if p['di'][0] == 'u':
        return None
    # action
    x = rng.integers(-4, 5, size=(npix, bs[1])).astype(p['ds'])
    full = np.where(mask.ravel()[:, None], x, 0)
    want = D @ full.astype(float).ravel()
    xr = x[mask.ravel()]
    got = R(xr.ravel() if bs[1] == 1 else xr)
    r = same(np.asarray(got).ravel(), want, 'restricted operator')
    if r is None and not inplace:
        r = same(np.asarray(op(full.reshape(sh + (() if bs[1] == 1 else (bs[1],))))).ravel(), want, 'original operator after restrict')
    return r


@case('C06', 'corestrict', lambda c: gen_proj(PROJ)(c))
def _(p):
    """the corestricted operator gives the selected rows of the output"""
    from pysimulators.sparse import SparseOperator
    P, M, D, idx, neg, bs = proj(p)
    nr = p['nr']
    rng = np.random.default_rng(p['seed'] + 5)
    mask = rng.random(nr) < rng.choice([0.3, 0.7, 1.])
    if not mask.any():
        mask[rng.integers(nr)] = True
    kw = {'shapein': P.shapein} if p.get('shape') else {}
    op = SparseOperator(M, **kw) if p['seed'] % 2 else P
    R = op.corestrict(layout(mask, p['seed'] // 7))
    x = rng.integers(-4, 5, size=D.shape[1]).astype(p['ds'])
    want = (D @ x.astype(float)).reshape(nr, bs[0])[mask]
    sh = (tuple(p['shape']) if p['shape'] else (p['nc'],)) + (() if bs[1] == 1 else (bs[1],))
    got = np.asarray(R(x.reshape(sh)))
    if got.shape != ((int(mask.sum()),) if bs[0] == 1 else (int(mask.sum()), bs[0])):
        return 'corestricted output has shape %s' % (got.shape,)
    r = same(got.ravel(), want.ravel(), 'corestricted operator')
    return r or same(np.asarray(op(x.reshape(sh))).ravel(), D @ x.astype(float), 'original operator after corestrict')


# ------------------------------------------- components that carry extra values
def gen_extra(ctx):
    def one(**k):
        p = dict(cls='FSRMatrix', di='int32', ds='float64', dv='float64', nr=5, nc=4, nmax=2, seed=ctx.newseed(), style='mix', shape=None, bs=None, extra=[2], zeros=0.3)
        p.update(k)
        return p
    for nm in (1, 2, 3):
        for extra in ([2], [3], [1, 2], [2, 2], [5]):
            for shape, nc in ((None, 4), ([2, 3], 6), (None, 1)):
                for ds, dv in (('float64', 'float64'), ('float32', 'float32'), ('float32', 'float64'), ('float16', 'float64')):
                    for di in ('int32', 'int64', 'int16'):
                        yield one(nmax=nm, extra=extra, shape=shape, nc=nc, ds=ds, dv=dv, di=di)
    yield RANDOM
    while True:
        nc = ctx.size(12, 1)
        yield one(nr=ctx.size(12, 1), nc=nc, nmax=ctx.size(4, 1), di=str(ctx.rng.choice(['int32', 'int64', 'int8'])), ds=str(ctx.rng.choice(['float32', 'float64'])),
                  dv=str(ctx.rng.choice(['float32', 'float64'])), style=str(ctx.rng.choice(['mix', 'dup', 'neg', 'perm'])),
                  extra=[int(x) for x in ctx.rng.integers(1, 5, size=ctx.rng.integers(1, 3))], shape=[2, nc // 2] if nc % 2 == 0 and ctx.rng.random() < 0.3 else None)


def projextra(p):
    """operator, dense matrix of one component, shapes of the maps and of the samples"""
    from pysimulators import ProjectionOperator
    M, D, idx, neg, bs = make(p)
    small = 3 if p['ds'] == 'float16' else 50
    M.data.value[...] = np.sign(M.data.value) * (np.abs(M.data.value) % small) + 0.0
    D = expand(M, p['cls'], bs, idx, neg, D.shape, False)
    sh = tuple(p['shape']) if p['shape'] else (p['nc'],)
    P = ProjectionOperator(M, shapein=sh + tuple(p['extra']))
    return P, M, D, idx, neg, sh + tuple(p['extra'])


def ambiguous(p):
    # the trailing ones are then dimensions of the map
    return p['extra'][0] == 1


@case('C04', 'coverage, extra values', gen_extra)
def _(p):
    """coverage, back-projection and P^T P when each pixel carries several values"""
    P, M, D, idx, neg, sh = projextra(p)
    k = int(np.prod(p['extra']))
    if ambiguous(p):
        return None
    rng = np.random.default_rng(p['seed'] + 1)
    w = np.repeat(D.T @ np.ones(D.shape[0]), k).reshape(sh)
    x = rng.integers(-4, 5, size=(D.shape[0], k)).astype(p['dv'])
    tx = (D.T @ x.astype(float)).reshape(sh)
    xs = x.reshape(P.shapeout)
    r = same(P.pT1(), w, 'pT1')
    out = outlayout(sh, np.result_type(p['ds'], p['dv']), 7, p['seed'] // 3)
    r = r or same(P.pT1(out=out), w, 'pT1(out)')
    if r:
        return r
    out[...] = 3
    P.pT1(out=out, operation=operator.iadd)
    r = same(out, w + 3, 'pT1(out, iadd)')
    a, b = P.pTx_pT1(layout(xs, p['seed'] // 75))
    r = r or same(a, tx, 'pTx') or same(b, w, 'pT1')
    if r:
        return r
    dt = max(P.dtype, x.dtype)
    o = outlayout(sh, dt, 2, p['seed'] // 3), outlayout(sh, dt, 5, p['seed'] // 15)
    o[0][...], o[1][...] = 2, 5
    P.pTx_pT1(xs, out=o, operation=operator.iadd)
    r = same(o[0], tx + 2, 'pTx (iadd)') or same(o[1], w + 5, 'pT1 (iadd)')
    y = rng.integers(-4, 5, size=sh).astype(P.dtype)
    return r or same(np.asarray((P.T * P)(y)), (D.T @ (D @ y.astype(float).reshape(-1, k))).reshape(sh), 'P^T P x')


@case('C05', 'kernel, extra values', gen_extra)
def _(p):
    """every value of a pixel that is not seen is in the kernel, and no other"""
    P, M, D, idx, neg, sh = projextra(p)
    k = int(np.prod(p['extra']))
    want = np.ones(D.shape[1], bool)
    want[idx[~neg & (np.asarray(M.data.value) != 0)]] = False
    got = P.canonical_basis_in_kernel()
    want = np.repeat(want, k).reshape(sh)
    if got.shape != sh or got.dtype != bool or not np.array_equal(got, want):
        return 'kernel is %s instead of %s' % (got.tolist(), want.tolist())
    old = np.random.default_rng(p['seed'] + 3).random(sh) < 0.6
    out = old.copy()
    P.canonical_basis_in_kernel(out=out, operation=operator.iand)
    if not np.array_equal(out, want & old):
        return 'kernel accumulated is %s instead of %s' % (out.tolist(), (want & old).tolist())


@case('C06', 'restrict, extra values', gen_extra)
def _(p):
    """restriction and selection of rows when each component carries several values"""
    P, M, D, idx, neg, sh = projextra(p)
    k = int(np.prod(p['extra']))
    if ambiguous(p):
        return None
    rng = np.random.default_rng(p['seed'] + 5)
    mask = rng.random(D.shape[1]) < 0.6
    mask[rng.integers(mask.size)] = True
    msh = tuple(p['shape']) if p['shape'] else (p['nc'],)
    n = int(mask.sum())
    x = rng.integers(-4, 5, size=(D.shape[1], k)).astype(p['ds'])
    want = D @ (x * mask[:, None]).astype(float)
    if len(msh) == 1:
        R = P.restrict(mask.reshape(msh))
        r = same(np.asarray(R(x[mask].reshape((n,) + tuple(p['extra'])))).ravel(), want.ravel(), 'restricted operator')
        if r:
            return r
    rows = rng.random(D.shape[0]) < 0.6
    rows[rng.integers(rows.size)] = True
    R = P.corestrict(rows)
    return same(np.asarray(R(x.reshape(sh))).ravel(), (D @ x.astype(float))[rows].ravel(), 'corestricted operator')
