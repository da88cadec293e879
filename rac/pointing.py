"""Run-time checks of the in-memory pointing matrices (C07, C08)."""
import operator
import numpy as np
from vf.rac import case, RANDOM, layout, outlayout


def ops():
    import pysimulators.operators
    return pysimulators.operators


def fl():
    import pysimulators._flib
    return pysimulators._flib.pointingmatrix


def build(p):
    """the pointing matrix described by the parameters, with exact small integer weights"""
    O = ops()
    rng = np.random.default_rng(p['seed'])
    shape = tuple(p['shape']) + (p['np'],)
    sin = tuple(p['sin'])
    n = int(np.prod(sin))
    m = O.PointingMatrix.zeros(shape, sin, verbose=False)
    a = np.asarray(m).view(np.ndarray)
    idx = rng.integers(0, n, size=shape) if n else np.full(shape, -1)
    st = p.get('style', 'mix')
    if st == 'dup' and n:
        idx = rng.integers(0, min(2, n), size=shape)
    if st == 'edge' and n:
        idx = rng.choice([0, n - 1], size=shape)
    if st == 'full':
        pass
    else:
        stop = rng.random(shape) < p.get('stop', 0.25)
        if st == 'tail':
            first = np.cumsum(stop, axis=-1) > 0
            idx = np.where(first, -1, idx)
        else:
            idx = np.where(stop, -1, idx)
    val = rng.integers(-40, 41, size=shape)
    val = np.where(rng.random(shape) < p.get('zeros', 0.2), 0, val)
    a['index'][...] = idx
    a['value'][...] = val
    return m


def dense(m):
    """the matrix of the projection: every sample lists its pixels up to the first -1"""
    n = int(np.prod(m.shape_input))
    a = np.array(m.view(np.ndarray))
    ns = int(np.prod(m.shape[:-1]))
    D = np.zeros((ns, n))
    if a.size == 0:
        return D
    for s, row in enumerate(a.reshape(ns, m.shape[-1])):
        for e in row:
            if e['index'] == -1:
                break
            D[s, e['index']] += e['value']
    return D


def relaid(m, k):
    """the same pointing matrix with another memory layout"""
    k = k % 4
    if k == 0 or m.size == 0:
        return m
    O = ops()
    a = np.array(m.view(np.ndarray))
    if k == 1:
        b = O.PointingMatrix.zeros(tuple(2 * s for s in a.shape[:-1]) + a.shape[-1:], m.shape_input, verbose=False)
        v = b[tuple(slice(None, None, 2) for _ in a.shape[:-1])]
    elif k == 2:
        b = O.PointingMatrix.zeros(a.shape[-2::-1] + a.shape[-1:], m.shape_input, verbose=False)
        v = b.transpose(tuple(range(a.ndim - 2, -1, -1)) + (a.ndim - 1,))
    else:
        b = O.PointingMatrix.zeros(a.shape[:-1] + (a.shape[-1] + 2,), m.shape_input, verbose=False)
        v = b[..., 1:-1]
    v.view(np.ndarray)[...] = a
    return v


def gen(ctx):
    def one(**k):
        p = dict(shape=[3], np=2, sin=[4], seed=ctx.newseed(), style='mix', lay=0)
        p.update(k)
        return p
    for npx in (0, 1, 2, 3, 5):
        for shape in ([1], [4], [2, 3], [3, 1], [0], [2, 0]):
            for sin in ([1], [5], [2, 3], [1, 4], [3, 1], [2, 3, 2]):
                for st in ('mix', 'tail', 'full', 'dup', 'edge'):
                    yield one(np=npx, shape=shape, sin=sin, style=st, lay=int(ctx.rng.integers(4)))
    sz = ctx.sizes(12)
    for s in sz:
        if s <= 5000:
            yield one(shape=[s], np=2)
            if s:
                yield one(sin=[s], style='edge')
                yield one(sin=[min(s, 12), 3], style='mix')
            if s <= 300:
                yield one(np=s, style='mix', stop=0.05)
                yield one(np=s, style='full')
                yield one(np=s, style='tail', stop=0.05, zeros=0.6)
    yield RANDOM
    r = ctx.rng
    while True:
        nd = int(r.integers(1, 4))
        cap = 8 if nd > 1 else 12
        yield one(shape=[ctx.size(cap, cap=200 if nd == 1 else 30) for _ in range(nd)], np=ctx.size(5, cap=150),
                  sin=[ctx.size(8, lo=1, cap=100) for _ in range(int(r.choice([1, 1, 2, 2, 3])))],
                  style=str(r.choice(['mix', 'tail', 'full', 'dup', 'edge'])), stop=float(r.choice([0., .1, .5, .9])),
                  zeros=float(r.choice([0., .3, .9])), lay=int(r.integers(4)))


def gen3(ctx):
    """three-dimensional matrices: detectors, samples, pixels"""
    for p in gen(ctx):
        if p is RANDOM:
            yield p
            continue
        p = dict(p)
        sh = list(p['shape'])
        p['shape'] = (sh if len(sh) == 2 else [1] + sh if len(sh) == 1 and p['seed'] % 2 else sh + [2] if len(sh) == 1 else sh[:2])
        yield p


def eq(got, want, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        return '%s: shape %s instead of %s' % (what, got.shape, want.shape)
    if not np.array_equal(got, want):
        b = tuple(int(i) for i in np.argwhere(got != want)[0])
        return '%s: component %s is %r, the definition gives %r' % (what, b, got[b], want[b])


def ints(rng, shape, hi=1 << 12):
    return rng.integers(-hi, hi + 1, size=shape).astype(float)


def memory_operator(p):
    O = ops()
    m = relaid(build(p), p['lay'])
    D = dense(m)
    if p['seed'] % 3 == 0:
        hold = {}
        P = O.ProjectionOnFlyOperator(hold, 'a', lambda i: m, shapein=m.shape_input, shapeout=m.shape[:-1])
    else:
        P = O.ProjectionInMemoryOperator(m)
    return P, m, D


@case(['C07', 'C10', 'C11'], 'pmatrix-direct', gen)
def _(p):
    """each sample gets the sum of weight times map over its pixels listed before the first -1"""
    P, m, D = memory_operator(p)
    rng = np.random.default_rng(p['seed'] + 1)
    x = ints(rng, m.shape_input)
    want = (D @ x.ravel()).reshape(m.shape[:-1])
    snap = m.tobytes()
    r = eq(P(layout(x, p['seed'] // 3)), want, 'P x')
    out = outlayout(m.shape[:-1], float, 7.5, p['seed'] // 11) if want.size else np.empty(want.shape)
    P.direct(layout(x, p['seed'] // 5), out)
    r = r or eq(out, want, 'P x in a given output')
    if m.tobytes() != snap:
        return 'the pointing matrix is modified'
    # stray writes
    if m.size and m.flags.contiguous and want.size:
        big = np.full(want.size + 16, 77.)
        P.direct(x, big[8:-8].reshape(want.shape))
        if not (np.all(big[:8] == 77) and np.all(big[-8:] == 77)):
            return 'P writes outside its output'
    return r


@case(['C07', 'C10', 'C11'], 'pmatrix-transpose', gen)
def _(p):
    """the transpose of the projection, assigned or accumulated"""
    P, m, D = memory_operator(p)
    rng = np.random.default_rng(p['seed'] + 1)
    y = ints(rng, m.shape[:-1])
    want = (D.T @ y.ravel()).reshape(m.shape_input)
    snap = m.tobytes()
    r = eq(P.T(layout(y, p['seed'] // 3)), want, 'P.T y')
    out = outlayout(m.shape_input, float, 7.5, p['seed'] // 11)
    P.transpose(layout(y, p['seed'] // 5), out)
    r = r or eq(out, want, 'P.T y in a given output')
    out = outlayout(m.shape_input, float, 7.5, p['seed'] // 13)
    P.transpose(layout(y, p['seed'] // 7), out, operation=operator.iadd)
    r = r or eq(out, want + 7.5, 'P.T y accumulated')
    if m.tobytes() != snap:
        return 'the pointing matrix is modified'
    big = np.full(want.size + 16, 77.)
    P.transpose(y, big[8:-8].reshape(want.shape))
    if not (np.all(big[:8] == 77) and np.all(big[-8:] == 77)):
        return 'P.T writes outside its output'
    return r


@case(['C07', 'C11'], 'pmatrix-ptp', gen)
def _(p):
    """P^T P: dense matrix, diagonal operator, product with a diagonal operator"""
    from pyoperators import DiagonalOperator, HomothetyOperator
    O = ops()
    P, m, D = memory_operator(p)
    if isinstance(P, O.ProjectionOnFlyOperator):
        P = O.ProjectionInMemoryOperator(m)
    n = D.shape[1]
    if n > 60 or D.shape[0] > 300:
        return None
    rng = np.random.default_rng(p['seed'] + 1)
    r = None
    if m.size == 0 or True:
        r = eq(P.get_pTp(), D.T @ D, 'get_pTp()')
        out = np.full((n, n), 3.)
        P.get_pTp(out)
        r = r or eq(out, D.T @ D + 3, 'get_pTp(out)')
    snap = m.tobytes()
    if True:
        q = P.T * P
        x = ints(rng, m.shape_input)
        r = r or eq(q(x), (D.T @ (D @ x.ravel())).reshape(m.shape_input), '(P.T * P)(x)')
        for bc in ('', 'leftward', 'scalar'):
            if bc == 'scalar':
                v = np.array(3.)
            elif bc == 'leftward':
                v = ints(rng, m.shape[-2:-1], 40)
            else:
                v = ints(rng, m.shape[:-1], 40)
            kw = {'broadcast': bc} if bc == 'leftward' else {}
            dg = DiagonalOperator(v, **kw) if bc != 'scalar' or p['seed'] % 2 else HomothetyOperator(3.)
            w = np.broadcast_to(v, m.shape[:-1]).ravel()
            c = dg * P
            r = r or eq(c(x), (w * (D @ x.ravel())).reshape(m.shape[:-1]), 'diagonal * P (%s)' % bc)
            y = ints(rng, m.shape[:-1], 40)
            r = r or eq(c.T(y), (D.T @ (w * y.ravel())).reshape(m.shape_input), '(diagonal * P).T (%s)' % bc)
            r = r or eq(P(x), (D @ x.ravel()).reshape(m.shape[:-1]), 'P after diagonal * P')
    if m.tobytes() != snap:
        return 'the pointing matrix is modified'
    return r


@case(['C07', 'C10', 'C11'], 'pmatrix-backprojection', gen)
def _(p):
    """the joint back-projection of data and of ones, with and without masked samples"""
    O = ops()
    P, m, D = memory_operator(p)
    rng = np.random.default_rng(p['seed'] + 1)
    y = ints(rng, m.shape[:-1])
    sh = m.shape_input
    how = p['seed'] % 3
    mask = None
    if how:
        mask = rng.random(y.shape) < rng.choice([0., .4, 1.])
    keep = np.ones(y.shape) if mask is None else ~mask
    want = (D.T @ (y * keep).ravel()).reshape(sh), (D.T @ keep.ravel().astype(float)).reshape(sh)
    x = layout(y, p['seed'] // 3)
    kw = {}
    if how == 1:
        kw['mask'] = layout(mask, p['seed'] // 5)
        other = p['seed'] // 7 % 6
        if other == 0:
            kw['mask'] = kw['mask'].astype(np.int8)
        elif other == 1:
            kw['mask'] = kw['mask'] * int(rng.choice([1, 2, 256]))
        elif other == 2:
            kw['mask'] = mask.tolist()
        elif other == 3:
            # the mask given prevails
            from pysimulators import Tod
            x = Tod(y)
            if p['seed'] % 2:
                x.mask = ~mask
    elif how == 2:
        from pysimulators import Tod
        x = Tod(y)
        x.mask = mask
    snap = m.tobytes()
    a, b = P.get_pTx_pT1(x, **kw)
    r = eq(a, want[0], 'back-projection') or eq(b, want[1], 'coverage')
    o = tuple(outlayout(sh, float, v, p['seed'] // 11) for v in (2., 5.))
    P.get_pTx_pT1(x, out=o, **kw)
    r = r or eq(o[0], want[0] + 2, 'accumulated back-projection') or eq(o[1], want[1] + 5, 'accumulated coverage')
    if m.tobytes() != snap:
        return 'the pointing matrix is modified'
    return r


@case(['C07'], 'pmatrix-apply-mask', gen)
def _(p):
    """masked samples are no longer projected"""
    O = ops()
    m = relaid(build(p), p['lay'])
    P = O.ProjectionInMemoryOperator(m)
    D = dense(m)
    rng = np.random.default_rng(p['seed'] + 1)
    mask = rng.random(m.shape[:-1]) < .4
    x = ints(rng, m.shape_input)
    P.apply_mask(layout(mask, p['seed'] // 3))
    return eq(P(x), ((D @ x.ravel()) * ~mask.ravel()).reshape(mask.shape), 'P x after apply_mask')


@case(['C07'], 'pmatrix-on-fly', gen)
def _(p):
    """operators sharing a place holder each use their own pointing matrix"""
    O = ops()
    ms = [build(dict(p, seed=p['seed'] + k, np=(p['np'], p['np'] + k, (p['np'] + 2 * k) % 3)[p['seed'] % 3])) for k in range(3)]
    hold, calls = {}, []

    def func(i):
        calls.append(i)
        return ms[i]
    ids = [0, 1, 2]
    if p['seed'] % 2:
        hold['matrix'], hold['id'] = None, None
    P = [O.ProjectionOnFlyOperator(hold, i, func, shapein=ms[0].shape_input, shapeout=ms[0].shape[:-1]) for i in ids]
    rng = np.random.default_rng(p['seed'] + 1)
    x, y = ints(rng, ms[0].shape_input), ints(rng, ms[0].shape[:-1])
    for i in (0, 1, 0, 2, 2, 1):
        D = dense(ms[i])
        r = eq(P[i](x), (D @ x.ravel()).reshape(y.shape), 'P%d x' % i) or eq(P[i].T(y), (D.T @ y.ravel()).reshape(x.shape), 'P%d.T y' % i)
        if r:
            return r


@case(['C08', 'C10', 'C11'], 'pmatrix-mask', gen)
def _(p):
    """get_mask clears exactly the pixels seen with a non-zero weight"""
    m = relaid(build(p), p['lay'])
    n = int(np.prod(m.shape_input))
    seen = np.zeros(n, bool)
    for row in np.array(m.view(np.ndarray)).reshape(-1, m.shape[-1]) if m.size else []:
        for e in row:
            if e['index'] == -1:
                break
            if e['value'] != 0:
                seen[e['index']] = True
    want = ~seen.reshape(m.shape_input)
    snap = m.tobytes()
    r = eq(m.get_mask(), want, 'get_mask()')
    rng = np.random.default_rng(p['seed'] + 1)
    old = rng.random(m.shape_input) < .5
    out = outlayout(m.shape_input, bool, False, p['seed'] // 3)
    out[...] = old
    m.get_mask(out)
    r = r or eq(out, want & old, 'get_mask(out)')
    P = ops().ProjectionInMemoryOperator(m)
    r = r or eq(P.get_mask(), want, 'operator get_mask()')
    if m.tobytes() != snap:
        return 'the pointing matrix is modified'
    return r


@case(['C08', 'C11'], 'pmatrix-valid', gen)
def _(p):
    """isvalid accepts exactly the indices -1 and those inside the map"""
    m = build(p)
    n = int(np.prod(m.shape_input))
    rng = np.random.default_rng(p['seed'] + 1)
    a = m.view(np.ndarray)
    if m.size and p['seed'] % 3:
        bad = rng.choice([n, n + 1, -2, -3, -2 ** 31, 2 ** 31 - 1, n - 1, -1, 0])
        a['index'].flat[rng.integers(m.size)] = bad
        if p['seed'] % 5 == 0:
            a['index'].flat[-1] = n
        if p['seed'] % 7 == 0:
            a['index'].flat[0] = -2
    m = relaid(m, p['lay'])
    i = m.view(np.ndarray)['index']
    want = bool(np.all((i == -1) | ((i >= 0) & (i < n))))
    got = m.isvalid()
    if got is not want:
        return 'isvalid() is %r for indices %s and %d pixels' % (got, np.unique(i)[:20].tolist(), n)


@case(['C08', 'C10', 'C11'], 'pmatrix-pack', gen)
def _(p):
    """pack removes masked and zero-weight entries and ranks the other pixels"""
    m = build(p)
    if p['style'] in ('mix', 'dup', 'edge'):
        # nothing but missing entries after the first -1
        a = m.view(np.ndarray)
        gone = np.cumsum(a['index'] == -1, axis=-1) > 0
        a['index'][gone] = -1
    m = relaid(m, p['lay'])
    n = int(np.prod(m.shape_input))
    rng = np.random.default_rng(p['seed'] + 1)
    mask = (rng.random(n) < rng.choice([0., .4, .8, 1.])).reshape(m.shape_input)
    if p['seed'] % 4 == 0:
        mask = np.asarray(m.get_mask()).view(np.ndarray)
    rank = np.cumsum(~mask.ravel()) - 1
    a = np.array(m.view(np.ndarray))
    want = np.zeros(a.shape, a.dtype)
    want['index'] = -1
    if m.size:
        rows, outs = a.reshape(-1, m.shape[-1]), want.reshape(-1, m.shape[-1])
        for row, out in zip(rows, outs):
            k = 0
            for e in row:
                if e['index'] == -1:
                    break
                if e['value'] == 0 or mask.ravel()[e['index']]:
                    continue
                out[k] = (rank[e['index']], e['value'])
                k += 1
    snap = mask.copy()
    mask = layout(mask, p['seed'] // 3)
    m.pack(mask)
    if not np.array_equal(snap, mask):
        return 'the mask is modified'
    got = np.array(m.view(np.ndarray))
    if not np.array_equal(got['index'], want['index']):
        b = tuple(int(i) for i in np.argwhere(got['index'] != want['index'])[0])
        return 'packed index %s is %d instead of %d (entries %s, mask %s)' % (b, got['index'][b], want['index'][b], a[b[:-1]].tolist()[:20], mask.astype(int).ravel().tolist()[:30])
    live = want['index'] >= 0
    if not np.array_equal(got['value'][live], want['value'][live]):
        return 'packing modifies the weights of the kept entries'
    if m.size and tuple(m.shape_input) != (int((~mask).sum()),):
        return 'shape_input is %s after packing to %d pixels' % (m.shape_input, (~mask).sum())
    if m.size and not m.isvalid():
        return 'packed matrix is not valid'


@case(['C08', 'C10', 'C11'], 'pmatrix-intersects', gen3)
def _(p):
    """intersects tells exactly which samples, which detectors see a pixel"""
    O = ops()
    m = build(dict(p, style={'mix': 'tail', 'dup': 'tail'}.get(p['style'], p['style'])))
    if p['style'] == 'edge':
        a = m.view(np.ndarray)
        a['index'][np.cumsum(a['index'] == -1, axis=-1) > 0] = -1
    m = relaid(m, p['lay'])
    if m.size == 0:
        return None
    P = O.ProjectionInMemoryOperator(m)
    n = int(np.prod(m.shape_input))
    idx = np.array(m.view(np.ndarray)['index'])
    rng = np.random.default_rng(p['seed'] + 1)
    for pix in set(int(v) for v in rng.integers(0, n, 4)) | {0, n - 1}:
        c = np.unravel_index(pix, m.shape_input)
        fits = tuple(int(v) + 1 for v in c[::-1])
        if len(fits) == 1 and p['seed'] % 2:
            fits = fits[0],
        see = idx == pix
        for ax, want in ((None, see.any()), (0, see.any((0, 2))), (-3, see.any((0, 2))), (1, see.any((1, 2))), (-2, see.any((1, 2)))):
            got = P.intersects(fits, axis=ax)
            if ax is None:
                if bool(got) != bool(want):
                    return 'intersects(%s) is %r' % (fits, got)
            else:
                r = eq(got, want, 'intersects(%s, axis=%s)' % (fits, ax))
                if r:
                    return r
        got = P.intersects(fits, f=fl().intersects_openmp2)
        if bool(got) != bool(see.any()):
            return 'intersects_openmp2(%s) is %r' % (fits, got)
