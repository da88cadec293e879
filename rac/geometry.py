"""Run-time checks of the plane geometry (C12, C13, C14, C15)."""
import math
import numpy as np
from fractions import Fraction as F
from vf.rac import case, RANDOM, layout, outlayout

# ----------------------------------------------------------------- exact reference


def shoelace(v):
    """twice the signed area"""
    s = F(0)
    for k in range(len(v)):
        (x1, y1), (x2, y2) = v[k - 1], v[k]
        s += x1 * y2 - y1 * x2
    return s


def clip(v, x0, x1, y0, y1):
    """clip a polygon against a box, one half-plane after the other (Sutherland and Hodgman)"""
    for axis, bound, sign in ((0, x0, 1), (0, x1, -1), (1, y0, 1), (1, y1, -1)):
        out = []
        for k in range(len(v)):
            a, b = v[k - 1], v[k]
            da, db = sign * (a[axis] - bound), sign * (b[axis] - bound)
            if da >= 0:
                out.append(a)
            if da < 0 < db or db < 0 < da:
                t = da / (da - db)
                out.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
        v = out
        if not v:
            break
    return v


def overlap(v, ix, iy):
    """area common to a polygon and to the pixel (ix, iy), exactly"""
    h = F(1, 2)
    return abs(shoelace(clip(v, ix - h, ix + h, iy - h, iy + h))) / 2


def exact(a):
    return [(F(float(x)), F(float(y))) for x, y in a]


def reference(v, nx, ny):
    """{pixel: area} of the pixels overlapped, and whether the polygon reaches outside the grid"""
    h = F(1, 2)
    xs, ys = [p[0] for p in v], [p[1] for p in v]
    outside = min(xs) < -h or max(xs) > nx - h or min(ys) < -h or max(ys) > ny - h
    areas = {}
    for iy in range(max(0, math.floor(min(ys) - h)), min(ny, math.ceil(max(ys) + h) + 1)):
        for ix in range(max(0, math.floor(min(xs) - h)), min(nx, math.ceil(max(xs) + h) + 1)):
            a = overlap(v, ix, iy)
            if a:
                areas[ix + iy * nx] = a
    return areas, outside


# ----------------------------------------------------------------- polygons

STYLES = ('box', 'square', 'tri', 'star', 'dyadic', 'tilted', 'regular', 'needle', 'far', 'big', 'degenerate', 'tip')


def polygon(rng, style, nv, nx, ny):
    """vertices of a simple polygon; all but the last styles have coordinates that are multiples of 1/8"""
    c = np.array([rng.integers(-1, nx + 1), rng.integers(-1, ny + 1)]) + rng.integers(-4, 5, 2) / 8.
    if style == 'tip':
        # the longest edge lies on a border of the pixels
        w, h = rng.integers(1, 12, 2) / 4.
        x, y = np.floor(c[0]) + .5, np.floor(c[1]) + .5
        v = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]])
    elif style == 'box':
        w, h = rng.integers(1, 20, 2) / 8.
        v = c + np.array([[0, 0], [w, 0], [w, h], [0, h]])
    elif style == 'square':
        s = rng.integers(1, 6) / 2.
        v = np.floor(c) + .5 * rng.integers(2) + np.array([[0, 0], [s, 0], [s, s], [0, s]])
    elif style == 'tri':
        v = c + rng.integers(-16, 17, (3, 2)) / 8.
    elif style in ('star', 'dyadic'):
        a = np.sort(rng.random(nv)) * 2 * np.pi
        r = 3 * rng.random(nv)
        v = c + np.array([r * np.cos(a), r * np.sin(a)]).T
        if style == 'dyadic':
            v = np.round(v * 8) / 8
    elif style == 'tilted':
        s = rng.integers(1, 8) / 4.
        v = c + s * np.array([[0, -1], [1, 0], [0, 1], [-1, 0]])
    elif style == 'regular':
        a = 2 * np.pi * np.arange(nv) / nv + rng.random()
        v = c + 2 * rng.random() * np.array([np.cos(a), np.sin(a)]).T
    elif style == 'needle':
        d = 4 * rng.standard_normal(2)
        v = c + np.array([[0, 0], d, d + 1e-3 * rng.standard_normal(2)])
    elif style == 'far':
        v = c + rng.choice([-1, 1], 2) * rng.integers(0, 40, 2) + np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
    elif style == 'big':
        v = np.array([[-3, -3], [nx + 2, -3], [nx + 2.25, ny + 2], [-3, ny + 2.]])
    else:
        v = np.array([c, c + 1, c, c + 1, c])[:nv]
    if len(v) < nv:
        k = int(rng.integers(len(v)))
        v = np.insert(v, k, np.repeat(v[k:k + 1], nv - len(v), 0), 0)
    v = v[:max(nv, 3)] if style not in ('box', 'square', 'tilted', 'far', 'big', 'tip') else v
    if rng.random() < .5:
        v = v[::-1]
    return np.roll(v, int(rng.integers(len(v))), 0)


def gen_grid(ctx):
    def one(**k):
        p = dict(nx=3, ny=2, n=3, nv=4, style='box', r=8, i=4, ncolmax=0, shape=0, lay=0, seed=ctx.newseed())
        p.update(k)
        return p
    for st in STYLES:
        for nv in (4, 3, 5, 8):
            for r in (8, 4):
                for i in (4, 8):
                    for nx, ny in ((1, 1), (3, 2), (2, 5)):
                        yield one(nx=nx, ny=ny, style=st, nv=nv, r=r, i=i, ncolmax=int(ctx.rng.integers(8)), lay=int(ctx.rng.integers(6)), shape=int(ctx.rng.integers(3)))
    for n in ctx.sizes(10):
        yield one(n=n, style='tilted', nx=4, ny=4)
        yield one(n=2, style='box', nx=max(n, 1), ny=3)
        yield one(n=2, style='box', nx=3, ny=max(n, 1))
        yield one(n=2, style='dyadic', nv=min(max(n, 3), 40))
        yield one(n=3, ncolmax=n)
    yield RANDOM
    r = ctx.rng
    while True:
        yield one(n=ctx.size(6, lo=1, cap=150), nx=ctx.size(6, lo=1, cap=300), ny=ctx.size(6, lo=1, cap=300), nv=ctx.size(7, lo=3, cap=40), style=str(r.choice(STYLES)),
                  r=int(r.choice([4, 8])), i=int(r.choice([4, 8])), ncolmax=int(r.choice([0, 0, 1, 3, 30])), lay=int(r.integers(6)), shape=int(r.integers(3)))


def polygons(p):
    rng = np.random.default_rng(p['seed'])
    nv = p['nv'] if p['style'] not in ('tri', 'needle') else max(p['nv'], 3)
    ps = [polygon(rng, p['style'], nv, p['nx'], p['ny']) for _ in range(p['n'])]
    m = max([len(v) for v in ps], default=4)
    a = np.array([np.concatenate([v, np.repeat(v[-1:], m - len(v), 0)]) for v in ps]).reshape(-1, m, 2)
    return a.astype('f%d' % p['r'])


def tolerance(p, v):
    scale = max(1., float(np.abs(v).max(initial=0)))
    return (1e-11 if p['r'] == 8 else 3e-5) * scale * v.shape[-2]


def is_exact(p):
    # multiples of 1/8 and slopes 0, 1, -1 or infinite: every operation of the code is exact
    return p['style'] in ('box', 'square', 'tilted', 'far', 'tip')


def check_rows(p, v, index, value, nx, ny, needed, outside, what):
    """compare the rows of a projection matrix with the exact overlaps"""
    tol = tolerance(p, v)
    maxn, anyout, near = 0, False, False
    for k in range(len(v)):
        areas, out = reference(exact(v[k]), nx, ny)
        anyout |= out
        for b, w in ((v[k][:, 0], nx), (v[k][:, 1], ny)):
            near |= bool(abs(float(b.min()) + .5) < 1e-4 or abs(float(b.max()) - w + .5) < 1e-4) and not is_exact(p)
        ind, val = index[k], value[k]
        n = int(np.argmax(ind == -1)) if (ind == -1).any() else len(ind)
        if np.any(ind[n:] != -1) or np.any(val[n:] != 0):
            return '%s: polygon %s: the row is not padded with -1 and zero: %s %s' % (what, v[k].tolist(), ind.tolist(), val.tolist())
        if np.any(np.diff(ind[:n]) <= 0):
            return '%s: polygon %s: the pixels are not listed once in raster order: %s' % (what, v[k].tolist(), ind[:n].tolist())
        got = dict(zip(ind[:n].tolist(), val[:n].tolist()))
        for q in set(got) | set(areas):
            a = float(areas.get(q, 0))
            if q in got and (got[q] < 0 or got[q] == 0) and is_exact(p):
                return '%s: weight %r' % (what, got[q])
            if abs(got.get(q, 0) - a) > tol or (is_exact(p) and (q in got) != (q in areas)):
                return '%s: polygon %s, pixel (%d, %d) of %dx%d: weight %r, the overlap is %r' % (
                    what, v[k].tolist(), q % nx, q // nx, nx, ny, got.get(q), a)
        maxn = max(maxn, n)
        if is_exact(p) and n != len(areas):
            return '%s: %d pixels listed, %d overlapped' % (what, n, len(areas))
    if needed is not None and needed != maxn:
        return '%s: %d pixels are said to be needed, %d are' % (what, needed, maxn)
    if not near and bool(outside) != anyout:
        return '%s: the out-of-grid flag is %r for %s on a grid of %dx%d' % (what, outside, v.tolist(), nx, ny)


@case(['C13', 'C12'], 'integration-operator', gen_grid)
def integration_operator(p):
    """the projection that integrates over polygons lists the overlapped pixels with their overlap"""
    from pysimulators import SceneGrid
    v = polygons(p)
    if not v.size:
        return None
    shape = ((len(v),), (1, len(v)), (len(v), 1))[p['shape'] % 3]
    if p['shape'] == 0 and len(v) == 1:
        shape = ()
    arg = layout(v.reshape(shape + v.shape[1:]), p['lay'])
    b0 = np.array(arg)
    s = SceneGrid((p['ny'], p['nx']))
    P = s.get_integration_operator(arg, ncolmax=p['ncolmax'], dtype=np.dtype('f%d' % p['r']), dtype_index=np.dtype('i%d' % p['i']))
    if not np.array_equal(b0, arg):
        return 'the argument is modified'
    d = P.matrix.data
    if d.dtype['index'] != np.dtype('i%d' % p['i']) or d['value'].dtype != np.dtype('f%d' % p['r']):
        return 'storage %s' % d.dtype
    if d.shape[0] != len(v) or P.shapein != (p['ny'], p['nx']) or P.shapeout != shape:
        return 'shapes %s %s %s' % (d.shape, P.shapein, P.shapeout)
    if d.shape[1] != max(p['ncolmax'], P.min_ncolmax):
        return 'the matrix has %d columns, %d needed, %d asked' % (d.shape[1], P.min_ncolmax, p['ncolmax'])
    value = d['value'].reshape(d['index'].shape)
    r = check_rows(p, v, d['index'], value, p['nx'], p['ny'], P.min_ncolmax, P.outside, 'get_integration_operator')
    if r:
        return r
    # a smaller number of columns asked changes nothing
    for nc in (0, max(P.min_ncolmax - 1, 0), P.min_ncolmax):
        Q = s.get_integration_operator(arg, ncolmax=nc, dtype=np.dtype('f%d' % p['r']), dtype_index=np.dtype('i%d' % p['i']))
        n = P.min_ncolmax
        if Q.min_ncolmax != n or Q.outside != P.outside or not np.array_equal(Q.matrix.data['index'], d['index'][:, :n]) \
                or not np.array_equal(Q.matrix.data['value'].reshape(len(v), n), value[:, :n]):
            return 'the projection with ncolmax=%d differs from that with ncolmax=%d' % (nc, p['ncolmax'])
    Q = s.get_integration_operator(arg.tolist())
    if np.dtype('f8') != Q.matrix.data['value'].dtype:
        return 'the default precision is not double'
    r = check_rows(dict(p, r=8), v.astype('f8'), Q.matrix.data['index'], Q.matrix.data['value'].reshape(Q.matrix.data['index'].shape), p['nx'], p['ny'], Q.min_ncolmax, Q.outside, 'get_integration_operator')
    if r:
        return r


@case(['C13', 'C12'], 'roi-pmatrix', gen_grid)
def roi_pmatrix(p):
    """roi2pmatrix_cartesian lists the overlapped pixels with their overlap"""
    from pysimulators._flib import pointingmatrix as flib
    p = dict(p, r=8)
    v = polygons(p)
    if not v.size:
        return None
    nx, ny, n = p['nx'], p['ny'], len(v)
    roi = np.zeros((n, 2, 2), np.int32)          # roi[k, min|max, x|y]
    roi[:, 0, :] = np.floor(v.min(axis=1) + .5)
    roi[:, 1, :] = np.ceil(v.max(axis=1) - .5)
    needed = None
    for nc in (p['ncolmax'], None):
        if nc is None:
            nc = needed
        if nc == 0:
            nc = 1
        m = np.zeros((n, nc), [('index', 'i4'), ('value', 'f4')])
        m['index'] = 77
        m['value'] = 99
        needed, out = flib.roi2pmatrix_cartesian(np.asfortranarray(roi.T), np.asfortranarray(v.T), nc, nx, ny, m.ravel().view('i8'))
        if nc >= needed:
            q = dict(p)
            tol = dict(q, r=4)
            r = check_rows(dict(p, r=4), v, m['index'], m['value'], nx, ny, needed, out, 'roi2pmatrix_cartesian')
            if r:
                return r
        else:
            first = m['index'].copy()
    if p['ncolmax'] and p['ncolmax'] < needed and not np.array_equal(first, m['index'][:, :p['ncolmax']]):
        return 'the pixels listed with too few columns are not the first ones'


# ----------------------------------------------------------------- C12: the unit pixel

def gen_unit(ctx):
    for st in STYLES:
        for nv in (3, 4, 5, 7):
            for r in (4, 8):
                yield dict(style=st, nv=nv, r=r, seed=ctx.newseed())
    yield RANDOM
    while True:
        yield dict(style=str(ctx.rng.choice(STYLES)), nv=ctx.size(7, lo=3, cap=60), r=int(ctx.rng.choice([4, 8])), seed=ctx.newseed())


@case('C12', 'unit-pixel', gen_unit)
def unit_pixel(p):
    """area common to a polygon and one pixel: exact, between 0 and 1, the same for the reversed polygon and additive"""
    from pysimulators._flib import projection as flib
    rng = np.random.default_rng(p['seed'])
    v = polygon(rng, p['style'], p['nv'], 1, 1).astype('f%d' % p['r'])

    def area(v):
        m = np.zeros(4 + p['r'], np.int8)
        f = getattr(flib, 'matrix_polygon_integration_i4_r%d' % p['r'])
        n, out = f(np.asfortranarray(v.reshape(1, -1, 2).T), 1, 1, m, 1)
        e = m.view([('index', 'i4'), ('value', 'f%d' % p['r'])])[0]
        if n == 0:
            return 0. if e['index'] == -1 and e['value'] == 0 else float('nan')
        return float(e['value']) if e['index'] == 0 else float('nan')
    tol = tolerance(p, v)
    got, want = area(v), float(overlap(exact(v), 0, 0))
    if not abs(got - want) <= tol:
        return 'polygon %s: the overlap with the pixel is %r, not %r' % (v.tolist(), got, want)
    if not 0 <= got <= 1 + tol:
        return 'overlap %r' % got
    for w, what in ((v[::-1], 'reversed'), (np.roll(v, 1, 0), 'rotated'), (np.concatenate([v, v[:1]]), 'closed'), (v[:, ::-1], 'transposed'), (-v, 'opposite')):
        if what == 'transposed' or what == 'opposite':
            want = float(overlap(exact(w), 0, 0))
        g = area(w)
        if not abs(g - want) <= tol:
            return 'polygon %s %s: the overlap with the pixel is %r, not %r' % (v.tolist(), what, g, want)


# ----------------------------------------------------------------- C14: surfaces

def gen_surface(ctx):
    def one(**k):
        p = dict(n=3, nv=4, shape=0, dt='f8', lay=0, out=-1, odt=None, style='int', seed=ctx.newseed())
        p.update(k)
        return p
    for nv in (1, 2, 3, 4, 5, 8):
        for sh in range(4):
            for dt in ('f8', 'f4', 'i4', 'i8', 'list', 'quantity'):
                for out in (-1, 0, 2):
                    yield one(nv=nv, shape=sh, dt=dt, out=out, lay=int(ctx.rng.integers(6)), style=str(ctx.rng.choice(['int', 'real'])))
    for k in ctx.sizes(12):
        yield one(n=k)
        yield one(n=2, nv=max(k, 1))
        yield one(n=k, shape=4)
        yield one(n=k, shape=5, out=int(ctx.rng.integers(-1, 3)))
    yield RANDOM
    r = ctx.rng
    while True:
        yield one(n=ctx.size(10, lo=0, cap=3000), nv=ctx.size(9, lo=1, cap=600), shape=int(r.integers(6)), dt=str(r.choice(['f8', 'f8', 'f4', 'i4', 'list'])), lay=int(r.integers(6)),
                  out=int(r.integers(-2, 5)), odt=[None, 'f4', 'f8'][int(r.integers(3))], style=str(r.choice(['int', 'real'])))


@case('C14', 'surface', gen_surface)
def surface(p):
    """the surface of polygons is their signed shoelace area"""
    from pysimulators.geometry import surface_simple_polygon
    rng = np.random.default_rng(p['seed'])
    n, nv = p['n'], p['nv']
    if p['style'] == 'int':
        v = rng.integers(-1000, 1000, (n, nv, 2)).astype(float)
    else:
        v = rng.standard_normal((n, nv, 2)) * 10. ** rng.integers(-6, 6)
    dt = p['dt'] if p['dt'] in ('f8', 'f4', 'i4', 'i8') else 'f8'
    v = v.astype(dt)
    d = max([k for k in range(1, n + 1) if n % k == 0 and k * k <= n], default=1)
    shape = ((n,), (1, n), (n, 1), () if n == 1 else (n, 1, 1), (d, n // d), (n // d, 1, d))[p['shape']]
    arg = v.reshape(shape + (nv, 2))
    if p['dt'] == 'list' and arg.size:
        arg = arg.tolist()
    elif p['dt'] == 'quantity' and False:
        pass
    elif arg.size:
        arg = layout(arg, p['lay'])
    b0 = np.array(arg)
    kw = {}
    if p['odt'] and p['out'] < 0:
        kw['dtype'] = np.dtype(p['odt'])
    if p['out'] >= 0:
        kw['out'] = outlayout(shape, p['odt'] or 'f8', 7, p['out']) if n and shape else np.full(shape, 7, p['odt'] or 'f8')
    got = surface_simple_polygon(arg, **kw)
    if not np.array_equal(b0, np.array(arg)):
        return 'the argument is modified'
    if 'out' in kw and shape and got is not kw['out']:
        return 'the output is not the one given'
    if 'out' in kw and not np.array_equal(kw['out'], got):
        return 'the output given is not set'
    if np.shape(got) != shape:
        return 'shape %s instead of %s' % (np.shape(got), shape)
    got = np.asarray(got, float).ravel()
    single = (p['odt'] == 'f4')
    for k in range(n):
        e = exact(v[k])
        s = shoelace(e) / 2
        if p['style'] == 'int' and not single:
            ok = F(float(got[k])) == s
        else:
            scale = float(max(abs(x) for q in e for x in q)) ** 2
            ok = abs(float(got[k]) - float(s)) <= (1e-13 * nv + (1e-6 if single else 0)) * scale * nv
        if not ok:
            return 'polygon %s: surface %r instead of %r' % (v[k].tolist(), float(got[k]), float(s))


# ----------------------------------------------------------------- C15: grids and rotations

def gen_layout(ctx):
    def one(**k):
        p = dict(m=3, n=2, spacing=1.5, ff=.25, xr=False, yr=False, angle=0., cx=0., cy=0., out=0, unit='', seed=ctx.newseed())
        p.update(k)
        return p
    for m, n in ((1, 1), (1, 2), (3, 2), (2, 5), (4, 4), (0, 3), (2, 0)):
        for xr in (False, True):
            for yr in (False, True):
                for a in (0., 90., 30., -45., 180., 400.):
                    for c in ((0., 0.), (3., -2.)):
                        yield one(m=m, n=n, xr=xr, yr=yr, angle=a, cx=c[0], cy=c[1], ff=float(ctx.rng.choice([0., .25, .5, 1.])), out=int(ctx.rng.integers(2)))
    for k in ctx.sizes(10):
        yield one(m=k, n=2)
        yield one(m=2, n=k)
    yield RANDOM
    r = ctx.rng
    while True:
        yield one(m=ctx.size(8, cap=400), n=ctx.size(8, cap=400), spacing=float(r.choice([1., .5, 1e-3, 40., 0., -1., r.random()])), ff=float(r.choice([0, 1, .25, r.random()])), xr=bool(r.integers(2)),
                  yr=bool(r.integers(2)), angle=float(r.choice([0, 90, 180, 270, -90, 45, r.random() * 720 - 360])), cx=float(r.choice([0, 1, -100, r.random()])), cy=float(r.choice([0, 1, 55, r.random()])),
                  out=int(r.integers(2)), unit=str(r.choice(['', 'm'])))


def rot(a, x, y):
    t = math.radians(a)
    if a % 90 == 0:
        c, s = ((1, 0), (0, 1), (-1, 0), (0, -1))[int(a // 90) % 4]
    else:
        c, s = math.cos(t), math.sin(t)
    return c * x - s * y, s * x + c * y


def ref_centres(p):
    m, n = p['m'], p['n']
    j, i = np.meshgrid(np.arange(n), np.arange(m))
    x = (j - (n - 1) / 2) * p['spacing']
    y = ((m - 1) / 2 - i) * p['spacing']
    return x, y


def place(p, x, y):
    if p['xr']:
        x = -x
    if p['yr']:
        y = -y
    x, y = rot(p['angle'], x, y)
    return np.stack([x + p['cx'], y + p['cy']], -1)


def ref_corners(p):
    x, y = ref_centres(p)
    h = p['spacing'] * math.sqrt(p['ff']) / 2
    s = np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]]) * h
    return place(p, x[..., None] + s[:, 0], y[..., None] + s[:, 1])


def close(p, got, want):
    scale = abs(p['spacing']) * (p['m'] + p['n'] + 1) + abs(p['cx']) + abs(p['cy']) + 1e-300
    return np.shape(got) == np.shape(want) and (np.size(got) == 0 or bool(np.max(np.abs(np.asarray(got) - want)) <= 1e-13 * scale))


@case('C15', 'grids', gen_layout)
def grids(p):
    """centres and corners of grids of detectors"""
    from pysimulators.geometry import create_grid, create_grid_squares
    kw = dict(xreflection=p['xr'], yreflection=p['yr'], center=(p['cx'], p['cy']), angle=p['angle'])
    shape = p['m'], p['n']
    for f, ref, tail, more in ((create_grid, place(p, *ref_centres(p)), (2,), {}), (create_grid_squares, ref_corners(p), (4, 2), {'filling_factor': p['ff']})):
        if p['out']:
            out = np.full(shape + tail, np.nan)
            got = f(shape, p['spacing'], out=out, **more, **kw)
            if got is not out:
                return '%s does not return the output given' % f.__name__
        else:
            got = f(shape, p['spacing'], **more, **kw)
        if not close(p, got, ref):
            return '%s%s: %s instead of %s' % (f.__name__, (shape, p['spacing'], more, kw), np.asarray(got).tolist(), ref.tolist())
        if f is create_grid_squares and not p['xr'] and not p['yr'] and p['spacing'] > 0 and p['ff'] > 0 and got.size:
            from pysimulators.geometry import surface_simple_polygon
            if np.any(surface_simple_polygon(got) <= 0):
                return 'the corners are not counter-clockwise'


@case('C15', 'layouts', gen_layout)
def layouts(p):
    """centres, corners, rows and columns of the detectors of a layout"""
    from pysimulators import LayoutGrid, LayoutGridSquares
    from pysimulators.quantities import Quantity
    shape = p['m'], p['n']
    if p['m'] * p['n'] == 0:
        return None
    rng = np.random.default_rng(p['seed'])
    kw = dict(xreflection=p['xr'], yreflection=p['yr'], origin=(p['cx'], p['cy']), angle=p['angle'], startswith1=bool(rng.integers(2)))
    sp = p['spacing']
    if p['unit']:
        sp = Quantity(sp, p['unit'])
        if rng.integers(2):
            kw['origin'] = Quantity((p['cx'], p['cy']), 'm').tounit('mm')
    idx = np.arange(p['m'] * p['n'])
    k = int(rng.integers(3))
    if k == 1:
        mask = rng.random(shape) < .6
        kw['selection'] = mask
        idx = np.flatnonzero(mask)
    elif k == 2:
        o = rng.permutation(p['m'] * p['n']).reshape(shape)
        kw['ordering'] = o
        idx = np.argsort(o.ravel())
    for cls, more in ((LayoutGrid, {}), (LayoutGridSquares, {'filling_factor': p['ff']})):
        t = cls(shape, sp, **more, **kw)
        c = place(p, *ref_centres(p)).reshape(-1, 2)[idx]
        if not close(p, np.asarray(t.center), c):
            return '%s: centres %s instead of %s' % (cls.__name__, np.asarray(t.center).tolist(), c.tolist())
        if p['unit'] and (getattr(t.center, 'unit', '') != p['unit']):
            return '%s: the centres have unit %r' % (cls.__name__, getattr(t.center, 'unit', ''))
        if cls is LayoutGridSquares:
            v = ref_corners(p).reshape(-1, 4, 2)[idx]
            if not close(p, np.asarray(t.vertex), v):
                return '%s: corners %s instead of %s' % (cls.__name__, np.asarray(t.vertex).tolist(), v.tolist())
        if not np.array_equal(t.column, idx % p['n'] + kw['startswith1']) or not np.array_equal(t.row, idx // p['n'] + kw['startswith1']):
            return '%s: rows %s and columns %s of %s' % (cls.__name__, t.row, t.column, idx)
        full = np.full((p['m'] * p['n'], 2), np.nan)
        full[idx] = c
        a = np.asarray(t.all.center)
        if a.shape != shape + (2,) or not np.array_equal(np.isnan(a.reshape(-1, 2)), np.isnan(full)) or not close(p, np.nan_to_num(a), np.nan_to_num(full.reshape(shape + (2,)))):
            return '%s: all.center is %s' % (cls.__name__, a.tolist())


def gen_rotate(ctx):
    DT = ('f8', 'f8', 'f4', 'f16', 'i4', 'list')
    for dt in ('f8', 'f4', 'f16', 'i8', 'list'):
        for lay in range(6):
            for shape in ([2], [1, 2], [3, 2], [2, 3, 2], [0, 2]):
                for a in (0., 30., 90., -100.):
                    yield dict(shape=shape, dt=dt, lay=lay, angle=a, seed=ctx.newseed())
    for k in ctx.sizes(8):
        yield dict(shape=[k, 2], dt='f8', lay=0, angle=20., seed=ctx.newseed())
    yield RANDOM
    r = ctx.rng
    while True:
        yield dict(shape=[ctx.size(9, cap=3000)] + [int(r.integers(1, 4))] * int(r.integers(2)) + [2], dt=str(r.choice(DT)), lay=int(r.integers(6)), angle=float(r.choice([0, 45, 90, 180, r.random() * 800 - 400])), seed=ctx.newseed())


@case('C15', 'rotate', gen_rotate)
def rotation(p):
    """plane rotations, in place and out of place"""
    from pysimulators.geometry import rotate
    rng = np.random.default_rng(p['seed'])
    dt = 'f8' if p['dt'] == 'list' else p['dt']
    x = (rng.standard_normal(p['shape']) * 100).astype(dt)
    x64 = x.astype(float)
    want = np.stack(rot(p['angle'], x64[..., 0], x64[..., 1]), -1)
    tol = (1e-12 if dt != 'f4' else 2e-5) * 300

    def bad(got):
        return np.shape(got) != want.shape or (want.size and not np.max(np.abs(np.asarray(got, float) - want)) <= tol)
    arg = x.tolist() if p['dt'] == 'list' and x.size else (layout(x, p['lay']) if x.size else x)
    b0 = np.array(arg)
    got = rotate(arg, p['angle'])
    if bad(got):
        return 'rotate(%s, %r) is %s instead of %s' % (x.tolist(), p['angle'], np.asarray(got).tolist(), want.tolist())
    if not np.array_equal(b0, np.array(arg)):
        return 'the argument is modified'
    if x.dtype.kind == 'f' and p['dt'] != 'list' and got.dtype != x.dtype:
        return 'the type becomes %s' % got.dtype
    if x.dtype.kind != 'f' or not x.size:
        return
    for k in range(5):
        out = outlayout(x.shape, x.dtype, 5, k)
        r = rotate(arg, p['angle'], out=out)
        if r is not out or bad(out):
            return 'rotate(out): %s instead of %s' % (out.tolist(), want.tolist())
        out[...] = x
        r = rotate(out, p['angle'], out=out)
        if r is not out or bad(out):
            return 'rotate in place: %s instead of %s' % (out.tolist(), want.tolist())
        out[...] = x
        rotate(out, p['angle'], out=out[...])
        if bad(out):
            return 'rotate in place, through another view: %s instead of %s' % (out.tolist(), want.tolist())
    n0, n1 = np.hypot(x64[..., 0], x64[..., 1]), np.hypot(*np.moveaxis(np.asarray(got, float), -1, 0))
    if np.any(np.abs(n0 - n1) > tol):
        return 'the lengths are not preserved'


def gen_shapes(ctx):
    for size in ([], [1], [3], [2, 2]):
        for a in (0., 30., 90.):
            for c in ((0., 0.), (1., -2.)):
                for n in (3, 4, 7):
                    yield dict(shape=size, angle=a, cx=c[0], cy=c[1], n=n, seed=ctx.newseed())
    yield RANDOM
    r = ctx.rng
    while True:
        yield dict(shape=[int(v) for v in r.integers(1, 5, r.integers(3))], angle=float(r.random() * 360), cx=float(r.random()), cy=float(r.random()), n=int(r.integers(3, 40)), seed=ctx.newseed())


@case('C15', 'squares-rectangles-polygons', gen_shapes)
def shapes(p):
    """squares, rectangles and regular polygons"""
    from pysimulators.geometry import create_square, create_rectangle, create_regular_polygon, create_circle
    rng = np.random.default_rng(p['seed'])
    size = rng.integers(0, 10, p['shape']) / 4.
    size2 = rng.integers(0, 10, tuple(p['shape']) + (2,)) / 4.
    s = np.array([[.5, .5], [-.5, .5], [-.5, -.5], [.5, -.5]])
    c = (p['cx'], p['cy'])

    def put(x, y):
        x, y = rot(p['angle'], x, y)
        return np.stack([x + c[0], y + c[1]], -1)
    for f, arg, want in ((create_square, size, put(size[..., None] * s[:, 0], size[..., None] * s[:, 1])),
                         (create_rectangle, size2, put(size2[..., None, 0] * s[:, 0], size2[..., None, 1] * s[:, 1]))):
        out = np.full(want.shape, np.nan)
        for kw in ({}, {'out': out}):
            got = f(arg, center=c, angle=p['angle'], **kw)
            if got.shape != want.shape or np.any(np.abs(got - want) > 1e-12):
                return '%s(%s, center=%s, angle=%s): %s instead of %s' % (f.__name__, arg.tolist(), c, p['angle'], got.tolist(), want.tolist())
    a = 2 * np.pi * np.arange(p['n']) / p['n'] + math.radians(p['angle'])
    want = size[..., None, None] * np.array([np.cos(a), np.sin(a)]).T + c
    got = create_regular_polygon(p['n'], size, center=c, angle=p['angle'])
    if got.shape != want.shape or np.any(np.abs(got - want) > 1e-12):
        return 'create_regular_polygon: %s instead of %s' % (got.tolist(), want.tolist())
    got = create_circle(size, center=c, n=p['n'])
    a -= math.radians(p['angle'])
    want = size[..., None, None] * np.array([np.cos(a), np.sin(a)]).T + c
    if got.shape != want.shape or np.any(np.abs(got - want) > 1e-12):
        return 'create_circle'
