"""Run-time checks of distance maps, Gaussians and radial profiles (C17)."""
import numpy as np
from vf.rac import case, RANDOM, layout, outlayout

EPS = {'f2': 2e-3, 'f4': 2e-6, 'f8': 1e-13, 'c16': 1e-13, 'i8': 1e-9}


def squares(shape, center, scale):
    """the scaled squared coordinates along each axis of an array (its last axis is x)"""
    n = len(shape)
    if center is None:
        center = [(s - 1) / 2 for s in shape[::-1]]
    if np.ndim(scale) == 0:
        scale = [scale] * n
    d = 0.
    for axis, s in enumerate(shape):
        x = (np.arange(s) - float(center[n - 1 - axis])) * float(scale[n - 1 - axis])
        d = d + (x ** 2).reshape([-1 if a == axis else 1 for a in range(n)])
    return d


def gen_d(ctx):
    def one(**k):
        p = dict(shape=[3, 4], center=None, scale=1., dt='f8', out=-1, sq=False, unit='', int_shape=False, seed=ctx.newseed())
        p.update(k)
        return p
    r = ctx.rng
    shapes = [[1], [5], [8], [1, 1], [1, 4], [4, 1], [3, 4], [5, 5], [2, 3, 4], [1, 2, 1], [2, 1, 2, 3], [0], [0, 3], [3, 0]]
    for sh in shapes:
        n = len(sh)
        for sq in (False, True):
            for c in (None, [0] * n, [-1.5] * n, [.5 + k for k in range(n)]):
                for sc in (1., -2., .25, [1. + k for k in range(n)]):
                    yield one(shape=sh, center=c, scale=sc, sq=sq)
            for dt in ('f4', 'f2', 'c16', 'i8'):
                if dt != 'i8' or n < 3:
                    yield one(shape=sh, dt=dt, sq=sq, center=[1] * n, scale=[1. + k for k in range(n)])
            for out in range(5):
                if 0 not in sh:
                    yield one(shape=sh, out=out, sq=sq, center=[0] * n, scale=2.)
                    yield one(shape=sh, out=out, sq=sq, dt='f4')
            yield one(shape=sh, unit='m', scale=3., sq=sq)
            yield one(shape=sh, unit='m', scale=[1. + k for k in range(n)], sq=sq)
    for s in ctx.sizes(8):
        yield one(shape=[s], int_shape=True, center=[.5])
        yield one(shape=[s, 3], center=[.5, 2])
        yield one(shape=[2, s], sq=True)
    yield RANDOM
    while True:
        n = int(r.choice([1, 2, 2, 2, 3, 4]))
        sh = [ctx.size(8 if n < 3 else 4, lo=1, cap=200 if n < 3 else 12) for _ in range(n)]
        yield one(shape=sh, center=None if r.random() < .3 else [int(v) / 4 for v in r.integers(-20, 60, n)],
                  scale=float(r.choice([1., 3., -.5])) if r.random() < .5 else [int(v) / 4 for v in r.integers(-9, 9, n)],
                  dt=str(r.choice(['f8', 'f8', 'f4', 'f2'])), out=int(r.integers(-3, 5)), sq=bool(r.integers(2)), unit=str(r.choice(['', '', 'm'])))


@case('C17', 'distance-maps', gen_d)
def run_d(p):
    """distance and distance2 against their definition"""
    from pysimulators import distance, Quantity
    from pysimulators.datautils import distance2
    sh, dt = tuple(p['shape']), p['dt']
    scale = p['scale']
    if p['unit']:
        scale = Quantity(scale, p['unit'])
    k = dict(scale=scale)
    if p['center'] is not None:
        k['center'] = p['center']
    ref = squares(sh, p['center'], p['scale'])
    if not p['sq']:
        ref = np.sqrt(ref)
    if dt == 'f2' and (ref > 6e4).any():
        return
    if dt == 'i8':
        if (np.abs(ref - np.round(ref)) < 1e-9).any():
            r0 = np.round(ref)
            ref = np.where(np.abs(ref - r0) < 1e-9, r0, np.floor(ref))
        else:
            ref = np.floor(ref)
    out = None
    if p['out'] >= 0:
        out = k['out'] = outlayout(sh, dt, -7, p['out'])
    else:
        k['dtype'] = np.dtype(dt)
    f = distance2 if p['sq'] else distance
    got = f(sh[0] if p['int_shape'] else sh, **k)
    name = 'distance2' if p['sq'] else 'distance'
    if got.shape != sh or got.dtype != np.dtype(dt):
        return f'{name}: map of shape {got.shape} and type {got.dtype}'
    if p['unit'] and got.unit != p['unit']:
        return f'{name}: unit {got.unit!r}'
    g = np.asarray(got)
    tol = EPS[dt] * (np.abs(ref) + (8 if dt == 'i8' else 0)) + 1e-300
    big = squares(sh, p['center'], np.abs(p['scale']))
    tol = tol + EPS[dt] * (big.max(initial=0) if p['sq'] else np.sqrt(big.max(initial=0))) * (dt != 'i8')
    if not (np.abs(g - ref) <= tol).all():
        return f'{name}({sh}, {k}): {g.tolist()} instead of {ref.tolist()}'
    if out is not None and not (np.abs(np.asarray(out) - ref) <= tol).all():
        return f'{name}: the output holds {np.asarray(out).tolist()} instead of {ref.tolist()}'


def gen_g(ctx):
    def one(**k):
        p = dict(shape=[3, 4], center=None, sigma=1.5, fwhm=False, dt='f8', what='gaussian')
        p.update(k)
        return p
    r = ctx.rng
    for sh in ([1, 1], [1, 5], [4, 1], [3, 4], [7, 7], [5], [1], [2, 3, 4]):
        n = len(sh)
        for c in (None, [0] * n, [1.25 + k for k in range(n)]):
            for s in (.5, 1., 3., [1. + k for k in range(n)]):
                for fw in (False, True):
                    for dt in ('f8', 'f4'):
                        yield one(shape=sh, center=c, sigma=s, fwhm=fw, dt=dt)
    for what in ('airy-fwhm', 'airy-r0', 'aperture'):
        for sh in ([1, 1], [3, 4], [8, 5]):
            for c in (None, [0, 0], [1.25, 2.5]):
                for s in (1., 3.):
                    yield one(shape=sh, center=c, sigma=s, what=what)
    yield RANDOM
    while True:
        n = int(r.choice([1, 2, 2, 2, 3]))
        what = str(r.choice(['gaussian', 'gaussian', 'airy-fwhm', 'airy-r0', 'aperture']))
        if what != 'gaussian':
            n = 2
        sh = [ctx.size(9 if n < 3 else 4, lo=1, cap=150 if n < 3 else 10) for _ in range(n)]
        yield one(shape=sh, center=None if r.random() < .3 else [int(v) / 4 for v in r.integers(-10, 40, n)],
                  sigma=int(r.integers(1, 40)) / 4 if what != 'gaussian' or r.random() < .5 else [int(v) / 4 for v in r.integers(1, 40, n)],
                  fwhm=bool(r.integers(2)), dt=str(r.choice(['f8', 'f4'])), what=what)


@case('C17', 'gaussian-maps', gen_g)
def run_g(p):
    """Gaussian, Airy and aperture maps against their definition"""
    from scipy.special import j1
    import pysimulators as ps
    sh, dt, s = tuple(p['shape']), p['dt'], p['sigma']
    k = dict(dtype=np.dtype(dt))
    if p['center'] is not None:
        k['center'] = p['center']
    eps = 1e-10 if dt == 'f8' else 3e-5
    if p['what'] == 'gaussian':
        n = len(sh)
        conv = np.sqrt(8 * np.log(2)) if p['fwhm'] else 1
        sv = np.broadcast_to(np.asarray(s, 'f8'), (n,)) / conv
        if p['fwhm']:
            k['fwhm'] = s
        else:
            k['sigma'] = s
        ref = np.exp(-squares(sh, p['center'], 1 / (np.sqrt(2) * sv)))
        ref = ref / ((2 * np.pi) ** (n / 2) * np.prod(sv))
        got = np.asarray(ps.gaussian(sh, **k))
        eps = eps * (1 + squares(sh, p['center'], 1 / sv))
        if n == 2 and got.dtype != np.dtype(dt):
            return f'Gaussian of type {got.dtype}'
    elif p['what'] == 'aperture':
        d = squares(sh, p['center'], 1.)
        if (np.abs(d - s * s / 4) < 1e-6).any() and p['dt'] != 'f8':
            return
        ref = (d <= s * s / 4).astype(float)
        got = np.asarray(ps.aperture_circular(sh, s, **k))
    else:
        u = np.sqrt(squares(sh, p['center'], 1.)) * (3.8317 / s if p['what'] == 'airy-r0' else 1.61633 / (s / 2))
        ref = np.where(u > 0, (2 * j1(np.where(u > 0, u, 1)) / np.where(u > 0, u, 1)) ** 2, 1.)
        ref = ref / ref.sum()
        got = np.asarray(ps.airy_disk(sh, **{'r0' if p['what'] == 'airy-r0' else 'fwhm': s}, **k))
        eps = eps * 10 * (1 + ref.max() / np.maximum(ref, 1e-300))
        if dt == 'f4':
            return
    if got.shape != sh:
        return f'{p["what"]}: map of shape {got.shape}'
    if not (np.abs(got - ref) <= eps * np.abs(ref) + 1e-37).all():
        return f'{p["what"]}({sh}, {s}): {got.tolist()} instead of {ref.tolist()}'


def gen_p(ctx):
    def one(**k):
        p = dict(shape=[5, 6], bin=1., nbins=None, center=None, scale=1., nan=0., dt='f8', lay=0, integrated=False, seed=ctx.newseed())
        p.update(k)
        return p
    r = ctx.rng
    for sh in ([1, 1], [1, 6], [6, 1], [5, 5], [6, 6], [4, 7]):
        for c in (None, [0, 0], [1.5, 2], [-3, 2]):
            for b in (1., .5, 2., 4.):
                for nb in (None, 1, 2, 9):
                    yield one(shape=sh, center=c, bin=b, nbins=nb)
        for nan in (.3, 1.):
            for integ in (False, True):
                for sc in (1., 2., .5):
                    yield one(shape=sh, nan=nan, scale=sc, integrated=integ, nbins=4)
        for dt in ('f4', 'i8', 'i4', 'list'):
            for lay in range(6):
                yield one(shape=sh, dt=dt, lay=lay)
    for s in ctx.sizes(8):
        yield one(shape=[max(1, s), 5], nbins=s)
    yield RANDOM
    while True:
        sh = [ctx.size(9, lo=1, cap=100), ctx.size(9, lo=1, cap=100)]
        yield one(shape=sh, bin=float(r.choice([.5, 1, 2, 4, .3, .7, 3])), nbins=None if r.random() < .3 else ctx.size(9, cap=60),
                  center=None if r.random() < .3 else [int(v) / 2 for v in r.integers(-6, 24, 2)], scale=float(r.choice([1, 1, 2, .5, 3])),
                  nan=float(r.choice([0, 0, .3, 1])), dt=str(r.choice(['f8', 'f8', 'f4', 'i8', 'list'])), lay=int(r.integers(6)), integrated=bool(r.random() < .2))


@case('C17', 'radial-profile', gen_p)
def run_p(p):
    """profile and integrated_profile against their definition"""
    from pysimulators import profile, integrated_profile
    rng = np.random.default_rng(p['seed'])
    sh = tuple(p['shape'])
    a = rng.integers(-20, 21, sh).astype(float)
    if p['dt'] in ('f8', 'f4', 'list'):
        a = a / 4 if p['seed'] % 3 else (a / 3 if p['dt'] != 'f4' else (a / 3).astype('f4').astype(float))
        a[rng.random(sh) < p['nan']] = np.nan
    x = layout(a.astype('f8' if p['dt'] == 'list' else p['dt']), p['lay'])
    keep = x.copy()
    b = p['bin']
    d = np.sqrt(squares(sh, p['center'], 1.)) * p['scale']
    q = d / b
    exact = all(v in (.25, .5, 1., 2., 4.) for v in (b, p['scale']))
    if not exact and (np.abs(q - np.round(q)) < 1e-5).any():
        return
    k = dict(bin=b, scale=p['scale'])
    if p['nbins'] is not None:
        k['nbins'] = p['nbins']
    if p['center'] is not None:
        k['center'] = p['center']
    arg = x.tolist() if p['dt'] == 'list' else x
    X, Y, N = profile(arg, histogram=True, **k)
    if not np.array_equal(x, keep, equal_nan=True):
        return 'profile modifies its input'
    nb = len(N)
    if p['nbins'] is not None and nb != p['nbins']:
        return f'{nb} bins instead of {p["nbins"]}'
    if p['nbins'] is None and exact:
        # up to the farthest edge of the image, along an axis
        c = p['center'] if p['center'] is not None else [(sh[1] - 1) / 2, (sh[0] - 1) / 2]
        far = int(max(sh[0] - c[1], c[1], sh[1] - c[0], c[0]) * p['scale'] / b)
        if nb != far:
            return f'{nb} bins instead of {far} to the farthest edge'
    valid = ~np.isnan(a)
    eps = 1e-10 if p['dt'] != 'f4' else 1e-4
    mx, my, mn = np.zeros(nb), np.full(nb, np.nan), np.zeros(nb, int)
    for i in range(nb):
        m = valid & (q >= i) & (q < i + 1)
        mn[i] = m.sum()
        if mn[i]:
            mx[i], my[i] = d[m].mean(), a[m].mean()
    if (N != mn).any():
        return f'counts {N.tolist()} instead of {mn.tolist()}'
    e = mn == 0
    if not np.isnan(Y[e]).all():
        return f'values of the empty bins: {Y.tolist()} instead of {my.tolist()}'
    if not np.allclose(Y[~e], my[~e], rtol=eps, atol=10 * eps):
        return f'values {Y.tolist()} instead of {my.tolist()}'
    if not np.allclose(X[~e], mx[~e], rtol=eps, atol=10 * eps):
        return f'distances {X.tolist()} instead of {mx.tolist()}'
    i = np.arange(nb)[e]
    if not ((X[e] >= i * b - eps) & (X[e] <= (i + 1) * b + eps)).all():
        return f'distances {X.tolist()} out of the bins that are empty'
    two = profile(arg, **k)
    if len(two) != 2 or not np.allclose(two[0], X, rtol=eps, atol=eps) or not np.allclose(two[1], Y, rtol=eps, atol=10 * eps, equal_nan=True):
        return 'the profile depends on whether the counts are asked for'
    if p['integrated']:
        x2, y2 = integrated_profile(arg, **k)
        want = np.cumsum(np.where(e, 0, my) * mn) * p['scale'] ** 2
        if not np.allclose(y2, want, rtol=eps, atol=eps * 100 * max(1, a.size)):
            return f'integrated profile {y2.tolist()} instead of {want.tolist()}'
