"""Run-time checks of the averages and extrema of angles (C18)."""
import numpy as np
from fractions import Fraction
from vf.rac import case, RANDOM, layout


def gen(ctx):
    def one(**k):
        p = dict(n=3, width=90., centre=0., nan=0., turns=0, style='rand', dt='f8', lay=0, seed=ctx.newseed())
        p.update(k)
        return p
    for n in (0, 1, 2, 3, 7):
        for c in (0, 1, 44, 45, 89, 90, 91, 135, 179, 180, 181, 225, 269, 270, 271, 300, 315, 350, 359, 360):
            for w in (0, 1, 30, 90, 100, 135, 170, 179):
                for st in ('rand', 'ends', 'grid'):
                    yield one(n=n, centre=float(c), width=float(w), style=st)
    for w in (0, 90, 178):
        for nan in (.3, 1.):
            for turns in (0, 1, 3):
                for n in (1, 2, 5, 30):
                    for dt in ('f8', 'f4', 'list', '2d'):
                        yield one(n=n, centre=float(ctx.rng.integers(360)), width=float(w), nan=nan, turns=turns, dt=dt, lay=int(ctx.rng.integers(6)))
    for s in ctx.sizes(12):
        yield one(n=s, centre=float(ctx.rng.integers(360)), width=170.)
    yield RANDOM
    r = ctx.rng
    while True:
        yield one(n=ctx.size(20, cap=3000), centre=float(r.integers(0, 361)), width=float(r.choice([0, 1e-3, 1, 45, 90, 100, 150, 179])), nan=float(r.choice([0, 0, .3, 1])),
                  turns=int(r.integers(3)), style=str(r.choice(['rand', 'ends', 'grid'])), dt=str(r.choice(['f8', 'f8', 'f4', 'list', '2d'])), lay=int(r.integers(6)))


def angles(p):
    """unwrapped angles within a half-circle, and the values given (multiples of 1/8 degree are exact)"""
    rng = np.random.default_rng(p['seed'])
    n, w = p['n'], p['width']
    x = rng.random(n) * w - w / 2
    if p['style'] == 'ends' and n:
        x = np.where(rng.random(n) < .5, -w / 2, w / 2)
    x = np.round((x + p['centre']) * 8) / 8
    given = np.mod(x, 360) + 360 * rng.integers(-p['turns'], p['turns'] + 1, size=n)
    if p['style'] == 'grid':
        pass
    given = np.where(rng.random(n) < p['nan'], np.nan, given)
    return x, given


def pose(a, p):
    if p['dt'] == 'list':
        return a.tolist()
    if p['dt'] == '2d' and a.size % 2 == 0:
        a = a.reshape(2, -1)
    if p['dt'] == 'f4':
        a = a.astype('f4')
    return layout(a, p['lay']) if a.size else a


def circ(a, b):
    d = (a - b) % 360
    return min(d, 360 - d)


@case('C18', 'mean-degrees', gen)
def mean(p):
    """the mean of angles within a half-circle"""
    from pysimulators.wcsutils import mean_degrees
    x, g = angles(p)
    ok = g == g
    arg = pose(g, p)
    a0 = np.array(arg, float)
    got = mean_degrees(arg)
    if not np.array_equal(np.array(arg, float), a0, equal_nan=True):
        return 'the argument is modified'
    if not ok.any():
        return None if got != got else 'the mean of %s is %r, not missing' % (g.tolist(), got)
    want = float(sum(Fraction(v) for v in x[ok]) / int(ok.sum()))
    if not (circ(got, want) < 1e-8 and 0 <= got <= 360):
        return 'the mean of %s is %r instead of %r' % (g.tolist()[:30], got, want % 360)


@case('C18', 'minmax-degrees', gen)
def minmax(p):
    """the extrema of angles within a half-circle"""
    from pysimulators.wcsutils import minmax_degrees
    x, g = angles(p)
    ok = g == g
    arg = pose(g, p)
    a0 = np.array(arg, float)
    got = minmax_degrees(arg)
    if not np.array_equal(np.array(arg, float), a0, equal_nan=True):
        return 'the argument is modified'
    if not ok.any():
        return None if all(v != v for v in got) else 'the extrema of %s are %r, not missing' % (g.tolist(), got)
    want = float(x[ok].min()), float(x[ok].max())
    if not all(circ(a, b) < 1e-8 and 0 <= a <= 360 for a, b in zip(got, want)):
        return 'the extrema of %s are %r instead of %r' % (g.tolist()[:30], got, tuple(v % 360 for v in want))


def gen_real(ctx):
    yield dict(n=1, seed=0)
    yield RANDOM
    while True:
        yield dict(n=ctx.size(20, lo=1, cap=2000), seed=ctx.newseed())


@case('C18', 'degrees-real', gen_real)
def real(p):
    """angles that are not round numbers; full turns change nothing"""
    from pysimulators.wcsutils import mean_degrees, minmax_degrees
    rng = np.random.default_rng(p['seed'])
    w = rng.choice([1e-6, .1, 10, 100, 179])
    c = rng.choice([0., 1e-13, 180., 360., rng.random() * 360])
    x = c + (rng.random(p['n']) - .5) * w
    t = x + 360 * rng.integers(-4, 5, size=p['n'])
    for v in (x, t):
        m, (lo, hi) = mean_degrees(v), minmax_degrees(v)
        for got, want, what in ((m, x.mean(), 'mean'), (lo, x.min(), 'minimum'), (hi, x.max(), 'maximum')):
            if not (circ(got, want) < 1e-7 and 0 <= got <= 360):
                return 'the %s of %s is %r instead of %r' % (what, v.tolist()[:20], got, want % 360)
