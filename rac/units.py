"""Run-time checks of the unit algebra (C22) and of the folding of noise spectra (C23)."""
import numpy as np
from fractions import Fraction
from vf.rac import case, RANDOM, layout


def Q():
    import pysimulators.quantities as q
    return q


NAMES = ['m', 's', 'kg', 'K', 'zork', 'blob', '?', '"', 'pixel_thing', 'Jy', 'detector']


def rnd_unit(rng, big=False):
    n = int(rng.choice([0, 1, 1, 2, 3, 5]))
    keys = [str(k) for k in rng.choice(NAMES[:4 if rng.random() < .6 else len(NAMES)], size=n, replace=False)] if n <= 4 else [str(k) for k in rng.choice(NAMES, size=n, replace=False)]
    u = {}
    for k in keys:
        e = int(rng.integers(-6, 7)) if rng.random() < .6 else int(rng.integers(-40, 41)) / 8 if not big else int(rng.integers(-900, 901))
        if e:
            u[k] = float(e) if rng.random() < .9 else int(e) if e == int(e) else float(e)
    return u


def near(rng, u):
    """a unit sharing exponents with another one, so that some cancel"""
    v = rnd_unit(rng)
    for k, e in u.items():
        r = rng.random()
        if r < .3:
            v[k] = e
        elif r < .6:
            v[k] = -e
    return v


def gen_units(ctx):
    yield dict(seed=0)
    yield RANDOM
    while True:
        yield dict(seed=ctx.newseed())


def F(u):
    return {k: Fraction(e) for k, e in u.items()}


def ref_combine(a, b, s):
    o = dict(F(a))
    for k, e in F(b).items():
        o[k] = o.get(k, 0) + s * e
    return {k: e for k, e in o.items() if e}


def ref_power(a, p):
    o = {k: e * Fraction(p) for k, e in F(a).items()}
    return {k: e for k, e in o.items() if e}


def cmp_unit(got, want, what):
    if not isinstance(got, dict):
        return '%s: %r is not a unit' % (what, got)
    z = [k for k, e in got.items() if e == 0]
    if z:
        return '%s: elementary unit %r is kept with exponent zero' % (what, z[0])
    if F(got) != want:
        return '%s: %r instead of %r' % (what, got, {k: float(e) for k, e in want.items()})


def bits(*us):
    return [list(u.items()) for u in us]


@case('C22', 'unit-dictionaries', gen_units)
def unit_dicts(p):
    """products, quotients and powers of unit dictionaries"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    u = rnd_unit(rng, rng.random() < .1)
    v = near(rng, u) if rng.random() < .7 else u if rng.random() < .2 else rnd_unit(rng)
    w = float(rng.choice([0, 1, -1, 2, 3, .5, -2, .25, 1.5, -3, 7, -0.0]))
    if rng.random() < .3:
        w = int(w) if w == int(w) else w
    b = bits(u, v)
    for f, want, what, args in ((q._multiply_unit, ref_combine(u, v, 1), 'product', (u, v)), (q._divide_unit, ref_combine(u, v, -1), 'quotient', (u, v)),
                                (q._power_unit, ref_power(u, w), 'power', (u, w))):
        got = f(*args)
        r = cmp_unit(got, want, '%s of %r and %r' % ((what,) + args))
        if r:
            return r
        if bits(u, v) != b:
            return '%s modified its operand' % what
        if got is u and what != 'power' or got is v:
            return '%s returns its operand itself' % what
        for k in list(got):
            got[k] = 99.
        got['new'] = 1
        if bits(u, v) != b:
            return 'the result of the %s shares the operand' % what
    m, d = q._multiply_unit, q._divide_unit
    for got, want, what in ((d(m(u, v), v), F(u), 'dividing undoes multiplying'), (m(d(u, v), v), F(u), 'multiplying undoes dividing'), (d(u, u), {}, 'a unit divided by itself'),
                            (m(u, q._power_unit(u, -1)), {}, 'a unit times its inverse')):
        r = cmp_unit(got, want, '%s (%r, %r)' % (what, u, v))
        if r:
            return r
    # in place: one elementary unit at a time
    x = {}
    for k, e in list(u.items()) + list(v.items()):
        x = q._multiply_unit_inplace(x, k, e)
    r = cmp_unit(x, ref_combine(u, v, 1), 'product, one elementary unit at a time, of %r and %r' % (u, v))
    if r:
        return r


def render(rng, u):
    """a string that denotes the unit: factors in any order, * or blanks or /, repeated factors"""
    items = []
    for k, e in u.items():
        if rng.random() < .3:
            a = float(rng.integers(-5, 6))
            items += [(k, a), (k, e - a)]
        else:
            items.append((k, e))
    if rng.random() < .1:
        items.append((str(rng.choice(NAMES)), 0))
    rng.shuffle(items)
    s = ''
    for n, (k, e) in enumerate(items):
        e = float(e)
        div = rng.random() < .4 and (n > 0 or rng.random() < .5)
        x = -e if div else e
        t = '' if x == 1 and rng.random() < .7 else '^%d' % x if x == int(x) else '^%r' % x
        if '.' not in t and t and rng.random() < .2:
            t += '.0'
        sep = '/' if div else '*' if n and rng.random() < .4 else ' ' if n else ''
        s += ' ' * int(rng.integers(2)) + sep + ' ' * int(rng.integers(2)) + k + t
    return ' ' * int(rng.integers(2)) + s


@case('C22', 'unit-strings', gen_units)
def unit_strings(p):
    """a string is read as the product of its factors, and the string of a unit is read back as that unit"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    u = rnd_unit(rng)
    s = render(rng, u)
    got = q._extract_unit(s)
    r = cmp_unit(got, F(u), 'unit %r' % s)
    if r:
        return r
    t = q._strunit(got)
    r = cmp_unit(q._extract_unit(t), F(u), 'unit %r written as %r' % (s, t))
    if r:
        return r
    a = q.Quantity(3., s)
    r = cmp_unit(a._unit, F(u), "Quantity(3., %r)" % s)
    if r:
        return r
    if q.Quantity(2., a.unit)._unit != a._unit:
        return 'Quantity(2., %r)' % a.unit


def quantity(rng, u, shape=None):
    q = Q()
    if shape is None:
        shape = [(), (3,), (2, 3)][rng.integers(3)]
    v = rng.integers(1, 9, size=shape).astype(float)
    if shape == () and rng.random() < .5:
        v = float(v)
    return q.Quantity(v, dict(u) if rng.random() < .5 else q._strunit(u))


@case('C22', 'quantity-algebra', gen_units)
def quantity_algebra(p):
    """the units of products, quotients and powers of quantities; operands are not modified"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    u = rnd_unit(rng)
    v = near(rng, u)
    sh = [(), (3,), (2, 3)][rng.integers(3)]
    a, b = quantity(rng, u, sh), quantity(rng, v, sh if rng.random() < .7 else ())
    a0, b0, da, db = np.array(a), np.array(b), bits(a._unit)[0], bits(b._unit)[0]
    w = float(rng.choice([1, -1, 2, 3, .5, -2, .25, 0]))
    A, B = F(u), F(v)
    prod, quo = ref_combine(u, v, 1), ref_combine(u, v, -1)
    todo = [('a * b', lambda: a * b, prod, a0 * b0), ('b * a', lambda: b * a, prod, a0 * b0), ('a / b', lambda: a / b, quo, a0 / b0),
            ('a ** %r' % w, lambda: a ** w, ref_power(u, w), a0 ** w), ('a * 2', lambda: a * 2, A, a0 * 2), ('2 * a', lambda: 2 * a, A, a0 * 2),
            ('a / 2', lambda: a / 2, A, a0 / 2), ('2 / a', lambda: 2 / a, ref_power(u, -1), 2 / a0), ('a / a', lambda: a / a, {}, a0 / a0),
            ('sqrt', lambda: np.sqrt(a), ref_power(u, Fraction(1, 2)), np.sqrt(a0)), ('square', lambda: np.square(a), ref_power(u, 2), a0 ** 2),
            ('reciprocal', lambda: np.reciprocal(a), ref_power(u, -1), 1 / a0), ('multiply', lambda: np.multiply(a, b), prod, a0 * b0),
            ('divide', lambda: np.divide(a, b), quo, a0 / b0), ('power', lambda: np.power(a, w), ref_power(u, w), a0 ** w),
            ('(a * b) / b', lambda: (a * b) / b, A, a0), ('outer', lambda: np.outer(a, b), prod, np.outer(a0, b0)), ('dot', lambda: np.dot(a.ravel(), a.ravel()), ref_power(u, 2), np.dot(a0.ravel(), a0.ravel())),
            ('floor_divide', lambda: a // b, quo, a0 // b0), ('a * array', lambda: a * np.asarray(a0), A, a0 * a0), ('var', lambda: np.var(a), ref_power(u, 2), np.var(a0)),
            ('a @ a', lambda: a.ravel() @ a.ravel(), ref_power(u, 2), a0.ravel() @ a0.ravel())]
    for what, f, unit, val in todo:
        c = f()
        cu = c._unit if isinstance(c, q.Quantity) else {}
        r = cmp_unit(cu, unit, '%s of %r and %r' % (what, u, v))
        if r:
            return r
        if np.shape(c) != np.shape(val) or not np.allclose(np.asarray(c), val, rtol=1e-12, atol=0):
            return '%s: %s instead of %s' % (what, np.asarray(c), val)
        if bits(a._unit)[0] != da or bits(b._unit)[0] != db or not np.array_equal(np.asarray(a), a0) or not np.array_equal(np.asarray(b), b0):
            return '%s modified its operand' % what


# ----------------------------------------------------------------- spectra

def gen_psd(ctx):
    for n in range(1, 12):
        for lead in ([], [1], [3], [2, 2], [0]):
            for dt in ('f8', 'f4', 'i8', 'list'):
                yield dict(n=n, lead=lead, dt=dt, lay=int(ctx.rng.integers(6)), seed=ctx.newseed())
    for s in ctx.sizes(12):
        if 1 <= s <= 5000:
            yield dict(n=s, lead=[], dt='f8', lay=0, seed=ctx.newseed())
            if s % 2 == 0 and s > 2:
                yield dict(n=s // 2, lead=[2], dt='f8', lay=0, seed=ctx.newseed())
    yield RANDOM
    r = ctx.rng
    while True:
        yield dict(n=ctx.size(40, lo=1, cap=3000), lead=[int(r.integers(1, 4)) for _ in range(int(r.integers(3)))], dt=str(r.choice(['f8', 'f4', 'i8', 'list'])), lay=int(r.integers(6)), seed=ctx.newseed())


def spec(p, n):
    rng = np.random.default_rng(p['seed'])
    x = rng.integers(0, 1 << 12, size=tuple(p['lead']) + (n,))
    return x


def given(x, p):
    if p['dt'] == 'list':
        return x.tolist()
    x = x.astype(p['dt'])
    return layout(x, p['lay']) if x.size else x


@case('C23', 'fold-unfold-psd', gen_psd)
def fold(p):
    """folding keeps the power and the end values; unfolding gives back the symmetric spectrum, and conversely"""
    import pysimulators.noises as no
    n = p['n']                      # the spectra have 2n and n + 1 frequencies
    one = spec(p, n + 1)
    if n + 1 >= 2 and 0 not in p['lead']:
        g = given(one, p)
        g0 = np.array(g, float)
        two = no._unfold_psd(g)
        e = np.zeros(tuple(p['lead']) + (2 * n,))
        e[..., 0] = one[..., 0]
        e[..., n] = one[..., n]
        for i in range(1, n):
            e[..., i] = e[..., 2 * n - i] = one[..., i] / 2
        if two.shape != e.shape or not np.array_equal(two, e):
            return 'unfolding %s: %s instead of %s' % (one.tolist(), np.asarray(two).tolist(), e.tolist())
        if not np.array_equal(np.array(g, float), g0):
            return 'unfolding modified its argument'
        back = no._fold_psd(two)
        if back.shape != one.shape or not np.array_equal(back, one):
            return 'unfolding then folding %s gives %s' % (one.tolist(), np.asarray(back).tolist())
    x = spec(dict(p, seed=p['seed'] + 1), 2 * n)
    sym = x.copy()
    for i in range(1, n):
        sym[..., 2 * n - i] = sym[..., i]
    if 0 in p['lead']:
        return None
    g = given(sym, p)
    g0 = np.array(g, float)
    f = no._fold_psd(g)
    e = np.zeros(tuple(p['lead']) + (n + 1,))
    e[...] = 2. * sym[..., :n + 1]
    e[..., 0], e[..., n] = sym[..., 0], sym[..., n]
    if f.shape != e.shape or not np.array_equal(f, e):
        return 'folding %s: %s instead of %s' % (sym.tolist(), np.asarray(f).tolist(), e.tolist())
    if not np.array_equal(np.sum(f, -1), np.sum(sym, -1)):
        return 'folding %s loses power' % sym.tolist()
    if not np.array_equal(np.array(g, float), g0):
        return 'folding modified its argument'
    u = no._unfold_psd(f)
    if u.shape != sym.shape or not np.array_equal(u, sym):
        return 'folding then unfolding %s gives %s' % (sym.tolist(), np.asarray(u).tolist())


@case('C23', 'psd-1f', gen_psd)
def psd1f(p):
    """the one-sided 1/f spectrum is the folded two-sided one, with the same total power"""
    import pysimulators.noises as no
    n = 2 * p['n']
    rng = np.random.default_rng(p['seed'])
    fs, sigma, fk, sl = 10., float(rng.integers(1, 5)), float(rng.integers(0, 4)), float(rng.integers(1, 3))
    if p['lead'] and 0 not in p['lead']:
        sigma = rng.integers(1, 5, size=p['lead']).astype(float)
    two = no._gaussian_psd_1f(n, fs, sigma, fk, sl, twosided=True)
    one = no._gaussian_psd_1f(n, fs, sigma, fk, sl)
    if one.shape[-1] != n // 2 + 1 or two.shape[-1] != n:
        return 'shapes %s, %s' % (one.shape, two.shape)
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    s2 = np.asarray(sigma)[..., None] ** 2
    want = s2 * (1 + np.array([0 if x == 0 else (fk / x) ** sl for x in f])) / fs
    if not np.allclose(two, want, rtol=1e-12):
        return 'two-sided spectrum of %d samples: %s instead of %s' % (n, two, want)
    if not np.allclose(one.sum(-1), two.sum(-1), rtol=1e-12):
        return 'the one-sided spectrum has the power %s, the two-sided one %s' % (one.sum(-1), two.sum(-1))
    if not np.allclose(no._unfold_psd(one), two, rtol=1e-12):
        return 'unfolding the one-sided spectrum does not give the two-sided one'


# ---------------------------------------------------- conversions and mixed units

# every unit in elementary ones, independently of the tables of the package
BASE = {k: (Fraction(1), {k: 1}) for k in ('A', 'cd', 'K', 'kg', 'm', 'mol', 's')}


def _derive(name, f, s):
    u = {}
    for k, e in s.items():
        g, b = BASE[k]
        f = f * g ** e
        for x, y in b.items():
            u[x] = u.get(x, 0) + e * y
    BASE[name] = (f, {k: e for k, e in u.items() if e})


for _n, _f, _s in [('N', 1, {'kg': 1, 'm': 1, 's': -2}), ('Hz', 1, {'s': -1}), ('J', 1, {'N': 1, 'm': 1}), ('W', 1, {'J': 1, 's': -1}),
                   ('Jy', Fraction(1, 10 ** 26), {'W': 1, 'Hz': -1, 'm': -2}), ('uJy', Fraction(1, 10 ** 6), {'Jy': 1}), ('mJy', Fraction(1, 1000), {'Jy': 1}),
                   ('MJy', 10 ** 6, {'Jy': 1}), ('AU', 149597870700, {'m': 1}), ('km', 1000, {'m': 1}), ('mm', Fraction(1, 1000), {'m': 1}),
                   ('um', Fraction(1, 10 ** 6), {'m': 1}), ('pc', 30857 * 10 ** 12, {'m': 1}), ('Pa', 1, {'N': 1, 'm': -2}), ('atm', 101325, {'Pa': 1}),
                   ('bar', 10 ** 5, {'Pa': 1}), ('mmHg', Fraction(1, 760), {'atm': 1}), ('cmHg', 10, {'mmHg': 1}), ('Torr', 1, {'mmHg': 1}), ('C', 1, {'A': 1, 's': 1}),
                   ('V', 1, {'W': 1, 'A': -1}), ('Ohm', 1, {'V': 1, 'A': -1}), ('ms', Fraction(1, 1000), {'s': 1}), ('us', Fraction(1, 10 ** 6), {'s': 1})]:
    _derive(_n, Fraction(_f), _s)
ANGLES = {'rad': 1., 'deg': np.pi / 180, 'arcmin': np.pi / 180 / 60, 'arcsec': np.pi / 180 / 3600, "'": np.pi / 180 / 60, '"': np.pi / 180 / 3600}
EXPS = (1, 1, 1, -1, -1, 2, -2, 3, Fraction(1, 2))


def physical(u):
    """(factor, elementary unit) of a unit"""
    f, b = 1., {}
    for k, e in u.items():
        e = Fraction(e)
        if k in ANGLES:
            f *= ANGLES[k] ** float(e)
            k, e = ('sr', e / 2) if abs(e) == 2 else ('rad', e)
            b[k] = b.get(k, 0) + e
            continue
        g, s = BASE.get(k, (Fraction(1), {k: 1}))
        f *= float(g ** int(e) if e == int(e) else float(g) ** float(e))
        for x, y in s.items():
            b[x] = b.get(x, 0) + e * y
    return f, {k: e for k, e in b.items() if e}


def alike(rng, u):
    """a compatible unit: each factor is replaced by another one of the same kind, or developed"""
    v = {}
    for k, e in u.items():
        if k in ANGLES:
            c = [x for x in ANGLES]
            if abs(e) == 2 and rng.random() < .3:
                v['sr'] = v.get('sr', 0) + e / 2
                continue
        else:
            s = BASE[k][1] if k in BASE else None
            c = [x for x in BASE if BASE[x][1] == s] if s is not None else [k]
            if s and rng.random() < .3:
                for x, y in s.items():
                    v[x] = v.get(x, 0) + e * y
                continue
        k = c[rng.integers(len(c))]
        v[k] = v.get(k, 0) + e
    return {k: float(e) for k, e in v.items() if e}


def whole(rng):
    """a unit made of units of the table, with an angle at most"""
    names = list(BASE) + ['zork', 'blob']
    n = int(rng.choice([1, 1, 1, 2, 2, 3]))
    u = {str(k): float(rng.choice([float(e) for e in EXPS])) for k in rng.choice(names, n, replace=False)}
    if rng.random() < .25:
        u[str(rng.choice(list(ANGLES)))] = float(rng.choice([1, -1, 2, -2]))
    return u


def angle_sound(u):
    """powers of one angle only: rad^2 is written sr"""
    return sum(k in ANGLES or k == 'sr' for k in u) < 2


def numbers(rng, shape):
    v = rng.integers(-40, 41, shape) / 4
    return v if shape != () else float(v)


def value(c):
    return np.array(c, dtype=float, copy=True)


def unit_of(c):
    return c._unit if isinstance(c, Q().Quantity) else {}


def close(got, want, scale=0.):
    g, w = np.asarray(got, float), np.asarray(want, float)
    return g.shape == w.shape and bool((np.abs(g - w) <= 2e-11 * (np.abs(w) + scale)).all())


@case('C26', 'conversion', gen_units)
def conversion(p):
    """SI, tounit and inunit keep the physical value; incompatible units are refused"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    u = whole(rng)
    w = alike(rng, u)
    if not angle_sound(u) or not angle_sound(w):
        return
    fu, bu = physical(u)
    fw, bw = physical(w)
    if bu != bw or not w:
        return
    sh = [(), (3,), (2, 3), (0,), (1,)][rng.integers(5)]
    x = numbers(rng, sh)
    a = q.Quantity(x, dict(u) if rng.random() < .5 else q._strunit(u))
    au = dict(a._unit)
    si = a.SI
    got = F(si._unit)
    if got != {k: Fraction(e) for k, e in bu.items()}:
        return 'SI of %r has the unit %r instead of %r' % (u, si._unit, {k: float(e) for k, e in bu.items()})
    if not close(si, np.asarray(x) * fu):
        return 'SI of %s %r is %s instead of %s' % (x, u, np.asarray(si), np.asarray(x) * fu)
    s = q._strunit(w) if rng.random() < .6 else dict(w)
    c = a.tounit(s)
    want = np.asarray(x) * (fu / fw)
    if F(c._unit) != F(w):
        return 'tounit(%r) gives the unit %r' % (s, c._unit)
    if not close(c, want):
        return '%s %r in %r is %s instead of %s' % (x, u, w, np.asarray(c), want)
    if not np.array_equal(np.asarray(a), x) or a._unit != au:
        return 'tounit modifies the quantity'
    back = c.tounit(q._strunit(u))
    if not close(back, x) or F(back._unit) != F(u):
        return 'there and back: %s %r instead of %s %r' % (np.asarray(back), back._unit, x, u)
    b = q.Quantity(x, dict(u))
    if b.inunit(s) is not None or not close(b, want) or F(b._unit) != F(w):
        return 'inunit(%r): %s %r instead of %s' % (s, np.asarray(b), b._unit, want)
    # without unit: the value is kept
    d = a.tounit('')
    e = q.Quantity(x).tounit(s)
    if d._unit or not np.array_equal(np.asarray(d), x) or F(e._unit) != F(w) or not np.array_equal(np.asarray(e), x):
        return 'setting or removing the unit changes the value'
    # refusals
    v = dict(w)
    k = ['m', 's', 'kg', 'zork', 'K'][rng.integers(5)]
    v[k] = v.get(k, 0.) + [1., -1., 2.][rng.integers(3)]
    v = {k: e for k, e in v.items() if e}
    if not v:
        return
    for f in (a.tounit, a.inunit):
        try:
            f(dict(v))
        except q.UnitError:
            pass
        else:
            return '%r is converted into %r' % (u, v)
    if not np.array_equal(np.asarray(a), x) or a._unit != au:
        return 'a refused conversion modifies the quantity'


def local_units(p):
    """units given with the quantity, with one value or one value per row or column"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    sh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    x = numbers(rng, sh)
    kind = ['', '[leftward]', '[rightward]'][rng.integers(3)]
    n = () if not kind else sh if rng.random() < .3 else (sh[1],) if kind == '[leftward]' else (sh[0],)
    area = rng.integers(1, 9, n) / 2. if n else float(rng.integers(1, 9)) / 2
    if n and rng.random() < .3:
        given = lambda i: q.Quantity(area, 'km^2')
    else:
        given = q.Quantity(area, 'km^2')
    e = [1, -1, 2][rng.integers(3)]
    a = q.Quantity(x, {'thing': float(e), 's': -1.}, derived_units={'thing' + kind: given})
    f = np.asarray(area, float) ** e
    if kind == '[rightward]' and n == (sh[0],):
        f = f[:, None]
    f = f * np.ones(sh)
    to = {'m': 2. * e, 's': -1.}
    for what, c, want, unit in (('SI', a.SI, x * f * 1e6 ** e, to), ('tounit', a.tounit({'km': 2. * e, 'ms': -1.}), x * f / 1000, {'km': 2. * e, 'ms': -1.})):
        if F(c._unit) != F(unit) or not close(c, want):
            return '%s with %s %s of %s km^2: %s %r instead of %s %r' % (what, sh, 'thing' + kind, area, np.asarray(c), c._unit, want, unit)
    back = a.SI.tounit({'thing': float(e), 's': -1.})
    if not close(back, x):
        return 'there and back with thing%s: %s instead of %s' % (kind, np.asarray(back), x)
    if not np.array_equal(np.asarray(a), x) or a._unit != {'thing': float(e), 's': -1.}:
        return 'the conversion modifies the quantity'


case('C26', 'local-units', gen_units)(local_units)


def mixed_units(p):
    """sums, differences, extrema, remainders and comparisons of quantities in different units, and reductions"""
    q = Q()
    rng = np.random.default_rng(p['seed'])
    u = whole(rng)
    w = alike(rng, u)
    if not angle_sound(u) or not angle_sound(w):
        return
    (fu, bu), (fw, bw) = physical(u), physical(w)
    if bu != bw or not w:
        return
    sh = [(), (3,), (2, 3)][rng.integers(3)]
    sb = sh if rng.random() < .7 else () if rng.random() < .5 else sh[-1:]
    x, y = numbers(rng, sh), numbers(rng, sb)
    r = fw / fu                     # of one w in u
    a = q.Quantity(x, dict(u))
    how = rng.random()
    if how < .7:
        b = q.Quantity(np.asarray(y) / r, dict(w))
    elif how < .8:
        b = q.Quantity(y)           # without unit: taken in the unit of the other
    else:
        b = y
    X, Y = np.asarray(x, float), np.asarray(y, float)
    a0, b0, ua, ub = value(a), value(b), dict(unit_of(a)), dict(unit_of(b))
    sc = np.abs(X).max(initial=1) + np.abs(Y).max(initial=1)
    ex = lambda f, g: [('a, b', f, g(X, Y), u), ('b, a', lambda: f(b, a), g(Y, X), unit_of(b) or u)]
    todo = []
    for n in ('add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot'):
        fn = getattr(np, n)
        todo += [(n, lambda fn=fn: fn(a, b), fn(X, Y), u), (n + ' swapped', lambda fn=fn: fn(b, a), fn(Y, X), ub or u)]
    todo += [('a + b', lambda: a + b, X + Y, u), ('b + a', lambda: b + a, X + Y, ub or u), ('a - b', lambda: a - b, X - Y, u), ('b - a', lambda: b - a, Y - X, ub or u)]
    if (Y != 0).all():
        q0 = X / Y
        if (np.abs(q0 - np.round(q0)) > 1e-3).all():
            todo += [('a % b', lambda: a % b, X % Y, u), ('fmod', lambda: np.fmod(a, b), np.fmod(X, Y), u)]
    far = np.abs(X - Y) > 1e-6
    if far.all():
        todo += [('a < b', lambda: a < b, X < Y, None), ('a <= b', lambda: a <= b, X <= Y, None), ('a > b', lambda: a > b, X > Y, None), ('a >= b', lambda: a >= b, X >= Y, None),
                 ('a == b', lambda: a == b, X == Y, None), ('a != b', lambda: a != b, X != Y, None), ('b < a', lambda: b < a, Y < X, None), ('b >= a', lambda: b >= a, Y >= X, None)]
    todo += [('a == a', lambda: a == q.Quantity(x, dict(u)), X == X, None), ('a <= a', lambda: a <= q.Quantity(x, dict(u)), X == X, None)]
    lo, hi = min(np.min(Y), 0), max(np.min(Y), 0) + 1
    todo.append(('clip', lambda: np.clip(a, q.Quantity(lo / r, dict(w)), q.Quantity(hi, dict(u))), np.clip(X, lo, hi), u))
    todo.append(('clip method', lambda: a.clip(q.Quantity(lo / r, dict(w)), q.Quantity(hi, dict(u))), np.clip(X, lo, hi), u))
    if how < .7:
        A, B = np.atleast_1d(a), np.atleast_1d(b)
        if X.shape == Y.shape:
            todo += [('concatenate', lambda: np.concatenate([A, B]), np.concatenate([np.atleast_1d(X), np.atleast_1d(Y)]), u),
                     ('concatenate swapped', lambda: np.concatenate((B, A)), np.concatenate([np.atleast_1d(Y), np.atleast_1d(X)]), w),
                     ('stack', lambda: np.stack([a, b]), np.stack([X, Y]), u), ('hstack', lambda: np.hstack([A, B]), np.hstack([np.atleast_1d(X), np.atleast_1d(Y)]), u),
                     ('vstack', lambda: np.vstack([B, A]), np.vstack([np.atleast_1d(Y), np.atleast_1d(X)]), w),
                     ('three', lambda: np.concatenate([A, np.atleast_1d(Y), B]), np.concatenate([np.atleast_1d(X), np.atleast_1d(Y), np.atleast_1d(Y)]), u)]
        todo += [('append', lambda: np.append(a, b), np.append(X, Y), u), ('append swapped', lambda: np.append(b, a), np.append(Y, X), w),
                 ('where', lambda: np.where(X > 0, a, b), np.where(X > 0, X, Y), u), ('where swapped', lambda: np.where(X > 0, b, a), np.where(X > 0, Y, X), w),
                 ('add.outer', lambda: np.add.outer(a, b), np.add.outer(X, Y), u)]
    neg = [('-a', lambda: -a, -X, u), ('abs', lambda: abs(a), abs(X), u), ('rint', lambda: np.rint(a), np.rint(X), u), ('floor', lambda: np.floor(a), np.floor(X), u)]
    for n in ('sum', 'mean', 'min', 'max', 'std', 'ptp', 'median', 'cumsum', 'ravel', 'sort', 'squeeze', 'transpose'):
        if sh == () and n in ('sort', 'cumsum'):
            continue
        neg.append((n, lambda n=n: getattr(np, n)(a), getattr(np, n)(X), u))
        if n not in ('median', 'ptp', 'sort'):
            neg.append(('.' + n, lambda n=n: getattr(a, n)(), getattr(X, n)(), u))
    if len(sh) == 2:
        for n in ('sum', 'mean', 'max', 'min', 'std'):
            neg += [(n + ' axis', lambda n=n: getattr(np, n)(a, axis=0), getattr(np, n)(X, axis=0), u), ('.' + n + ' axis', lambda n=n: getattr(a, n)(1), getattr(X, n)(1), u),
                    (n + ' keepdims', lambda n=n: getattr(np, n)(a, axis=-1, keepdims=True), getattr(np, n)(X, axis=-1, keepdims=True), u)]
    neg += [('var', lambda: np.var(a), np.var(X), ref_power(u, 2)), ('.var', lambda: a.var(), X.var(), ref_power(u, 2)), ('add.reduce', lambda: np.add.reduce(np.atleast_1d(a)), np.add.reduce(np.atleast_1d(X)), u)]
    for what, f, want, unit in todo + [neg[i] for i in rng.choice(len(neg), 6, replace=False)]:
        c = f()
        if unit is None:
            if not np.array_equal(np.asarray(c), want) or unit_of(c):
                return '%s for %s %r and %s %r: %s instead of %s' % (what, x, u, b0, ub, c, want)
            continue
        if not isinstance(c, q.Quantity):
            return '%s for %s %r and %s %r has no unit' % (what, x, u, b0, ub)
        if F(c._unit) != F(unit):
            return '%s for %r and %r has the unit %r instead of %r' % (what, u, ub, c._unit, dict(unit))
        k = 1. if F(unit) != F(w) or F(w) == F(u) else r        # the reference is in u
        if not close(value(c) * k, want, sc):
            return '%s for %s %r and %s %r: %s %r, %s %r expected' % (what, x, u, b0, ub, np.asarray(c), c._unit, want, u)
        if not np.array_equal(value(a), a0) or not np.array_equal(value(b), b0) or unit_of(a) != ua or unit_of(b) != ub:
            return '%s modifies its operands' % what
    # in place
    c = q.Quantity(np.array(x, float), dict(u))
    if X.shape == np.broadcast_shapes(X.shape, Y.shape):
        c += b
        if F(unit_of(c)) != F(u) or not close(c, X + Y, sc):
            return 'a += b for %s %r and %s %r: %s %r' % (x, u, b0, ub, np.asarray(c), unit_of(c))
        o = q.Quantity(np.zeros(np.shape(X)), dict(w))
        if np.shape(X):
            t = np.subtract(a, b, out=o)
            if not close(t, X - Y, sc) or F(t._unit) != F(u):
                return 'subtract with an output: %s %r' % (np.asarray(t), t._unit)
    # refusals
    v = dict(w)
    k = ['m', 's', 'kg', 'zork', 'K'][rng.integers(5)]
    v[k] = v.get(k, 0.) + [1., -1., 2.][rng.integers(3)]
    v = {k: e for k, e in v.items() if e}
    if not v:
        return
    z = q.Quantity(y, dict(v))
    for what, f in (('+', lambda: a + z), ('-', lambda: z - a), ('<', lambda: a < z), ('==', lambda: z == a), ('maximum', lambda: np.maximum(a, z)), ('fmin', lambda: np.fmin(a, z)),
                    ('append', lambda: np.append(a, z)), ('where', lambda: np.where(X > 0, a, z)), ('concatenate', lambda: np.concatenate([np.atleast_1d(z).ravel(), np.atleast_1d(a).ravel()]))):
        try:
            c = f()
        except q.UnitError:
            continue
        return '%s is accepted between %r and %r' % (what, u, v)


case('C26', 'mixed-units', gen_units)(mixed_units)
