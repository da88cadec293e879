"""Run-time checks of the truncated exponential response (C09)."""
import numpy as np
from vf.rac import case, RANDOM

TAUS = (0., 0., 1e-3, .05, .3, 1., 2.5, 10., 1e3, 1e9, 1e17)


def taus(p, rng):
    t = p['taus']
    n = p['nd'] if t == 'each' else 1
    v = rng.choice(TAUS, n)
    if not (v > 0).any():
        v[rng.integers(n)] = 1.5
    return v


def weights(tau, dt):
    """the weight of the previous output, in the precision of the computation"""
    if tau == 0:
        return 0.
    return float(np.exp(np.dtype(dt).type(-1) / np.dtype(dt).type(tau)))


def direct(x, w):
    y = np.array(x, 'f8')
    for i in range(1, len(y)):
        y[i] = w * y[i - 1] + (1 - w) * y[i]
    return y


def transpose(x, w):
    y = np.array(x, 'f8')
    for i in range(len(y) - 2, -1, -1):
        y[i] = w * y[i + 1] + y[i]
    y[1:] *= 1 - w
    return y


def reference(x, ts, dt, f):
    x2 = np.atleast_2d(np.asarray(x, 'f8'))
    y = np.array([f(r, weights(ts[min(k, len(ts) - 1)], dt)) for k, r in enumerate(x2)]).reshape(x2.shape)
    return y.reshape(np.shape(x))


def tolerance(ref, x, dt):
    eps = 2e-5 if dt == 'f4' else 1e-12
    return eps * (np.abs(ref) + np.abs(x).max(initial=0) * max(1, x.shape[-1]))


def gen(ctx):
    def one(**k):
        p = dict(nd=2, n=5, one=False, taus='each', dt='f8', lay='c', style='rand', given='array', seed=ctx.newseed())
        p.update(k)
        return p
    for n in (1, 2, 3, 10):
        for dt in ('f8', 'f4'):
            for lay in ('c', 'rows', 'columns', 'reversed'):
                for nd in (1, 2, 5):
                    yield one(n=n, nd=nd, dt=dt, lay=lay, taus='each' if nd > 1 else 'single')
            for st in ('impulse', 'const', 'rand', 'int'):
                yield one(n=n, one=True, nd=1, taus='single', style=st, dt=dt, given='scalar')
                yield one(n=n, nd=3, taus='single', style=st, dt=dt, given='scalar')
    for g in ('unit', 'int'):
        for n in (1, 2, 7):
            for nd in (1, 2, 3):
                for dt in ('f8', 'f4'):
                    yield one(n=n, nd=nd, given=g, dt=dt, taus='each' if nd > 1 else 'single')
                    yield one(n=n, nd=nd, given=g, dt=dt, taus='each' if nd > 1 else 'single')
    for n in ctx.sizes(8):
        yield one(n=max(1, n), nd=3, lay='rows')
        yield one(n=4, nd=max(1, n), lay='c')
    yield RANDOM
    r = ctx.rng
    while True:
        o = r.random() < .3
        nd = 1 if o else ctx.size(6, lo=1)
        yield one(n=ctx.size(20, lo=1, cap=500), nd=nd, one=bool(o), taus='single' if nd == 1 or r.random() < .3 else 'each',
                  dt=str(r.choice(['f8', 'f4'])), lay=str(r.choice(['c', 'rows', 'columns', 'reversed'])),
                  style=str(r.choice(['impulse', 'const', 'rand', 'int'])), given=str(r.choice(['scalar', 'array', 'list', 'quantity', 'unit', 'int'])))


def signal(p, rng):
    shape = (p['n'],) if p['one'] else (p['nd'], p['n'])
    if p['style'] == 'const':
        x = np.full(shape, 2.5)
    elif p['style'] == 'impulse':
        x = np.zeros(shape)
        x.flat[rng.integers(x.size)] = 1
    elif p['style'] == 'int':
        x = rng.integers(-9, 10, shape).astype(float)
    else:
        x = rng.standard_normal(shape)
    return x.astype(p['dt'])


def pose(x, lay, fill=7.):
    """(the array, what it is a view of, where the view lies)"""
    if x.ndim == 1 or lay == 'c':
        b = np.full((3,) + x.shape, fill, x.dtype)
        v = b[1]
    elif lay == 'rows':
        b = np.full((2 * x.shape[0] + 1, x.shape[1]), fill, x.dtype)
        v = b[1::2]
    elif lay == 'columns':
        b = np.full((x.shape[0], x.shape[1] + 3), fill, x.dtype)
        v = b[:, 1:-2]
    else:
        b = np.full((x.shape[0] + 2, x.shape[1] + 2), fill, x.dtype)
        v = b[1:-1, 1:-1]
    v[...] = x
    return v, b


def refusal(f):
    try:
        f()
    except ValueError:
        return None
    return 'accepted'


@case('C09', 'exponential-response', gen)
def run(p):
    """the operator and its transpose against the recurrence, in and out of place"""
    from pysimulators import ConvolutionTruncatedExponentialOperator as Conv, Quantity
    rng = np.random.default_rng(p['seed'])
    ts = taus(p, rng)
    x = signal(p, rng)
    g = p['given']
    dt = 'f8' if g == 'int' else p['dt']
    x = x.astype(dt)
    tau = ts if g == 'array' else ts.tolist() if g == 'list' else Quantity(ts, '') if g == 'quantity' else ts
    if len(ts) == 1 and g == 'scalar':
        tau = float(ts[0])
    kw = {'dtype': dt}
    if g == 'unit':
        tau = Quantity(ts * 1000, 'ms s^-1')
    elif g == 'int':
        # integer or float time constants, without a data type
        ts = np.where(ts > 0, np.ceil(np.minimum(ts, 1000)), 0)
        tau = ts.astype(int if p['seed'] % 2 else float)
        if p['seed'] % 3 == 0:
            tau = tau.tolist()
        kw = {}
    keep = np.array(ts)
    op = Conv(tau, **kw)
    if not p['one'] and p['nd'] > 1:
        for wrong in (p['nd'] + 1, p['nd'] - 1):
            if wrong > 1:
                r = refusal(lambda: Conv(np.ones(wrong), dtype=dt)(x))
                if r:
                    return '%d time constants for %d detectors: %s' % (wrong, p['nd'], r)
    if g == 'unit':
        r = refusal(lambda: Conv(Quantity(ts, 's')))
        if r:
            return 'time constants in seconds: ' + r
    for name, o, f in (('direct', op, direct), ('transpose', op.T, transpose)):
        ref = reference(x, ts.astype(dt), dt, f)
        tol = tolerance(ref, x, dt)
        xi, bi = pose(x, p['lay'])
        if p['lay'] == 'reversed' and not p['one']:
            pass
        got = o(xi)
        if got.shape != x.shape or got.dtype != x.dtype:
            return f'{name}: result of shape {got.shape} and type {got.dtype}'
        if (xi != x).any() or (bi == 7).sum() < bi.size - x.size:
            return f'{name}: the input has been modified'
        if not (np.abs(got - ref) <= tol).all():
            return f'{name}({ts}): {got.tolist()} instead of {ref.tolist()}'
        xo, bo = pose(np.zeros_like(x), p['lay'])
        around = bo.copy()
        o(xi, xo)
        if not (np.abs(xo - ref) <= tol).all():
            return f'{name} with an output: {xo.tolist()} instead of {ref.tolist()}'
        if (xi != x).any():
            return f'{name} with an output: the input has been modified'
        xo[...] = 0
        if (bo != around).any():
            return f'{name} with an output: samples out of the block are modified'
        xi, bi = pose(x, p['lay'])
        o(xi, xi)
        if not (np.abs(xi - ref) <= tol).all():
            return f'{name} in place: {xi.tolist()} instead of {ref.tolist()}'
        if (np.abs(xi - got) > tol).any():
            return f'{name}: in place differs from out of place'
        xi[...] = 7
        if (bi != 7).any():
            return f'{name} in place: samples out of the block are modified'
    if g == 'int':
        # integer signals
        xi = rng.integers(-9, 10, x.shape)
        for name, o, f in (('direct', op, direct), ('transpose', op.T, transpose)):
            ref = reference(xi, ts, 'f8', f)
            got = o(xi)
            if got.dtype.kind != 'f' or not (np.abs(got - ref) <= tolerance(ref, xi, 'f8')).all():
                return f'{name} of the integers {xi.tolist()}: {got.tolist()} instead of {ref.tolist()}'
    # adjoint
    y = rng.integers(-9, 10, x.shape).astype(dt)
    a = float((np.asarray(op(x), 'f8') * y).sum())
    b = float((np.asarray(op.T(y), 'f8') * x).sum())
    s = float((np.abs(np.asarray(op.T(np.abs(y)), 'f8')) * np.abs(x)).sum())
    if abs(a - b) > (1e-3 if dt == 'f4' else 1e-10) * (s + 1e-30):
        return f'<Hx,y> = {a}, <x,H\'y> = {b}'
    if (ts != keep).any():
        return 'the time constants have been modified'


def gen_drv(ctx):
    def one(**k):
        p = dict(nd=2, n=5, si=0, so=0, gap=0, ntau=1, dt=8, inplace=False, tr=False, seed=ctx.newseed())
        p.update(k)
        return p
    for n in (0, 1, 2, 5):
        for nd in (0, 1, 3):
            for dt in (4, 8):
                for tr in (False, True):
                    for ip in (False, True):
                        yield one(n=n, nd=nd, dt=dt, inplace=ip, tr=tr, si=2, so=1, ntau=max(1, nd))
    yield RANDOM
    r = ctx.rng
    while True:
        nd = ctx.size(6)
        yield one(n=ctx.size(20, cap=300), nd=nd, si=int(r.integers(3)), so=int(r.integers(3)), gap=int(r.integers(3)), ntau=int(r.integers(1, max(1, nd) + 1)),
                  dt=int(r.choice([4, 8])), inplace=bool(r.integers(2)), tr=bool(r.integers(2)))


@case('C09', 'exponential-driver', gen_drv)
def run_drv(p):
    """the compiled per-detector driver with its strides"""
    from pysimulators import _flib as flib
    rng = np.random.default_rng(p['seed'])
    n, nd, dt = p['n'], p['nd'], 'f%d' % p['dt']
    fun = getattr(flib.operators, 'trexp_%s_r%d' % ('transpose' if p['tr'] else 'direct', p['dt']))
    ts = rng.choice([0., .3, 2., 50.], p['ntau']).astype(dt)
    si, so = n + p['si'], n + p['so']
    if p['inplace']:
        so = si
    b = rng.integers(-9, 10, nd * si + p['gap']).astype(dt)
    o = b if p['inplace'] else np.full(nd * so + p['gap'], 7., dt)
    x, o0 = b.copy(), o.copy()
    if b.size == 0 or o.size == 0:
        return
    fun(b, nd, n, si, o, n, so, ts)
    want = o0.astype('f8')
    for d in range(nd):
        w = weights(ts[min(d, len(ts) - 1)], dt)
        want[d * so:d * so + n] = (transpose if p['tr'] else direct)(x[d * si:d * si + n], w)
    tol = (2e-5 if dt == 'f4' else 1e-12) * (np.abs(want) + 10 * max(1, n))
    if not (np.abs(o - want) <= tol).all():
        return f'{o.tolist()} instead of {want.tolist()}'
    if not p['inplace'] and (b != x).any():
        return 'the input has been modified'


def gen_id(ctx):
    for n in (0, 1, 3):
        for dt in ('f8', 'f4'):
            for t in (0, [0., 0.], -1., [0., -2.]):
                yield dict(n=n, dt=dt, tau=t, seed=ctx.newseed())


@case('C09', 'zero-time-constant', gen_id)
def run_id(p):
    """a zero time constant is the identity"""
    from pysimulators import ConvolutionTruncatedExponentialOperator as Conv
    x = np.random.default_rng(p['seed']).standard_normal((2, p['n'])).astype(p['dt'])
    op = Conv(p['tau'], dtype=p['dt'])
    for o in (op, op.T):
        if (o(x) != x).any():
            return 'not the identity'
    z = np.array(x)
    op(z, z)
    if (z != x).any():
        return 'not the identity in place'
