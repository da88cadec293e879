"""Run-time checks of the polarisation projection (C16)."""
import numpy as np
from vf.rac import case, RANDOM

FLAVOURS = ('rot2d', 'rot3d', 'weighted')


def gen(ctx):
    def one(**k):
        p = dict(f='rot2d', i=4, r=8, np=2, nt=2, nd=2, rot='any', seed=ctx.newseed())
        p.update(k)
        return p
    for f in FLAVOURS:
        for i in (4, 8):
            for r in (4, 8):
                for rot in ('identity', 'z', 'half', 'quarter', 'any'):
                    yield one(f=f, i=i, r=r, rot=rot)
        for a in (0, 1, 3):
            for b in (0, 1, 3):
                for c in (0, 1, 3):
                    yield one(f=f, np=a, nt=b, nd=c)
    yield RANDOM
    r = ctx.rng
    while True:
        yield one(f=str(r.choice(FLAVOURS)), i=int(r.choice([4, 8])), r=int(r.choice([4, 8])), rot=str(r.choice(['identity', 'z', 'half', 'quarter', 'any', 'any', 'any'])),
                  np=ctx.size(5, cap=100), nt=ctx.size(5, cap=100), nd=ctx.size(5, cap=60))


def rotations(kind, n, rng):
    if kind == 'identity':
        return np.array([np.eye(3)] * n).reshape(n, 3, 3)
    if kind == 'z':
        t = rng.random(n) * 2 * np.pi
        R = np.zeros((n, 3, 3))
        R[:, 0, 0] = R[:, 1, 1] = np.cos(t)
        R[:, 0, 1], R[:, 1, 0] = -np.sin(t), np.sin(t)
        R[:, 2, 2] = 1
        return R
    if kind == 'half':
        d = np.array([[1, -1, -1], [-1, 1, -1], [-1, -1, 1]])[rng.integers(3, size=n)]
        return d[:, :, None] * np.eye(3)
    if kind == 'quarter':
        R = np.zeros((n, 3, 3))
        for k in range(n):
            p = rng.permutation(3)
            R[k, np.arange(3), p] = rng.choice([-1, 1], 3)
            if np.linalg.det(R[k]) < 0:
                R[k] *= -1
        return R
    q = rng.standard_normal((n, 4))
    q /= np.sqrt((q ** 2).sum(1))[:, None] if n else 1
    w, x, y, z = q.T
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]).transpose(2, 0, 1)


def meridian(e):
    """the unit vectors along the meridian (away from the north pole) and along the parallel (eastwards)"""
    theta, phi = np.arctan2(np.hypot(e[..., 0], e[..., 1]), e[..., 2]), np.arctan2(e[..., 1], e[..., 0])
    et = np.stack([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi), -np.sin(theta)], -1)
    ep = np.stack([-np.sin(phi), np.cos(phi), np.zeros_like(phi)], -1)
    return et, ep, np.sin(theta)


@case('C16', 'polarisation-projection', gen)
def run(p):
    """coefficients stored by the three projections against the angle between the meridians"""
    from pysimulators import _flib as flib
    rng = np.random.default_rng(p['seed'])
    npix, nt, nd = p['np'], p['nt'], p['nd']
    R = rotations(p['rot'], nt, rng)
    e = rng.standard_normal((nd, npix, 3))
    if p['rot'] in ('half', 'quarter', 'identity') and rng.random() < .3:
        e[..., rng.integers(3)] = 0
    e /= np.sqrt((e ** 2).sum(-1))[..., None]
    ei = np.einsum('tji,dpj->dtpi', R, e)               # the direction seen in the other frame
    etf, epf, sf = meridian(e)
    _, epi, si = meridian(ei)
    vals = rng.choice([0., 1., -2.5, .3, 7.], (nd, npix))
    weights = rng.choice([0., 1., .5, -3.], (nd, nt, npix))
    v = np.broadcast_to(vals[:, None, :], (nd, nt, npix))
    if p['f'] == 'weighted':
        v = v * weights
    b = np.einsum('tij,dtpj->dtpi', R, epi)
    c, s = (b * epf[:, None]).sum(-1), (b * etf[:, None]).sum(-1)
    want = [v * (c * c - s * s), 2 * v * c * s]
    ok = np.broadcast_to((sf > 1e-3)[:, None, :], v.shape) & (si > 1e-3)
    n = 2 if p['f'] == 'rot2d' else 3
    dt = np.dtype([('index', 'i%d' % p['i'])] + [('v%d' % k, 'f%d' % p['r']) for k in range(n)])
    m = np.zeros((nd, nt, npix), dt)
    index = rng.integers(-3, 100, m.shape)
    m['index'] = index
    for k in range(n):
        m['v%d' % k] = 99.
    args = [R.transpose(1, 2, 0).transpose(1, 0, 2), e.T, m.ravel().view('i1'), vals.T]
    # the routine takes the transpose of the rotations
    args[0] = np.asfortranarray(args[0])
    if p['f'] == 'weighted':
        args.append(np.asfortranarray(weights.transpose(2, 1, 0)))
    name = {'rot2d': 'matrix_rot2d', 'rot3d': 'matrix_rot3d', 'weighted': 'weighted_matrix_rot3d'}[p['f']] + '_i%d_r%d' % (p['i'], p['r'])
    if m.size == 0:
        return
    keep = [np.array(a) for a in args]
    getattr(flib.bi, name)(*args)
    for k, (a, b) in enumerate(zip(args, keep)):
        if k != 2 and (a != b).any():
            return f'argument {k} of {name} has been modified'
    if (m['index'] != index).any():
        return f'{name} modifies the indices'
    tol = 1e-9 if p['r'] == 8 else 1e-5
    tol = tol * (1 + np.abs(v)) * (1 + 1e-3 / np.maximum(np.minimum(np.broadcast_to(sf[:, None], v.shape), si), 1e-9))
    got = [m['v%d' % k].astype('f8') for k in range(n)]
    if n == 3:
        g = got.pop(0)
        if not (np.abs(g - v) <= tol)[ok].all():
            return f'{name}: intensity coefficients {g.tolist()} instead of {v.tolist()}'
    for what, g, w in zip(('cosine', 'sine'), got, want):
        if not (np.abs(g - w) <= tol)[ok].all():
            k = np.argwhere(~(np.abs(g - w) <= tol) & ok)[0]
            return f'{name}: {what} coefficient {g[tuple(k)]} instead of {w[tuple(k)]} for (detector, time, pixel) {k.tolist()}'
    if not (np.abs(got[0] ** 2 + got[1] ** 2 - v ** 2) <= tol * (1 + np.abs(v)) * 4)[ok].all():
        return f'{name}: the squares do not add up to the squared weight'


def gen_b(ctx):
    for s in range(8):
        yield dict(seed=ctx.newseed())
    yield RANDOM
    while True:
        yield dict(seed=ctx.newseed())


@case('C16', 'local-basis', gen_b)
def run_b(p):
    """local basis and frame rotations"""
    from pysimulators import _flib as flib
    rng = np.random.default_rng(p['seed'])
    e = rng.standard_normal(3)
    if rng.random() < .3:
        e[rng.integers(2)] = 0
    e /= np.sqrt((e ** 2).sum())
    et, ep, s = meridian(e)
    if s < 1e-3:
        return
    close = lambda a, b: np.allclose(a, b, rtol=0, atol=1e-10 / s)
    a = flib.bi.en2ephi(e)
    if not close(a, ep[:2]):
        return f'en2ephi({e.tolist()}) = {a.tolist()}'
    a, b = flib.bi.en2etheta_ephi(e)
    if not close(a, et) or not close(b, ep[:2]):
        return f'en2etheta_ephi({e.tolist()}) = {a.tolist()}, {b.tolist()}'
    R = rotations('any', 1, rng)[0]
    a = flib.bi.rot_ephi(R.T, ep[:2])
    if not close(a, R @ ep):
        return f'rot_ephi: {a.tolist()} instead of {(R @ ep).tolist()}'
    a = flib.bi.rotinv_e(R.T, e)
    if not close(a, R.T @ e):
        return f'rotinv_e: {a.tolist()} instead of {(R.T @ e).tolist()}'
    ei = R.T @ e
    _, epi, si = meridian(ei)
    if si > 1e-3:
        a, b = flib.bi.eni2rotation(R.T, et, ep[:2], ei)
        if not np.allclose([a, b], [et @ R @ epi, ep @ R @ epi], rtol=0, atol=1e-9 / min(s, si)):
            return f'eni2rotation: {a}, {b}'
