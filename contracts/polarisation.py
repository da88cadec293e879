"""Contracts of the polarisation projection (bi.f90.j2): C16."""
import re
import z3
from vf.sym import I, R, fresh, If, And, Or, Not, realfn
from vf.contract import run_contract
from contracts.sparse import unchanged

sqrt = realfn('sqrt')
K = [z3.IntVal(k) for k in range(3)]


def dot(a, b):
    return sum([x * y for x, y in zip(a[1:], b[1:])], a[0] * b[0])


def basis(e):
    """vectors along the local meridian and parallel in the direction e"""
    x, y, z = e
    rho = sqrt(1 - z * z)
    return [x * z / rho, y * z / rho, -rho], [-y / rho, x / rho, z3.RealVal(0)], rho


def turn(r, v):
    """the rotation (r(i,j) its element (j,i)) of v"""
    return [dot([r(K[j], K[i]) for j in range(3)], v) for i in range(3)]


def unturn(r, v):
    return [dot([r(K[i], K[j]) for j in range(3)], v) for i in range(3)]


def angle(r, e):
    """cosine and sine of the angle between the parallels, with the hypotheses off the poles"""
    et, ep, rho = basis(e)
    ei = unturn(r, e)
    _, epi, rhoi = basis(ei)
    u = turn(r, epi)
    return dot(ep, u), dot(et, u), [1 - e[2] * e[2] > 0, 1 - ei[2] * ei[2] > 0]


def frame(c, but):
    return unchanged(c, [k for k, a in enumerate(c.args) if a.name not in but and a.d.dims])


def rows(c, a, n):
    return [c.post(a, k) for k in range(n)]


def small(which):
    def f(mods, u, kinds=('post',), **kw):
        def pre(c):
            for k in c.args:
                if k.name in ('en', 'eni'):
                    c.assume(1 - k.f(K[2]) * k.f(K[2]) > 0)

        def post(c):
            A = c.byname
            g = []
            if which in ('en2ephi', 'en2etheta_ephi'):
                et, ep, _ = basis([A['en'].f(k) for k in K])
                g += [('ephi[%d]' % k, c.post(A['ephi'], k) == ep[k]) for k in range(2)]
                if which == 'en2etheta_ephi':
                    g += [('etheta[%d]' % k, c.post(A['etheta'], k) == et[k]) for k in range(3)]
            elif which == 'rot_ephi':
                v = turn(A['rot'].f, [A['ephi'].f(K[0]), A['ephi'].f(K[1]), z3.RealVal(0)])
                g += [('out[%d]' % k, c.post(A['out'], k) == v[k]) for k in range(3)]
            elif which == 'rotinv_e':
                v = unturn(A['rot'].f, [A['e'].f(k) for k in K])
                g += [('rot_e[%d]' % k, c.post(A['rot_e'], k) == v[k]) for k in range(3)]
            else:
                _, epi, _ = basis([A['eni'].f(k) for k in K])
                v = turn(A['rot'].f, epi)
                g += [('r23', c.post(A['r23']) == dot([A['ethetaf'].f(k) for k in K], v)),
                      ('r33', c.post(A['r33']) == dot([A['ephif'].f(K[0]), A['ephif'].f(K[1]), z3.RealVal(0)], v))]
            return g
        return run_contract(mods, u, pre, post, kinds=kinds, **kw)
    return f


def matrix(mods, u, kinds=('post',), **kw):
    two = 'rot2d' in u.name

    def pre(c):
        for n in ('npixels', 'ntimes', 'ndetectors'):
            c.assume(c.byname[n].val >= 0)

    def post(c):
        A = c.byname
        p, t, d = fresh('p'), fresh('t'), fresh('d')
        inb = [0 <= p, p < A['npixels'].val, 0 <= t, t < A['ntimes'].val, 0 <= d, d < A['ndetectors'].val]
        r = lambda i, j: A['rot'].f(i, j, t)
        e = [A['enf'].f(k, p, d) for k in K]
        co, si, off = angle(r, e)
        val = A['vals'].f(p, d)
        if 'weights' in A:
            val = val * A['weights'].f(p, t, d)
        m = A['matrix']
        want = {'r11' if two else 'r22': val * (co * co - si * si), 'r21' if two else 'r32': 2 * val * co * si}
        if not two:
            want['r11'] = val
        g = [(n, tuple([c.post(m, p, t, d, comp=n) == w] + inb + off)) for n, w in want.items()]
        g.append(('index', tuple([c.post(m, p, t, d, comp='index') == m.f['index'](p, t, d)] + inb)))
        return g + [('lemma ' + n, x) for n, x in unit_lemma()] + frame(c, ('matrix',))
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def unit_lemma():
    """For a rotation r and a unit direction e off the poles the cosine c and the sine s
    satisfy c^2 + s^2 = 1, hence the squares of the coefficients add up to the squared
    weight.  With u = r p, p the unit parallel at r^T e, and (T, P, e) the local basis at e:

        c^2 + s^2 + (u.e)^2 = |u|^2      (T, P, e is orthonormal: M = I below)
        |u|^2 = p^T (r^T r) p = |p|^2 = 1,   u.e = p.(r^T e) = 0

    each line is an identity between polynomials."""
    x, y, z, v, c, si = z3.Reals('x y z v c si')
    s = 1 - z * z                    # the squared sine of the colatitude
    x2 = 1 - y * y - z * z           # = x^2
    g = [('basis 00', x2 * z * z + y * y + x2 * s == s), ('basis 11', y * y * z * z + x2 + y * y * s == s),
         ('basis 22', s * s + z * z * s == s), ('basis 01', (x * z) * (y * z) + (-y) * x + x * y * s == 0),
         ('basis 02', -(x * z) + x * z == 0), ('basis 12', -(y * z) + y * z == 0),
         ('unit parallel', y * y + x2 == s), ('parallel across the direction', (-y) * x + x * y == 0)]
    vec = lambda n: [z3.Real('%s%d' % (n, k)) for k in range(3)]
    T, P, E, U, p = vec('T'), vec('P'), vec('E'), vec('U'), vec('p')
    r = [[z3.Real('r%d%d' % (i, j)) for j in range(3)] for i in range(3)]
    M = [[T[i] * T[j] + P[i] * P[j] + E[i] * E[j] for j in range(3)] for i in range(3)]
    g.append(('components', dot(T, U) * dot(T, U) + dot(P, U) * dot(P, U) + dot(E, U) * dot(E, U) - dot(U, U)
              == sum(U[i] * U[j] * (M[i][j] - (1 if i == j else 0)) for i in range(3) for j in range(3))))
    u = [dot(r[i], p) for i in range(3)]
    rtr = [[sum(r[k][i] * r[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    g.append(('length', dot(u, u) == sum(p[i] * p[j] * rtr[i][j] for i in range(3) for j in range(3))))
    g.append(('across', dot(u, E) == dot(p, [sum(r[j][i] * E[j] for j in range(3)) for i in range(3)])))
    g.append(('squares', (v * (c * c - si * si)) * (v * (c * c - si * si)) + (2 * v * c * si) * (2 * v * c * si)
              == v * v * (c * c + si * si) * (c * c + si * si)))
    return g


def tasks(mods):
    out = []
    m = mods.get('bi')
    for un in (m.units if m else ()):
        if un in ('en2ephi', 'en2etheta_ephi', 'rot_ephi', 'rotinv_e', 'eni2rotation'):
            out.append(('C16', un, 'bi', un, small(un)))
        elif re.match(r'(weighted_)?matrix_rot[23]d_i[48]_r[48]$', un):
            out.append(('C16', un, 'bi', un, matrix))
    return out
