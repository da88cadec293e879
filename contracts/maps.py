"""Contracts of distance maps, Gaussians and radial profiles (datautils.f90.j2): C17."""
import re
import z3
from vf.sym import I, R, fresh, SUM, If, And, Or, Not, to_real, realfn
from vf.contract import run_contract
from contracts.sparse import unchanged

sqrt, exp = realfn('sqrt'), realfn('exp')
Z = z3.RealVal(0)
NANF = z3.Function('missing', I, I, z3.BoolSort())


def rel(i, o):
    return to_real(i) - o


def frame(c, *names):
    return unchanged(c, [k for k, a in enumerate(c.args) if a.name in names and a.d.dims])


def distance(dims, squared):
    def f(mods, u, kinds=('post',), **kw):
        def pre(c):
            for a in c.args:
                if a.name in ('nx', 'ny'):
                    c.assume(a.val >= 0)

        def post(c):
            out, nx, *rest = c.args
            q, r = fresh('q'), fresh('r')
            if dims == 1:
                o, s = rest[0].val, rest[1].val
                d = rel(q, o)
                want = s * d * d if squared else If(s * d >= 0, s * d, -(s * d))
                return [('distance', (c.post(out, q) == want, 0 <= q, q < nx.val))]
            ny, o, s = rest
            dx, dy = rel(q, o.f(z3.IntVal(0))), rel(r, o.f(z3.IntVal(1)))
            sx, sy = s.f(z3.IntVal(0)), s.f(z3.IntVal(1))
            if squared:
                want = sx * dx * dx + sy * dy * dy
            else:
                want = sqrt(sx * sx * dx * dx + sy * sy * dy * dy)
            return [('distance', (c.post(out, q, r) == want, 0 <= q, q < nx.val, 0 <= r, r < ny.val))] + frame(c, o.name, s.name)
        return run_contract(mods, u, pre, post, kinds=kinds, **kw)
    return f


def gaussian(mods, u, kinds=('post',), **kw):
    def pre(c):
        out, nx, ny, o, s = c.args
        c.assume(nx.val >= 0, ny.val >= 0)
        c.assume(s.f(z3.IntVal(0)) > 0, s.f(z3.IntVal(1)) > 0)

    def post(c):
        out, nx, ny, o, s = c.args
        q, r = fresh('q'), fresh('r')
        dx, dy = rel(q, o.f(z3.IntVal(0))), rel(r, o.f(z3.IntVal(1)))
        sx, sy = s.f(z3.IntVal(0)), s.f(z3.IntVal(1))
        half = z3.Q(1, 2)
        ex_, ey_ = exp(-(half / (sx * sx) * dx * dx)), exp(-(half / (sy * sy) * dy * dy))
        norm = 1 / (2 * PI(c) * sx * sy)
        return [('pi', PI(c) == z3.Const('PI', R)), ('gaussian', (c.post(out, q, r) == norm * ex_ * ey_, 0 <= q, q < nx.val, 0 <= r, r < ny.val))] + frame(c, o.name, s.name)
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def PI(c):
    """the value the sources give to pi in this precision"""
    return c.ex.eval(('name', 'pi_8' if c.unit.name.endswith('r8') else 'pi_4'), c.st)


def profile(mods, u, kinds=('post',), **kw):
    def pre(c):
        n = c.byname
        c.assume(n['nx'].val >= 0, n['ny'].val >= 0, n['nbins'].val >= 0, n['bin'].val > 0)
        c.ex.nan_fns[n['array'].f.name()] = lambda i, j: NANF(i, j)      # some values are missing

    def post(c):
        n = c.byname
        b = fresh('b')
        nx, ny, bw = n['nx'].val, n['ny'].val, n['bin'].val
        a, o = n['array'].f, n['origin'].f

        def dist(i, j):
            dx, dy = rel(i, o(z3.IntVal(0))), rel(j, o(z3.IntVal(1)))
            return sqrt(dx * dx + dy * dy)

        def total(w, sort=R):
            def one(i, j):
                q = dist(i, j) / bw
                return If(And(Not(c.ex.nanof(a(i, j))), z3.ToInt(q) == b, q < to_real(n['nbins'].val)), w(i, j), z3.RealVal(0) if sort == R else z3.IntVal(0))
            return SUM(ny, lambda j: SUM(nx, lambda i: one(i, j), sort), sort)
        count = total(lambda i, j: z3.IntVal(1), I)
        inb = (0 <= b, b < n['nbins'].val)
        x, y = c.post(n['x'], b), c.post(n['y'], b)
        return [('count', (c.post(n['n'], b) == count,) + inb),
                ('mean distance', (x * to_real(count) == total(dist), count != 0) + inb),
                ('mean value', (y * to_real(count) == total(a), count != 0) + inb),
                ('distance of empty bins', (x == bw * (to_real(b) + z3.Q(1, 2)), count == 0) + inb),
                ('empty bins', (c.ex.nanof(y), count == 0) + inb)] + frame(c, 'array', 'origin')
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def tasks(mods):
    out = []
    m = mods.get('datautils')
    for un in (m.units if m else ()):
        t = re.match(r'(distance2?)_([12])d_r[48]$', un)
        if t:
            out.append(('C17', un, 'datautils', un, distance(int(t.group(2)), t.group(1) == 'distance2')))
        elif re.match(r'gaussian_2d_r[48]$', un):
            out.append(('C17', un, 'datautils', un, gaussian))
        elif re.match(r'profile_axisymmetric_2d_r[48]$', un):
            out.append(('C17', un, 'datautils', un, profile))
    return out
