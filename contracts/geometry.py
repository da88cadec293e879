"""Contracts of the plane geometry: grids and rotations (C15), surfaces and the point test (C14),
overlap of a polygon with a pixel (C12)."""
import re
import time
import z3
from vf import ring, sym
from vf.fexec import Unsupported
from vf.sym import I, R, fresh, SUM, EX, FOLD, If, And, Or, Not, to_real, realfn, Prover
from vf.contract import run_contract, Result, settle
from contracts.sparse import unchanged

cos, sin, sqrt = realfn('cos'), realfn('sin'), realfn('sqrt')
PI = z3.Const('PI', R)
ZI, K1 = z3.IntVal(0), z3.IntVal(1)
Z, ONE = z3.RealVal(0), z3.RealVal(1)


def frame(c, *but):
    return unchanged(c, [k for k, a in enumerate(c.args) if a.name not in but and a.d.dims])


def radians(angle):
    return PI / 180 * angle


def sign(b):
    return If(b, z3.RealVal(-1), ONE)


def turned(c, X, Y):
    """(X, Y) reflected, rotated counter-clockwise and moved to the centre"""
    n = c.byname
    X, Y = sign(n['xreflection'].val) * X, sign(n['yreflection'].val) * Y
    co, si = cos(radians(n['angle'].val)), sin(radians(n['angle'].val))
    return n['xcenter'].val + co * X - si * Y, n['ycenter'].val + si * X + co * Y


def node(c, i, j):
    """the centre of the column i and row j before the reflections: columns along X, rows along -Y"""
    n = c.byname
    half = z3.Q(1, 2)
    s = n['spacing'].val
    return s * (to_real(i) - half * (to_real(n['n'].val) - 1)), s * (half * (to_real(n['m'].val) - 1) - to_real(j))


def grid(mods, u, kinds=('post',), **kw):
    def pre(c):
        c.assume(c.byname['m'].val >= 0, c.byname['n'].val >= 0)

    def post(c):
        n = c.byname
        i, j = fresh('i'), fresh('j')
        inside = (0 <= i, i < n['n'].val, 0 <= j, j < n['m'].val)
        want = turned(c, *node(c, i, j))
        return [('%s of the nodes' % 'xy'[k], (c.post(n['coords'], z3.IntVal(k), i, j) == want[k],) + inside) for k in range(2)]
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


# corners of a unit square, counter-clockwise from the first quadrant
CORNERS = [(1, 1), (-1, 1), (-1, -1), (1, -1)]


def squares(mods, u, kinds=('post',), **kw):
    def pre(c):
        n = c.byname
        c.assume(n['m'].val >= 0, n['n'].val >= 0, n['filling_factor'].val >= 0)

    def post(c):
        n = c.byname
        i, j = fresh('i'), fresh('j')
        inside = (0 <= i, i < n['n'].val, 0 <= j, j < n['m'].val)
        X, Y = node(c, i, j)
        side = n['spacing'].val * sqrt(n['filling_factor'].val)
        g = []
        fx, fy = n['xreflection'].val, n['yreflection'].val
        for l, (a, b) in enumerate(CORNERS):
            want = turned(c, X + a * side / 2, Y + b * side / 2)
            for k in range(2):
                got = c.post(n['coords'], z3.IntVal(k), z3.IntVal(l), i, j)
                for u in (True, False):
                    for v in (True, False):
                        at = lambda e: z3.simplify(z3.substitute(e, (fx, z3.BoolVal(u)), (fy, z3.BoolVal(v))))
                        g.append(('%s of the corner %d, reflections %d %d' % ('xy'[k], l, u, v), (at(got) == at(want[k]), fx == z3.BoolVal(u), fy == z3.BoolVal(v)) + inside))
        return g
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def rotation(inplace):
    def f(mods, u, kinds=('post',), **kw):
        def pre(c):
            c.assume(c.byname['n'].val >= 0)

        def post(c):
            n = c.byname
            i = fresh('i')
            x, y = n['x'].f, n['x' if inplace else 'y']
            inside = (0 <= i, i < n['n'].val)
            co, si = cos(radians(n['angle'].val)), sin(radians(n['angle'].val))
            p, q = x(ZI, i), x(K1, i)
            P, Q = c.post(y, ZI, i), c.post(y, K1, i)
            return [('x', (P == co * p - si * q,) + inside), ('y', (Q == si * p + co * q,) + inside)] + frame(c, y.name)
        return run_contract(mods, u, pre, post, kinds=kinds, **kw)
    return f


def lemma_rotation(mods, u, kinds=('post',), timeout=4000, deadline=None, sizes=None, **kw):
    res, ob, end = lemmas(timeout, deadline)
    p, q, P, Q, co, si = z3.Reals('x y X Y cos_angle sin_angle')
    p2, q2, P2, Q2 = z3.Reals('x2 y2 X2 Y2')
    turn = lambda p, q: (co * p - si * q, si * p + co * q)
    a, b = turn(p, q), turn(p2, q2)
    one = co * co + si * si == 1
    ob('a rotation preserves the scalar products', [one], a[0] * b[0] + a[1] * b[1] == (co * co + si * si) * (p * p2 + q * q2))
    ob('a rotation preserves the orientation', [one], a[0] * b[1] - a[1] * b[0] == (co * co + si * si) * (p * q2 - q * p2))
    # the grid is centred: its opposite nodes are symmetric about the centre
    n, i, s = z3.Reals('n i s')
    X = lambda i: s * (i - (n - 1) / 2)
    ob('opposite columns are symmetric', [], X(i) + X(n - 1 - i) == 0)
    ob('columns are evenly spaced', [], X(i + 1) - X(i) == s)
    return end()


class _U:
    fname, lineno, name = 'contracts/geometry.py', 0, 'lemma'


def lemmas(timeout, deadline):
    res = Result(_U)
    t0 = time.time()
    P = Prover(None, timeout, deadline)

    def ob(name, assums, goal):
        st, md = P.prove(list(assums), goal)
        res.obligs.append(('lemma:' + name, 'post', st, 'contracts/geometry.py', md))

    def end():
        settle(res, P)
        res.time = time.time() - t0
        return res
    return res, ob, end


# ------------------------------------------------------------------ C14

def edge(x, y, i, n):
    """ends of the edge that arrives at the vertex i"""
    j = If(i == 0, n - 1, i - 1)
    return x(j), y(j), x(i), y(i)


def cross(e):
    return e[0] * e[3] - e[1] * e[2]


def surface(mods, u, kinds=('post',), **kw):
    def pre(c):
        c.assume(c.byname['nvertices'].val >= 1, c.byname['npolygons'].val >= 0)

    def post(c):
        n = c.byname
        k = fresh('k')
        nv = n['nvertices'].val
        xy = n['xy'].f
        area2 = SUM(nv, lambda i: cross(edge(lambda i: xy(ZI, i, k), lambda i: xy(K1, i, k), i, nv)))
        return [('shoelace area', (c.post(n['output'], k) == area2 / 2, 0 <= k, k < n['npolygons'].val))] + frame(c, 'output')
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def lemma_surface(mods, u, kinds=('post',), timeout=4000, deadline=None, sizes=None, **kw):
    """laws of twice the surface A(x, y, n) = SUM over the edges, by induction over the edges"""
    res, ob, end = lemmas(timeout, deadline)
    x, y = z3.Function('vertex_x', I, R), z3.Function('vertex_y', I, R)
    n, m = z3.Ints('n m')
    a, b = z3.Reals('shift_x shift_y')
    pair = lambda j, i: x(j) * y(i) - y(j) * x(i)                 # from j to i
    # the edges but the one that closes the polygon, plus that one
    inner = lambda m, f: SUM(m, lambda t: f(t, t + 1))
    full = lambda m: SUM(m, lambda i: If(i == 0, pair(n - 1, ZI), pair(i - 1, i)))
    ob('closing edge first, base', [n >= 1], full(K1) == pair(n - 1, ZI) + inner(ZI, pair))
    ob('closing edge first, step', [n >= 1, m >= 0, full(m + 1) == pair(n - 1, ZI) + inner(m, pair)], full(m + 2) == pair(n - 1, ZI) + inner(m + 1, pair))
    # translation: A moves by telescoping sums
    moved = lambda j, i: (x(j) + a) * (y(i) + b) - (y(j) + b) * (x(i) + a)
    tr = lambda m: inner(m, moved) == inner(m, pair) + a * (y(m) - y(ZI)) + b * (x(ZI) - x(m))
    ob('translation, base', [], tr(ZI))
    ob('translation, step', [m >= 0, tr(m)], tr(m + 1))
    ob('translation, conclusion', [n >= 1, tr(n - 1)], moved(n - 1, ZI) + inner(n - 1, moved) == pair(n - 1, ZI) + inner(n - 1, pair))
    # reversal of the vertices: w(i) = v(n - 1 - i)
    back = lambda m: SUM(m, lambda t: pair(n - 1 - t, n - 2 - t))
    tail = lambda m: SUM(m, lambda t: pair(n - 1 - m + t, n - m + t))
    rv = lambda m: back(m) == inner(n - 1 - m, pair) - inner(n - 1, pair)
    ob('reversal, base', [n >= 1], rv(ZI))
    ob('reversal, step', [n >= 1, 0 <= m, m + 1 <= n - 1, rv(m), inner(n - 1 - m, pair) == inner(n - 2 - m, pair) + pair(n - 2 - m, n - 1 - m)], rv(m + 1))
    ob('reversal, last edge of a prefix', [m >= 0], inner(m + 1, pair) == inner(m, pair) + pair(m, m + 1))
    ob('reversal, conclusion', [n >= 1, rv(n - 1)], pair(ZI, n - 1) + back(n - 1) == -(pair(n - 1, ZI) + inner(n - 1, pair)))
    # starting from the next vertex: w(i) = v(i + 1), w(n - 1) = v(0)
    shift = lambda m: SUM(m, lambda t: pair(t + 1, t + 2))
    sh = lambda m: pair(ZI, K1) + shift(m) == inner(m + 1, pair)
    ob('starting vertex, base', [], sh(ZI))
    ob('starting vertex, step', [m >= 0, sh(m)], sh(m + 1))
    ob('starting vertex, conclusion', [n >= 2, sh(n - 2)], pair(ZI, K1) + shift(n - 2) + pair(n - 1, ZI) == pair(n - 1, ZI) + inner(n - 1, pair))
    return end()


def on_edge(e, px, py):
    """the point is on the closed segment"""
    xj, yj, xi, yi = e
    lo = lambda a, b: If(a < b, a, b)
    hi = lambda a, b: If(a < b, b, a)
    return And((xj - xi) * (py - yi) == (yj - yi) * (px - xi), lo(xi, xj) <= px, px <= hi(xi, xj), lo(yi, yj) <= py, py <= hi(yi, yj))


def crosses(e, px, py):
    """the ray from the point towards the right crosses the edge (its upper end excluded)"""
    xj, yj, xi, yi = e
    # position of the point relative to the line, with the orientation of the edge
    s = (xj - xi) * (py - yi) - (yj - yi) * (px - xi)
    return And((yi > py) != (yj > py), If(yj > yi, s > 0, s < 0))


def point(mods, u, kinds=('post',), **kw):
    def pre(c):
        pass

    def post(c):
        n = c.byname
        nv = n['polygon'].exts[1]
        px, py = n['point'].f(ZI), n['point'].f(K1)
        x, y = [lambda i, k=k: n['polygon'].f(z3.IntVal(k), i) for k in range(2)]
        E = lambda i: edge(x, y, i, nv)
        odd = FOLD(nv, z3.IntVal(-1), lambda a, i: If(crosses(E(i), px, py), -a, a))
        i = fresh('i')
        j = If(i == 0, nv - 1, i - 1)
        # the iterations at which the loops over the vertices and the edges are left
        exits = sym.apps(c.result, lambda a: sym.is_iter(a) and sym.iter_of(a).op == 'FIRST')
        found = Or(*[F < F.arg(0) for F in exits])
        folds = sym.apps(c.result, lambda a: sym.is_iter(a) and sym.iter_of(a).op == 'FOLD')
        goals = [('inside by the parity of the crossings', (c.result == odd, Not(found)))]
        if len(folds) == 1:
            # the same, in pieces: the fold, where it starts and ends, its step
            F, acc = folds[0], fresh('acc')
            goals = [('the answer off the border', (c.result == F, Not(found))),
                     ('starts from the outside', F.arg(1) == -1), ('every edge is counted', F.arg(0) == nv)]
            for nm, i1, j1 in (('first', ZI, nv - 1), ('next', i, i - 1)):
                rng = [0 <= i1, i1 < nv, 0 <= j1]
                step = z3.simplify(ring.pruned(z3.simplify(sym.iter_of(F).inst(F, i1, acc)), rng))
                goals.append(('the %s edge counted when crossed' % nm, tuple([step == If(crosses((x(j1), y(j1), x(i1), y(i1)), px, py), -acc, acc)] + rng)))
        for nm, i1, j1 in (('first', ZI, nv - 1), ('next', i, i - 1)):
            rng = [0 <= i1, i1 < nv, 0 <= j1]
            # of the edges, the one that arrives at i; both ends among the vertices
            divides = lambda F: sym.apps(sym.iter_of(F).inst(F, i), lambda a: a.decl().kind() == z3.Z3_OP_DIV)
            here = [(F, p) for F in exits for p in (i1, j1) if p is i1 or not divides(F)]
            prune = lambda e: z3.simplify(ring.pruned(z3.simplify(e), rng))
            ends = [prune(sym.iter_of(F).inst(F, p)) for F, p in here]
            goals.append(('border seen from the %s edge' % nm, tuple([Or(*ends), on_edge((x(j1), y(j1), x(i1), y(i1)), px, py)] + rng)))
            goals += [('loop %d covers the %s edge' % (exits.index(F), nm), tuple([And(0 <= p, p < F.arg(0))] + rng)) for F, p in here]
        # FIRST is the first
        least = [z3.Implies(And(0 <= i, i < F.arg(0), sym.iter_of(F).inst(F, i)), F <= i) for F in exits]
        for k, F in enumerate(exits):
            goals.append(('the loop %d is left' % k, tuple([F < F.arg(0), 0 <= i, i < F.arg(0), sym.iter_of(F).inst(F, i)] + least)))
        for k, F in enumerate(exits):
            at = [F < F.arg(0), 0 <= F, sym.iter_of(F).inst(F, F)]
            goals.append(('answer on the border (%d)' % k, tuple([c.result == 0] + at)))
            for nm, i1, j1 in (('first', ZI, nv - 1), ('next', i, i - 1)):
                rng = [0 <= i1, i1 < nv, 0 <= j1]
                body = z3.simplify(ring.pruned(z3.simplify(sym.iter_of(F).inst(F, i1)), rng))
                goals.append(('left from the border (%d), %s edge' % (k, nm), tuple([on_edge((x(j1), y(j1), x(i1), y(i1)), px, py), body] + rng)))
        return goals + frame(c)
    return run_contract(mods, u, pre, post, kinds=kinds, opts={'exts': {(1, 0): 2}}, **kw)


# ------------------------------------------------------------------ C12

def clip01(y):
    return If(y <= 0, Z, If(y >= 1, ONE, y))


def primitive(y):
    """of clip01, that vanishes at 0"""
    return If(y <= 0, Z, If(y >= 1, y - z3.Q(1, 2), y * y / 2))


def under(x1, y1, x2, y2):
    """area of the pixel under the line from (x1, y1) to (x2, y2), x1 != x2, counted from x1 to
    x2: the integral of clip01(height) over the clipped abscissae, times the slope if not zero"""
    slope = (y2 - y1) / (x2 - x1)
    a, b = clip01(x1), clip01(x2)
    return If(slope == 0, (b - a) * clip01(y1), primitive(y1 + slope * (b - x1)) - primitive(y1 + slope * (a - x1))), If(slope == 0, ONE, slope)


def segment(mods, u, kinds=('post',), **kw):
    def post(c):
        x1, y1, x2, y2 = [a.val for a in c.args[:4]]
        area = c.post(c.args[4]) - c.args[4].val
        num, den = under(x1, y1, x2, y2)
        return [('vertical edge', (area == 0, x1 == x2)), ('area under the edge in the pixel', (area * den == num, x1 != x2))]
    return run_contract(mods, u, lambda c: None, post, kinds=kinds, **kw)


EDGE = [z3.Function('area_under_edge', R, R, R, R, R), ]


def polygon(mods, u, kinds=('post',), **kw):
    """the edges by the contract of intersection_segment_unity_square: it adds to its last
    argument an amount that depends on the two points only"""
    calls = []

    def hook(ex, v, args, st):
        if not re.match(r'intersection_segment_unity_square_r[48]$', v.name):
            return None
        v.parse()
        fr = ex.bind(v, [ex.actual(a, st) for a in args], st)
        pt = [ex.read_ref(fr.env[a], st) for a in v.args[:4]]
        out = fr.env[v.args[4]]
        calls.append(v.name)
        ex.store(out, ex.read_ref(out, st) + EDGE[0](*pt), st)
        return True

    def pre(c):
        c.assume(c.byname['nvertices'].val >= 1)

    def post(c):
        if not calls:
            raise Unsupported('the edges are not handed to the clipping procedure')
        n = c.byname
        nv, xy = n['nvertices'].val, n['xy'].f

        def one(i):
            xj, yj, xi, yi = edge(lambda i: xy(ZI, i), lambda i: xy(K1, i), i, nv)
            return EDGE[0](xi, yi, xj, yj)
        return [('sum over the edges', c.result == SUM(nv, one))] + frame(c)
    return run_contract(mods, u, pre, post, kinds=kinds, opts={'hook_call': hook}, **kw)


def lemma_overlap(mods, u, kinds=('post',), timeout=4000, deadline=None, sizes=None, **kw):
    res, ob, end = lemmas(timeout, deadline)
    x1, y1, x2, y2 = z3.Reals('x1 y1 x2 y2')
    n1, d1 = under(x1, y1, x2, y2)
    n2, d2 = under(x2, y2, x1, y1)
    A, B = z3.Reals('area back')
    c1, c2 = A * d1 == n1, B * d2 == n2
    ob('antisymmetric when the edge is reversed', [x1 != x2, c1, c2], A + B == 0)
    for nm, where in (('left of', And(x1 <= 0, x2 <= 0)), ('right of', And(x1 >= 1, x2 >= 1)), ('below', And(y1 <= 0, y2 <= 0))):
        ob('no area for an edge %s the pixel' % nm, [x1 != x2, c1, where], A == 0)
    ob('an edge above the pixel', [x1 != x2, c1, y1 >= 1, y2 >= 1], A == clip01(x2) - clip01(x1))
    ob('an edge between two points of the pixel', [x1 != x2, c1] + [And(0 <= v, v <= 1) for v in (x1, y1, x2, y2)], A == (x2 - x1) * (y1 + y2) / 2)
    ob('bounded by the width', [x1 < x2, c1], And(0 <= A, A <= clip01(x2) - clip01(x1)))
    # a polygon above the pixel: the differences add up to nothing
    X = z3.Function('vertex_x', I, R)
    m, n = z3.Ints('m n')
    tel = lambda m: SUM(m, lambda i: clip01(X(i)) - clip01(X(i + 1))) == clip01(X(ZI)) - clip01(X(m))
    ob('above, base', [], tel(ZI))
    ob('above, step', [m >= 0, tel(m)], tel(m + 1))
    ob('no area for a polygon above the pixel', [n >= 1, tel(n - 1)], clip01(X(n - 1)) - clip01(X(ZI)) + SUM(n - 1, lambda i: clip01(X(i)) - clip01(X(i + 1))) == 0)
    return end()


def tasks(mods):
    out = []
    m = mods.get('geometry')
    if m:
        for un, prop, fn in (('create_grid', 'C15', grid), ('create_grid_squares', 'C15', squares), ('rotate_2d', 'C15', rotation(False)),
                             ('rotate_2d_inplace', 'C15', rotation(True)), ('surface_simple_polygon', 'C14', surface)):
            out.append((prop, un, 'geometry', un, fn))
    out.append(('C15', 'rotations and grids', None, 'rotate_2d / create_grid', lemma_rotation, {'nobounded': 1}))
    out.append(('C14', 'laws of the surface', None, 'surface_simple_polygon', lemma_surface, {'nobounded': 1}))
    out.append(('C12', 'laws of the overlap', None, 'intersection_segment_unity_square / intersection_polygon_unity_square', lemma_overlap, {'nobounded': 1}))
    m = mods.get('module_geometry')
    for un in (m.units if m else ()):
        if re.match(r'intersection_segment_unity_square_r[48]$', un):
            out.append(('C12', un, 'module_geometry', un, segment))
        if re.match(r'intersection_polygon_unity_square_r[48]$', un):
            out.append(('C12', un, 'module_geometry', un, polygon))
        if re.match(r'point_in_polygon_r[48]$', un):
            out.append(('C14', un, 'module_geometry', un, point))
    return out
