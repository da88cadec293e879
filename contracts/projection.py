"""Contracts of the integration of polygons over a grid of pixels (projection.f90): C13.

The overlap of a polygon with a pixel is that of intersection_polygon_unity_square (C12), by
contract: a number AREA(i, j, s) that depends on the pixel and on the polygon, and is zero for
a polygon that has all its vertices on one side of the pixel."""
import re
import z3
from vf import sym, ring
from vf.fexec import Unsupported
from vf.sym import I, R, B, fresh, SUM, EX, If, And, Or, Not, to_real
from vf.contract import run_contract
from contracts.sparse import unchanged

AREA = z3.Function('overlap', I, I, I, R)
HALF = z3.Q(1, 2)
Z0, Z1 = z3.IntVal(0), z3.IntVal(1)


def as_int(e):
    """the integer a real term stands for, or None"""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        a, b = as_int(ch[1]), as_int(ch[2])
        return None if a is None or b is None else If(ch[0], a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB):
        ch = [as_int(c) for c in ch]
        if any(c is None for c in ch):
            return None
        return z3.simplify(z3.Sum(ch) if k == z3.Z3_OP_ADD else z3.Product(ch) if k == z3.Z3_OP_MUL else ch[0] - z3.Sum(ch[1:]) if k == z3.Z3_OP_SUB else -ch[0])
    return None


def folds(e, op='FOLD'):
    return [x for x in sym.apps(e, sym.is_iter) if sym.iter_of(x).op == op]


def deep(es):
    """the iterated terms in the expressions and in their bodies"""
    out, todo = {}, list(es)
    while todo:
        e = todo.pop()
        for x in sym.apps(e, sym.is_iter):
            if x.get_id() not in out:
                out[x.get_id()] = x
                it = sym.iter_of(x)
                todo.append(it.inst(x, fresh('in'), None if it.acc is None else fresh('acc', x.sort())))
    return list(out.values())


class extents:
    """the least and greatest coordinates of the vertices of a detector, by induction on the
    vertices: a loop that starts with the first one"""

    def __init__(self, c, es, s):
        V, nv = c.ex.vertex, c.ex.nvertices
        self.V, self.nv, self.s, self.goals, self.apps = V, nv, s, [], {}
        t, acc = z3.Int('t'), z3.Real('acc')
        for F in [x for x in deep(es) if sym.iter_of(x).op == 'FOLD']:
            for a in (0, 1):
                if not F.arg(1).eq(V(z3.IntVal(a), Z0, s)):
                    continue
                nxt = sym.iter_of(F).inst(F, t, acc)
                x = V(z3.IntVal(a), t + 1, s)
                lower = c.ex.prover.prove([], nxt <= acc)[0] == 'proved'
                le = (lambda p, r: p <= r) if lower else (lambda p, r: p >= r)
                nm = '%s coordinate %d' % ('least' if lower else 'greatest', a)
                here = (0 <= t, t < nv - 1)
                self.goals += [('%s, all the vertices' % nm, F.arg(0) == nv - 1), ('%s, monotone' % nm, (le(nxt, acc),) + here),
                               ('%s, beyond the vertices' % nm, (le(nxt, x),) + here), ('%s, attained' % nm, (Or(nxt == acc, nxt == x),) + here)]
                self.apps[a, lower] = F
        if len(self.apps) != 4:
            raise Unsupported('the extent of the detectors is not recognised')

    def bound(self, a, k, s):
        out = []
        for (b, lower), F in self.apps.items():
            G, x = z3.substitute(F, (self.s, s)), self.V(a, k, s)
            out.append(z3.Implies(And(a == b, 0 <= k, k < self.nv), G <= x if lower else G >= x))
        return out

    def at(self, key, s):
        return z3.Function('vertex_%s_%d' % ('least' if key[1] else 'greatest', key[0]), I, I)(s)

    def attained(self, s):
        out = ()
        for key, F in self.apps.items():
            w = self.at(key, s)
            out += (And(0 <= w, w < self.nv, z3.substitute(F, (self.s, s)) == self.V(z3.IntVal(key[0]), w, s)),)
        return out


def cases(es, s):
    """the signs on which the first pixels visited depend"""
    at = {}
    for x in sym.apps(z3.And(*[e == e.sort().cast(0) if z3.is_arith(e) else e for e in es]), lambda e: z3.is_ge(e) or z3.is_le(e)):
        if z3.is_rational_value(x.arg(1)) and sym.is_iter(x.arg(0)):
            at[x.get_id()] = x
    out = [()]
    for x in at.values():
        out = [p + (y,) for p in out for y in (x, Not(x))]
    if len(out) > 16:
        raise Unsupported('too many cases')
    return out


class Raster:
    """the value left in an element of the matrix by a loop over the rows of a loop over the
    columns; step(row, column, value before)"""

    def __init__(self, e, pre, cut):
        F = [x for x in folds(e) if x.arg(1).eq(pre)]
        if len({x.get_id() for x in F}) != 1:
            raise Unsupported('the matrix is not filled by a loop over the rows')
        self.outer = F[0]
        v, u = z3.Ints('row~ column~')
        acc = z3.Const('before~', e.sort())
        G = cut(sym.iter_of(self.outer).inst(self.outer, v, acc))
        if not (sym.is_iter(G) and sym.iter_of(G).op == 'FOLD' and G.arg(1).eq(acc)):
            raise Unsupported('the matrix is not filled by a loop over the columns')
        body = cut(sym.iter_of(G).inst(G, u, acc))
        if any(x.eq(v) for x in sym.free_consts(G.arg(0))):
            raise Unsupported('the columns depend on the row')
        self.count = G.arg(0), self.outer.arg(0)
        A = [x for x in sym.apps(body, lambda x: x.decl().name() == AREA.name())]
        if len({x.get_id() for x in A}) != 1:
            raise Unsupported('not one pixel at a time')
        self.low = tuple(z3.simplify(z3.substitute(A[0].arg(p), (x, Z0))) for p, x in ((0, u), (1, v)))
        for p, x in ((0, u), (1, v)):
            if not z3.is_true(z3.simplify(A[0].arg(p) == self.low[p] + x)):
                raise Unsupported('not a raster order')
        self.step = lambda row, col, before: z3.simplify(z3.substitute(body, (v, row), (u, col), (acc, before)))


def integration(mods, u, kinds=('post',), **kw):
    calls = []

    def hook(ex, v, args, st):
        if not re.match(r'intersection_polygon_unity_square_r[48]$', v.name):
            return None
        v.parse()
        fr = ex.bind(v, [ex.actual(a, st) for a in args], st)
        p, n = fr.env[v.args[0]], ex.read_ref(fr.env[v.args[1]], st)
        j = fresh('j')
        here = st.copy().assume(And(0 <= j, j < n))
        rd = []
        for k in (0, 1):
            idx = p.canon((p.dims[0][0] + k, p.dims[1][0] + j))
            ex.access(p.st, idx, here, False)
            rd.append(z3.simplify(ring.pruned(z3.simplify(st.mem[p.st].get(idx)), list(here.conds))))
        name = ex.vertex.name()
        pix, smp = [], []
        for k, e in enumerate(rd):
            ap = sym.apps(e, lambda x: x.decl().name() == name)
            ap = [a for a in ap if a.arg(1).eq(j)]
            if len(ap) != 1:
                raise Unsupported('the polygon handed over is not a detector')
            i = as_int(z3.simplify(ex.vertex(Z0 + k, j, ap[0].arg(2)) - e + HALF))
            if i is None or any(c.eq(j) for c in sym.free_consts(i)):
                raise Unsupported('the polygon handed over is not relative to a pixel')
            pix.append(i)
            smp.append(ap[0].arg(2))
        ex.oblige('one polygon relative to a pixel', 'post', here, And(smp[0] == smp[1], n == ex.nvertices, *[
            e == ex.vertex(Z0 + k, j, smp[0]) - (to_real(pix[k]) - HALF) for k, e in enumerate(rd)]))
        calls.append(tuple(pix) + (smp[0],))
        return AREA(*calls[-1])

    def pre(c):
        n = c.byname
        c.ex.vertex, c.ex.nvertices = n['vertex'].f, n['nvertices'].val
        c.assume(n['nvertices'].val >= 1, n['nx'].val >= 0, n['ny'].val >= 0, n['ninputs'].val >= 0, n['ncolmax'].val >= 0)

    def post(c):
        if not calls:
            raise Unsupported('the overlaps are not those of intersection_polygon_unity_square')
        n = c.byname
        V, nv, nin, cap, nx, ny = [n[a].f if a == 'vertex' else n[a].val for a in ('vertex', 'nvertices', 'ninputs', 'ncolmax', 'nx', 'ny')]
        q, s, t, k, i, j = z3.Ints('q s t k i j')
        mtx = n['matrix']
        res = {a: z3.simplify(c.post(mtx, q, s, comp=a)) for a in ('index', 'value')}
        need, out = [z3.simplify(c.post(n[a])) for a in ('min_ncolmax', 'out')]
        ext = extents(c, list(res.values()), s)
        goals = ext.goals
        # the contract of intersection_polygon_unity_square: no overlap if all the vertices
        # are on one side of the pixel
        W = [z3.Function('vertex_%s' % a, I, I, I, I) for a in ('right', 'left', 'above', 'below')]

        def sides(i, j, s):
            w = [f(i, j, s) for f in W]
            return z3.Implies(AREA(i, j, s) != 0, And(*[And(0 <= x, x < nv) for x in w], V(Z0, w[0], s) > to_real(i) - HALF, V(Z0, w[1], s) < to_real(i) + HALF,
                                                      V(Z1, w[2], s) > to_real(j) - HALF, V(Z1, w[3], s) < to_real(j) + HALF))
        c.rule(AREA, sides)
        c.rule(V, ext.bound)
        inside = (0 <= s, s < nin)
        N = None
        for case in cases(list(res.values()), s):
            cut = lambda e: z3.simplify(ring.pruned(z3.simplify(e), list(inside + case)))
            nm = ''.join('-+'[not z3.is_not(a)] for a in case)
            for a, target in (('index', lambda i, j: i + j * nx), ('value', lambda i, j: If(AREA(i, j, s) >= 0, AREA(i, j, s), -AREA(i, j, s)))):
                e = cut(res[a])
                r = Raster(e, mtx.f[a](q, s), cut)
                lo, (n1, n2) = r.low, r.count
                one = lambda i, j: If(AREA(i, j, s) != 0, Z1, Z0)
                row = lambda m, j: cut(SUM(m, lambda u: one(lo[0] + u, j), I))
                rows = lambda m: cut(SUM(m, lambda v: SUM(n1, lambda u: one(lo[0] + u, lo[1] + v), I), I))
                k1, k2, u, v = z3.Ints('k1 k2 u v')
                pi, pj = lo[0] + k2, lo[1] + k1
                tgt = cut(target(pi, pj))
                acc = z3.Const('acc', e.sort())
                full = inside + case + (0 <= q, q < cap)
                here = full + (0 <= k1, k1 < n2, 0 <= k2, k2 < n1, AREA(pi, pj, s) != 0, q == rows(k1) + row(k2, pj))
                # the number of pixels found never decreases
                up = row(k2 + 1, pj) == row(k2, pj) + one(pi, pj)
                g = []
                g.append(('no overlap out of the pixels visited', (And(lo[0] <= i, i < lo[0] + n1, lo[1] <= j, j < lo[1] + n2),
                                                                   0 <= i, i < nx, 0 <= j, j < ny, AREA(i, j, s) != 0) + inside + case))
                g.append(('pixels of the grid', (And(0 <= pi, pi < nx, 0 <= pj, pj < ny),) + inside + case + (0 <= k1, k1 < n2, 0 <= k2, k2 < n1)))
                g.append(('written', (r.step(k1, k2, acc) == tgt,) + here))
                g.append(('kept in the row', (r.step(k1, u, tgt) == tgt, k2 < u, u < n1, up, row(u, pj) >= row(k2 + 1, pj)) + here))
                g.append(('kept in the next rows', (r.step(v, u, tgt) == tgt, k1 < v, v < n2, 0 <= u, u < n1, up, row(n1, pj) >= row(k2 + 1, pj),
                                                    rows(k1 + 1) == rows(k1) + row(n1, pj), rows(v) >= rows(k1 + 1), row(u, lo[1] + v) >= 0) + here))
                g.append(('at its rank', (e == tgt, r.outer == tgt, up, row(n1, pj) >= row(k2 + 1, pj),
                                          rows(k1 + 1) == rows(k1) + row(n1, pj), rows(n2) >= rows(k1 + 1)) + here))
                g.append(('padding', (e == (-1 if a == 'index' else 0), q >= rows(n2)) + full))
                goals += [('%s%s, %s' % (a, nm, x), y) for x, y in g]
            # the number of pixels needed
            m = rows(n2)
            at = lambda e: z3.substitute(e, (s, t))
            hereT = (0 <= t, t < nin) + tuple(at(x) for x in case)
            F = [x for x in folds(need) if x.eq(need)]
            if not F:
                raise Unsupported('the number of pixels needed is not computed by a loop')
            acc = fresh('acc', I)
            nxt = sym.iter_of(F[0]).inst(F[0], t, acc)
            goals += [('pixels needed%s, %s' % (nm, x), (y,) + hereT) for x, y in (
                ('monotone', nxt >= acc), ('enough', nxt >= at(m)), ('attained', Or(nxt == acc, nxt == at(m))))]
        goals.append(('pixels needed, all the detectors', And(F[0].arg(0) == nin, F[0].arg(1) == 0)))
        # the flag
        g = [x for x in sym.apps(out, sym.is_iter) if sym.iter_of(x).op == 'EX']
        if len(g) != 1:
            raise Unsupported('the flag is not that of some detector')
        cond = sym.iter_of(g[0]).inst(g[0], t)
        beyond = lambda k, t: Or(V(Z0, k, t) < -HALF, V(Z0, k, t) > to_real(nx) - HALF, V(Z1, k, t) < -HALF, V(Z1, k, t) > to_real(ny) - HALF)
        goals.append(('flag, some detector', (out == EX(nin, lambda t: sym.iter_of(g[0]).inst(g[0], t)), Not(n['out'].val))))
        goals.append(('flag raised by a detector beyond the grid', (cond, 0 <= t, t < nin, 0 <= k, k < nv, beyond(k, t))))
        goals.append(('flag raised only by a detector beyond the grid', (Or(*[beyond(ext.at(key, t), t) for key in ext.apps]), 0 <= t, t < nin, cond) + ext.attained(t)))
        return goals + unchanged(c, [m for m, x in enumerate(c.args) if x.name == 'vertex'])
    return run_contract(mods, u, pre, post, kinds=kinds, opts={'hook_call': hook}, **kw)


def tasks(mods):
    out = []
    m = mods.get('projection')
    for un in (m.units if m else ()):
        if re.match(r'matrix_polygon_integration_i[48]_r[48]$', un):
            out.append(('C13', un, 'projection', un, integration, {'nobounded': 1, 'deadline': 150}))
    return out
