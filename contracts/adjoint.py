"""C03: the adjoint identity, as a lemma over the contracts of the products.

The contracts of contracts/sparse.py say what FSC and FSR products compute
(fsc_spec, fsr_spec).  SparseOperator.T only exchanges the FSC and FSR reading of
the same storage, so that the adjoint is a relation between the two
specifications, proved here by induction over the three loops, for all sizes.
"""
import time
import z3
from vf.sym import I, R, fresh, fresh_fn, SUM, If, And, Prover
from vf.contract import Result, settle
from contracts import sparse
from contracts.sparse import c_scalar, c_rot2d, c_rot3d, c_block_fsr, c_block_fsc, fsc_spec, fsr_spec, Z


class _U:
    fname, lineno, name = 'contracts/adjoint.py', 0, 'adjoint'


def lemma(kind, mods, unit, kinds=('post',), m=1, n=1, timeout=4000, deadline=None, sizes=None, **kw):
    """<y, fsc(x)> == <fsr_of_the_transposed(y), x> for one storage"""
    res = Result(_U)
    t0 = time.time()
    rules = {}

    def bg(exprs):
        # stored indices are below the number of rows
        out = []
        from vf.sym import apps
        acc = []
        for e in exprs:
            acc += apps(e, lambda a: a.num_args() > 0 and a.decl().name() == idx.name())
        for a in acc:
            out.append(a < nout)
        return out
    P = Prover(bg, timeout, deadline)
    idx = z3.Function('st_index', I, I, I)
    nout, nin, ncol = z3.Ints('nout nin ncol')
    k, q, i = z3.Ints('k q i')
    y, x = z3.Function('vec_y', I, R), z3.Function('vec_x', I, R)
    v = z3.Function('st_coef', I, I, R)      # one component of the stored block
    base = [nout >= 0, nin >= 0, ncol >= 0]

    def ob(name, assums, goal):
        st, md = P.prove(base + assums, goal)
        res.obligs.append(('lemma:' + name, 'post', st, 'contracts/adjoint.py', md))
        return st == 'proved'

    # L1: sum over q of a Kronecker delta
    w, t = z3.Real('w'), z3.Int('t')

    def delta(nn, t, w):
        return SUM(nn, lambda q: If(t == q, y(q) * w, Z))

    def L1(nn, t, w):
        return delta(nn, t, w) == If(And(0 <= t, t < nn), y(t) * w, Z)
    ob('delta, base', [k == 0], L1(k, t, w))
    ob('delta, step', [k >= 0, L1(k, t, w)], L1(k + 1, t, w))

    # L2: one column of the storage
    def C(q, i, nn):
        return SUM(nn, lambda j: If(idx(j, i) == q, v(j, i) * x(i), Z))

    def D(i, nn):
        return SUM(nn, lambda j: If(idx(j, i) >= 0, v(j, i) * y(idx(j, i)), Z))

    def L2(i, nn):
        return SUM(nout, lambda q: y(q) * C(q, i, nn)) == x(i) * D(i, nn)
    ob('column, base', [k == 0], L2(i, k))
    # Sum_q y(q) C(q, k+1) = Sum_q y(q) C(q, k) + Sum_q delta
    split = SUM(nout, lambda q: y(q) * C(q, i, k + 1)) == SUM(nout, lambda q: y(q) * C(q, i, k)) + delta(nout, idx(k, i), v(k, i) * x(i))
    ob('column, split', [k >= 0], split)
    ob('column, step', [k >= 0, split, L2(i, k), L1(nout, idx(k, i), v(k, i) * x(i))], L2(i, k + 1))

    # L3: all the columns
    def S(q, nn):
        return SUM(nn, lambda i: C(q, i, ncol))

    def L3(nn):
        return SUM(nout, lambda q: y(q) * S(q, nn)) == SUM(nn, lambda i: x(i) * D(i, ncol))
    ob('matrix, base', [k == 0], L3(k))
    split3 = SUM(nout, lambda q: y(q) * S(q, k + 1)) == SUM(nout, lambda q: y(q) * S(q, k)) + SUM(nout, lambda q: y(q) * C(q, k, ncol))
    ob('matrix, split', [k >= 0], split3)
    ob('matrix, step', [k >= 0, split3, L3(k), L2(k, ncol)], L3(k + 1))

    # the specifications of the kernels are sums of such components, and the two
    # readings of the storage use transposed blocks
    f = {nm: z3.Function('st_' + nm, *([I] * (4 if kind == 'block' and nm == 'value' else 2)), R) for nm in ('value', 'r11', 'r21', 'r22', 'r32')}
    f['index'] = idx
    na, nb = {'scalar': (1, 1), 'rot2d': (2, 2), 'rot3d': (3, 3), 'block': (m, n)}[kind]
    cf = {'scalar': c_scalar, 'rot2d': c_rot2d, 'rot3d': c_rot3d}.get(kind)
    j = z3.Int('j')
    X = [z3.Function('x_%d' % b, I, R) for b in range(nb)]
    Y = [z3.Function('y_%d' % a, I, R) for a in range(na)]
    tr = kind in ('rot2d', 'rot3d')
    for a in range(na):
        # component a of the FSC product, entry by entry
        spec = fsc_spec(f, ncol, nin, Z, lambda b, i: X[b](i), cf or c_block_fsc, nb, a, q, tr)
        parts = Z
        for b in range(nb):
            co = (lambda j, i: cf(f, b, a, j, i)) if tr else (lambda j, i: (cf or c_block_fsc)(f, a, b, j, i))
            parts = parts + SUM(nin, lambda i: SUM(ncol, lambda j: If(idx(j, i) == q, co(j, i) * X[b](i), Z)))
        ob('product component %d is the sum over its %d blocks columns' % (a, nb), [0 <= q, q < nout], spec == parts)
        for b in range(nb):
            direct = (cf(f, b, a, j, i) if tr else (cf or c_block_fsc)(f, a, b, j, i))
            # FSR reading of the transposed matrix: row i, component b <- a
            back = (cf or c_block_fsr)(f, b, a, j, i)
            ob('transposed block (%d,%d)' % (a, b), [], direct == back)
    for b in range(nb):
        spec = fsr_spec(f, ncol, Z, lambda a, q: Y[a](q), cf or c_block_fsr, na, b, i)
        parts = Z
        for a in range(na):
            parts = parts + SUM(ncol, lambda j: If(idx(j, i) >= 0, (cf or c_block_fsr)(f, b, a, j, i) * Y[a](idx(j, i)), Z))
        ob('transposed product component %d is the sum over its blocks' % b, [0 <= i, i < nin], spec == parts)
    settle(res, P)
    res.time = time.time() - t0
    return res


def tasks(mods):
    out = []
    for kind in ('scalar', 'rot2d', 'rot3d'):
        out.append(('C03', 'adjoint_' + kind, None, 'fsc_%s / fsr_%s' % (kind, kind), lambda mods, u, kind=kind, **k: lemma(kind, mods, u, **k), {'nobounded': 1}))
    for a, b in sparse.SHAPES:
        out.append(('C03', 'adjoint_block%dx%d' % (a, b), None, 'fsc_block / fsr_block', lambda mods, u, a=a, b=b, **k: lemma('block', mods, u, m=a, n=b, **k), {'nobounded': 1}))
    return out
