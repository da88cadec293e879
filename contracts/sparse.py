"""Contracts of the sparse matrix kernels (sparse.f90.j2, module_operators.f90.j2)."""
import re
import z3
from vf.sym import I, R, B, fresh, SUM, EX, ALL, FIRST, If, And, Or, Not, conc, to_real
from vf.contract import run_contract
from vf.bufs import RecBuf, ByteBuf

Z = z3.RealVal(0)


def sum_b(terms):
    r = None
    for t in terms:
        r = t if r is None else r + t
    return r if r is not None else Z


# coefficient of the expanded block of one stored entry: coef(f, a, b, j, i)
def c_scalar(f, a, b, j, i):
    return f['value'](j, i)


def c_rot2d(f, a, b, j, i):
    r11, r21 = f['r11'](j, i), f['r21'](j, i)
    return [[r11, -r21], [r21, r11]][a][b]


def c_rot3d(f, a, b, j, i):
    r11, r22, r32 = f['r11'](j, i), f['r22'](j, i), f['r32'](j, i)
    return [[r11, Z, Z], [Z, r22, -r32], [Z, r32, r22]][a][b]


def c_block_fsr(f, a, b, j, i):
    return f['value'](z3.IntVal(b), z3.IntVal(a), j, i) if False else f['value'](j, i, z3.IntVal(b), z3.IntVal(a))


def c_block_fsc(f, a, b, j, i):
    return f['value'](j, i, z3.IntVal(a), z3.IntVal(b))


def fsc_spec(f, ncol, nin, out0, inp, coef, nb, a, q, transpose):
    """out0(a,q) + sum over stored entries with index q of block^T(a,:) . input(:,i)"""
    def entry(i, j):
        t = sum_b([(coef(f, b, a, j, i) if transpose else coef(f, a, b, j, i)) * inp(b, i) for b in range(nb)])
        return If(f['index'](j, i) == q, t, Z)
    return out0 + SUM(nin, lambda i: SUM(ncol, lambda j: entry(i, j)))


def fsr_spec(f, ncol, out0, inp, coef, nb, a, q):
    def entry(j):
        c = f['index'](j, q)
        t = sum_b([coef(f, a, b, j, q) * inp(b, c) for b in range(nb)])
        return If(c >= 0, t, Z)
    return out0 + SUM(ncol, entry)


def matvec(form, kind, mods, unit, opts=None, kinds=('post',), m=None, n=None, **kw):
    """contract of <form>_<kind>_matvec"""
    raw, fixed = None, None
    if kind == 'block':
        # argument order: fsc_block(..., n, m, s), fsr_block(..., m, n, s)
        fixed = {6: n, 7: m} if form == 'fsc' else {6: m, 7: n}
        mat = RecBuf(lambda: holder['ncol'], lambda: holder['nrec'])
        raw = {0: mat}
    holder = {}

    def pre(c):
        A = c.args
        ncol, nin, nout = A[3].val, A[4].val, A[5].val
        c.assume(ncol >= 0, nin >= 0, nout >= 0)
        if kind == 'block':
            holder['ncol'], holder['nrec'] = ncol, (nin if form == 'fsc' else nout)
            mat.setup([('index', 0, I), ('value', 2, R)])
            c.f = mat.f
        else:
            c.f = A[0].f
        if kind == 'homothety':
            c.assume(A[6].val >= 0)
        lim = nout if form == 'fsc' else nin
        c.rule(c.f['index'], lambda j, i: c.f['index'](j, i) < lim)

    def post(c):
        A = c.args
        inp, out, ncol, nin, nout = A[1], A[2], A[3].val, A[4].val, A[5].val
        q = fresh('q')
        dim = {'scalar': (1, 1), 'rot2d': (2, 2), 'rot3d': (3, 3), 'homothety': (1, 1), 'block': (n, m) if form == 'fsc' else (m, n)}[kind]
        coef = {'scalar': c_scalar, 'homothety': c_scalar, 'rot2d': c_rot2d, 'rot3d': c_rot3d,
                'block': c_block_fsc if form == 'fsc' else c_block_fsr}[kind]
        goals = []
        for a in range(dim[0]):
            extra = [0 <= q, q < nout]
            if kind == 'scalar':
                i_ = lambda b, i: inp.f(i)
                o0, o1 = out.f(q), c.post(out, q)
            elif kind == 'homothety':
                e = fresh('e')
                extra += [0 <= e, e < A[6].val]
                i_ = lambda b, i: inp.f(e, i)
                o0, o1 = out.f(e, q), c.post(out, e, q)
            else:
                i_ = lambda b, i: inp.f(z3.IntVal(b), i)
                o0, o1 = out.f(z3.IntVal(a), q), c.post(out, z3.IntVal(a), q)
            if form == 'fsc':
                spec = fsc_spec(c.f, ncol, nin, o0, i_, coef, dim[1], a, q, kind in ('rot2d', 'rot3d'))
            else:
                spec = fsr_spec(c.f, ncol, o0, i_, coef, dim[1], a, q)
            goals.append(('out[%d]' % a, tuple([o1 == spec] + extra)))
        goals += unchanged(c, [1] + ([0] if kind != 'block' else []))
        return goals
    return run_contract(mods, unit, pre, post, opts=opts, kinds=kinds, raw=raw, fixed=fixed, **kw)


def unchanged(c, which):
    """frame: arguments that must not be modified"""
    goals = []
    for k in which:
        a = c.args[k]
        if a.d.base == 'type':
            for f in c.ex.type_fields(a.d.tname):
                if c.final.mem[(a.ref.st, f.name)] is not c.st.mem[(a.ref.st, f.name)]:
                    arr = c.final.mem[(a.ref.st, f.name)]
                    idx = tuple(fresh('z') for _ in range(arr.rank))
                    goals.append(('frame(%s%%%s)' % (a.name, f.name), arr.get(idx) == a.f[f.name](*idx)))
        elif a.d.dims and c.final.mem[a.ref.st] is not c.st.mem[a.ref.st]:
            idx = tuple(fresh('z') for _ in range(c.final.mem[a.ref.st].rank))
            goals.append(('frame(%s)' % a.name, c.post(a, *idx) == a.f(*idx)))
    return goals


def diag(kind, mods, unit, opts=None, kinds=('post',), **kw):
    """fsc_fsr[_rot?d]_ncolmax1: adds the diagonal of P^T P"""
    def pre(c):
        A = c.args
        c.assume(A[2].val >= 0, A[3].val >= 0)
        f = A[0].f
        c.rule(f['index'], lambda i: f['index'](i) < A[2].val)

    def post(c):
        A = c.args
        f, nin, nout = A[0].f, A[2].val, A[3].val
        q = fresh('q')
        goals = []
        dim = {'scalar': 1, 'rot2d': 2, 'rot3d': 3}[kind]
        for a in range(dim):
            def d(i):
                if kind == 'scalar':
                    return f['value'](i) * f['value'](i)
                if kind == 'rot2d':
                    return f['r11'](i) * f['r11'](i) + f['r21'](i) * f['r21'](i)
                if a == 0:
                    return f['r11'](i) * f['r11'](i)
                return f['r22'](i) * f['r22'](i) + f['r32'](i) * f['r32'](i)
            ix = (q,) if kind == 'scalar' else (z3.IntVal(a), q)
            spec = A[1].f(*ix) + SUM(nout, lambda i: If(f['index'](i) == q, d(i), Z))
            goals.append(('diag[%d]' % a, (c.post(A[1], *ix) == spec, 0 <= q, q < nin)))
        return goals + unchanged(c, [0])
    return run_contract(mods, unit, pre, post, opts=opts, kinds=kinds, **kw)


def kernel(isize, mods, unit, opts=None, kinds=('post',), **kw):
    h = {}
    buf = ByteBuf(lambda: h['ncol'], lambda: h['m'], lambda: h['stride'], isize)

    def pre(c):
        A = c.args
        h['ncol'], h['m'], n, h['stride'] = A[2].val, A[3].val, A[4].val, A[5].val
        c.assume(h['ncol'] >= 0, h['m'] >= 0, n >= 0, h['stride'] > isize, (h['stride'] - isize) % 4 == 0)
        buf.init(c.st)
        c.rule(buf.index, lambda j, i: buf.index(j, i) < n)

    def post(c):
        A = c.args
        q = fresh('q')
        w = (h['stride'] - isize) / 4
        obs = EX(h['m'], lambda i: EX(h['ncol'], lambda j: And(buf.index(j, i) == q, EX(w, lambda k: buf.words(k, j, i) != 0))))
        goals = [('kernel', (c.post(A[1], q) == And(A[1].f(q), Not(obs)), 0 <= q, q < A[4].val))]
        j, i = fresh('j'), fresh('i')
        if c.final.mem['rec.index'] is not c.st.mem['rec.index']:
            goals.append(('frame(index)', c.final.mem['rec.index'].get((j, i)) == buf.index(j, i)))
        return goals
    return run_contract(mods, unit, pre, post, opts=opts, kinds=kinds, raw={0: buf}, **kw)


def restrict(isize, mods, unit, opts=None, kinds=('post',), **kw):
    h = {}
    buf = ByteBuf(lambda: h['ncol'], lambda: h['m'], lambda: h['stride'], isize)

    def pre(c):
        A = c.args
        h['ncol'], h['m'], n, h['stride'] = A[2].val, A[3].val, A[4].val, A[5].val
        c.assume(h['ncol'] >= 0, h['m'] >= 0, n >= 0, h['stride'] > isize)
        buf.init(c.st)
        c.rule(buf.index, lambda j, i: buf.index(j, i) < n)

    def post(c):
        A = c.args
        mask, n = A[1].f, A[4].val
        j, i = fresh('j'), fresh('i')
        one, zero = z3.IntVal(1), z3.IntVal(0)
        rank = lambda p: SUM(p, lambda t: If(mask(t), one, zero), I)
        k = buf.index(j, i)
        new = If(k < 0, k, If(mask(k), rank(k), z3.IntVal(-1)))
        got = c.final.mem['rec.index'].get((j, i))
        rng = [0 <= j, j < h['ncol'], 0 <= i, i < h['m']]
        goals = [('renumbered', tuple([got == new] + rng)),
                 ('count', c.post(A[6]) == rank(n))]
        if c.final.mem['rec.words'] is not c.st.mem['rec.words']:
            w = fresh('w')
            goals.append(('frame(values)', c.final.mem['rec.words'].get((w, j, i)) == buf.words(w, j, i)))
        return goals + unchanged(c, [1])
    return run_contract(mods, unit, pre, post, opts=opts, kinds=kinds, raw={0: buf}, **kw)


SHAPES = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
KINDS6 = ['i4_r4_v4', 'i4_r4_v8', 'i4_r8_v8', 'i8_r4_v4', 'i8_r4_v8', 'i8_r8_v8']


def tasks(mods):
    """(property, name, unit, function(kinds=...))"""
    m = mods['sparse'].units
    out = []

    def add(prop, name, uname, fn):
        out.append((prop, name, 'sparse', uname, fn))
    for form in ('fsc', 'fsr'):
        for kd in KINDS6:
            add('C01', '%s_%s' % (form, kd), '%s_matvec_%s' % (form, kd), lambda mods, u, form=form, **k: matvec(form, 'scalar', mods, u, **k))
            add('C01', '%s_homothety_%s' % (form, kd), '%s_homothety_matvec_%s' % (form, kd), lambda mods, u, form=form, **k: matvec(form, 'homothety', mods, u, **k))
            for r in ('rot2d', 'rot3d'):
                add('C02', '%s_%s_%s' % (form, r, kd), '%s_%s_matvec_%s' % (form, r, kd), lambda mods, u, form=form, r=r, **k: matvec(form, r, mods, u, **k))
            for a, b in SHAPES:
                add('C02', '%s_block%dx%d_%s' % (form, a, b, kd), '%s_block_matvec_%s' % (form, kd),
                    lambda mods, u, form=form, a=a, b=b, **k: matvec(form, 'block', mods, u, m=a, n=b, **k))
    for kd in KINDS6:
        for r in ('', 'rot2d_', 'rot3d_'):
            add('C04', 'fsc_fsr_%s%s' % (r, kd), 'fsc_fsr_%sncolmax1_%s' % (r, kd), lambda mods, u, r=r, **k: diag(r[:-1] or 'scalar', mods, u, **k))
    for s in (1, 2, 4, 8):
        add('C05', 'fsr_kernel_i%d' % s, 'fsr_kernel_i%d' % s, lambda mods, u, s=s, **k: kernel(s, mods, u, **k))
        add('C06', 'fsr_restrict_i%d' % s, 'fsr_restrict_i%d' % s, lambda mods, u, s=s, **k: restrict(s, mods, u, **k))
    return out
