"""Contracts of the in-memory pointing matrix (module pointingmatrix, which calls
module_pointingmatrix): C07 and C08.

A sample lists its pixels up to the first index -1; indices are -1 or in the map."""
import z3
from vf.sym import I, R, fresh, SUM, EX, ALL, FIRST, If, And, Or, Not, conc
from vf.contract import run_contract
from contracts.sparse import unchanged

ONE, ZERO = z3.IntVal(1), z3.IntVal(0)


def sumf(n, stop, f, sort=R):
    """sum of f(k) over k < n up to the first k for which stop(k)"""
    c = conc(n)
    if c is None or c > 6:
        return SUM(FIRST(n, stop), f, sort)
    z = z3.RealVal(0) if sort == R else ZERO
    go, r = z3.BoolVal(True), z
    for k in range(c):
        go = And(go, Not(stop(z3.IntVal(k))))
        r = r + If(go, f(z3.IntVal(k)), z)
    return r


def exf(n, stop, f):
    c = conc(n)
    if c is None or c > 6:
        return EX(FIRST(n, stop), f)
    go, r = z3.BoolVal(True), z3.BoolVal(False)
    for k in range(c):
        go = And(go, Not(stop(z3.IntVal(k))))
        r = Or(r, And(go, f(z3.IntVal(k))))
    return r


class PM:
    """the pointing matrix argument: entries, number of listed entries"""

    def __init__(self, c, np_, ns, npix):
        a = c.byname['matrix']
        self.idx, self.val = a.f['index'], a.f['value']
        self.np, self.ns, self.npix = np_, ns, npix
        c.assume(np_ >= 1, ns >= 0, npix >= 0)
        c.rule(self.idx, lambda *k: And(self.idx(*k) >= -1, self.idx(*k) < npix))

    def end(self, s):
        return lambda k: self.idx(k, s) == -1

    def sum(self, s, f, sort=R):
        return sumf(self.np, self.end(s), f, sort)

    def any(self, s, f):
        return exf(self.np, self.end(s), f)


def setup(c):
    n = c.byname
    one = 'npixels_per_sample' not in n
    return PM(c, ONE if one else n['npixels_per_sample'].val, n['nsamples'].val, n['npixels'].val)


def direct(mods, u, kinds=('post',), **kw):
    h = {}

    def pre(c):
        h['m'] = setup(c)

    def post(c):
        m, n = h['m'], c.byname
        s = fresh('s')
        spec = m.sum(s, lambda k: m.val(k, s) * n['map1d'].f(m.idx(k, s)))
        return [('timeline', (c.post(n['signal'], s) == spec, 0 <= s, s < m.ns))] + unchanged(c, [0, 1])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def back(what):
    """transpose / backprojection_weight[_mask]"""
    def f(mods, u, kinds=('post',), **kw):
        h = {}

        def pre(c):
            h['m'] = setup(c)

        def post(c):
            m, n = h['m'], c.byname
            q = fresh('q')
            data = n['signal' if what == 'transpose' else 'data'].f
            mask = n['mask'].f if what == 'mask' else None

            def total(w):
                def one(s):
                    t = m.sum(s, lambda k: If(m.idx(k, s) == q, w(k, s), z3.RealVal(0)))
                    return If(mask(s), z3.RealVal(0), t) if mask is not None else t
                return SUM(m.ns, one)
            goals = [('map', (c.post(n['map1d'], q) == n['map1d'].f(q) + total(lambda k, s: m.val(k, s) * data(s)), 0 <= q, q < m.npix))]
            if what != 'transpose':
                goals.append(('coverage', (c.post(n['weight1d'], q) == n['weight1d'].f(q) + total(lambda k, s: m.val(k, s)), 0 <= q, q < m.npix)))
            return goals + unchanged(c, [0, 1] + ([2] if mask is not None else []))
        return run_contract(mods, u, pre, post, kinds=kinds, **kw)
    return f


def ptp(mods, u, kinds=('post',), **kw):
    h = {}

    def pre(c):
        h['m'] = setup(c)

    def post(c):
        m, n = h['m'], c.byname
        i, j = fresh('i'), fresh('j')
        spec = SUM(m.ns, lambda s: m.sum(s, lambda k: If(m.idx(k, s) == i, m.sum(s, lambda l: If(
            m.idx(l, s) == j, m.val(k, s) * m.val(l, s), z3.RealVal(0))), z3.RealVal(0))))
        return [('ptp', (c.post(n['array'], i, j) == n['array'].f(i, j) + spec, 0 <= i, i < m.npix, 0 <= j, j < m.npix))] + unchanged(c, [0])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def ptp_one(mods, u, kinds=('post',), **kw):
    def pre(c):
        n = c.byname
        idx = n['matrix'].f['index']
        c.assume(n['nsamples'].val >= 0, n['npixels'].val >= 0)
        c.rule(idx, lambda s: And(idx(s) >= -1, idx(s) < n['npixels'].val))

    def post(c):
        n = c.byname
        q = fresh('q')
        f = n['matrix'].f
        spec = SUM(n['nsamples'].val, lambda s: If(f['index'](s) == q, f['value'](s) * f['value'](s), z3.RealVal(0)))
        return [('diagonal', (c.post(n['array'], q) == n['array'].f(q) + spec, 0 <= q, q < n['npixels'].val))] + unchanged(c, [0])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def mask(mods, u, kinds=('post',), **kw):
    h = {}

    def pre(c):
        h['m'] = setup(c)

    def post(c):
        m, n = h['m'], c.byname
        q = fresh('q')
        seen = EX(m.ns, lambda s: m.any(s, lambda k: And(m.idx(k, s) == q, m.val(k, s) != 0)))
        return [('mask', (c.post(n['mask1d'], q) == And(n['mask1d'].f(q), Not(seen)), 0 <= q, q < m.npix))] + unchanged(c, [0])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def isvalid(mods, u, kinds=('post',), **kw):
    def pre(c):
        n = c.byname
        c.assume(n['npixels_per_sample'].val >= 0, n['nsamples'].val >= 0)

    def post(c):
        n = c.byname
        f = n['matrix'].f['index']
        ok = ALL(n['nsamples'].val, lambda s: ALL(n['npixels_per_sample'].val, lambda k: And(f(k, s) >= -1, Or(f(k, s) == -1, f(k, s) < n['npixels'].val))))
        return [('valid', c.post(n['output']) == ok)] + unchanged(c, [0])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def intersects(axis):
    def f(mods, u, kinds=('post',), **kw):
        def pre(c):
            n = c.byname
            c.assume(n['npixels_per_sample'].val >= 0, n['nsamples'].val >= 0, n['ndetectors'].val >= 0)

        def post(c):
            n = c.byname
            f = n['matrix'].f['index']
            np_, ns, nd, pix = n['npixels_per_sample'].val, n['nsamples'].val, n['ndetectors'].val, n['pixel'].val
            q = fresh('q')
            if axis is None:
                spec = EX(nd, lambda d: EX(ns, lambda s: EX(np_, lambda k: f(k, s, d) == pix)))
                return [('seen', c.post(n['out']) == spec)] + unchanged(c, [0])
            if axis == 2:
                spec = EX(ns, lambda s: EX(np_, lambda k: f(k, s, q) == pix))
                lim = nd
            else:
                spec = EX(nd, lambda d: EX(np_, lambda k: f(k, q, d) == pix))
                lim = ns
            return [('seen', (c.post(n['out'], q) == spec, 0 <= q, q < lim))] + unchanged(c, [0])
        return run_contract(mods, u, pre, post, kinds=kinds, **kw)
    return f


class Pack:
    """contract of pmatrix_pack, with the invariant of its while loop.

    For one sample, after e entries have been examined and c of them kept:
    the first c entries of the row are the kept ones, renumbered, in order (stated
    for an arbitrary original entry i0); the rest of the row is what was
    not examined yet, padded with (-1, 0)."""

    def __init__(self, c):
        self.m, self.n = setup(c), c.byname
        self.c = c
        self.i0 = fresh('i0')
        self.H = None

    def keep(self, k, s):
        return And(self.m.val(k, s) != 0, Not(self.n['mask1d'].f(self.m.idx(k, s))))

    def nkeep(self, e, s):
        return SUM(e, lambda k: If(self.keep(k, s), ONE, ZERO), I)

    def rank(self, p):
        return SUM(p, lambda t: If(self.n['mask1d'].f(t), ZERO, ONE), I)

    def last(self, s):
        return FIRST(self.m.np, self.m.end(s))

    def tail(self, get, k, s, c, e):
        """entry k >= c of the row"""
        m = self.m
        return [z3.Implies(k >= c, get('index', k, s) == If(k + e - c < m.np, m.idx(k + e - c, s), z3.IntVal(-1))),
                z3.Implies(k >= c, get('value', k, s) == If(k + e - c < m.np, m.val(k + e - c, s), z3.RealVal(0)))]

    def head(self, get, s, c, e):
        i, m = self.i0, self.m
        p = self.nkeep(i, s)
        g = And(0 <= i, i < e, self.keep(i, s))
        return [z3.Implies(g, And(get('index', p, s) == self.rank(m.idx(i, s)), get('value', p, s) == m.val(i, s))), z3.Implies(g, p < c)]

    def counts(self, s, c, e):
        return [0 <= c, c <= e, e <= self.m.np, c == self.nkeep(e, s), e <= self.last(s)]

    # the engine calls this for a while loop
    def loop(self, ex, s, st):
        from vf.floop import assigned_names, keys_of
        from vf.fexec import Arr, Unsupported
        m, c = self.m, self.c
        if conc(m.np) is not None:
            return None
        mk = c.byname['matrix'].ref.st
        ki, kv = (mk, 'index'), (mk, 'value')
        keys = []
        for nm in assigned_names(s[3], set()):
            keys += [k for k in keys_of(ex, nm, st) if k not in keys]
        if any(isinstance(st.mem[k], Arr) and k not in (ki, kv) for k in keys) or ki not in keys:
            return None
        cur = [k for k in keys if not isinstance(st.mem[k], Arr) and z3.is_int_value(st.mem[k]) and st.mem[k].as_long() == 1]
        var = enclosing_do(ex.frame.unit.body, s)
        if len(cur) != 1 or var is None:
            return None
        cur = cur[0]
        col = z3.simplify(st.mem[ex.frame.env[var].st] - 1)

        def row(fi, fv, base):
            out = {}
            for k, f in ((ki, fi), (kv, fv)):
                out[k] = Arr('region', base.mem[k], lambda idx: idx[1] == col, lambda idx, f=f: f(*idx), rank=2)
            return out

        def rules(fi, fv, spec):
            for f in (fi, fv):
                c.rule(f, spec)
        if self.H is None:
            Hi, Hv = z3.Function('packed.index', I, I, I), z3.Function('packed.value', I, I, R)
            self.H = Hi, Hv
            get = lambda comp, k, s_: (Hi if comp == 'index' else Hv)(k, s_)

            def spec(k, s_):
                e = self.last(s_)
                n = self.nkeep(e, s_)
                return [z3.Implies(And(0 <= s_, s_ < m.ns), f) for f in [z3.Implies(k < m.np, x) for x in self.tail(get, k, s_, n, e)] + self.head(get, s_, n, e) + self.counts(s_, n, e)]
            rules(Hi, Hv, spec)
        Hi, Hv = self.H
        if ex.verify or ex.log is not None:
            self.check(ex, s, st, col, row, rules, keys, ki, kv, cur)
        out = st.copy()
        out.mem.update(row(Hi, Hv, st))
        for k in keys:
            if k not in (ki, kv):
                out.mem[k] = fresh('after', st.mem[k].sort())
        return [(None, out)]

    def check(self, ex, s, st, col, row, rules, keys, ki, kv, cur):
        m, c = self.m, self.c
        hi, hv = z3.Function('row.index', I, I, I), z3.Function('row.value', I, I, R)
        e, cc = fresh('e'), fresh('c')
        get = lambda comp, k, s_: (hi if comp == 'index' else hv)(k, s_)
        rules(hi, hv, lambda k, s_: [z3.Implies(And(s_ == col, 0 <= k, k < m.np), f) for f in self.tail(get, k, col, cc, e) + self.head(get, col, cc, e)])
        k = fresh('k')
        line = s[1]

        def oblige(name, state, goal, *extra):
            ex.line = line
            ex.oblige(name, 'post', state.assume(And(0 <= k, k < m.np, *extra)), goal)
        rd = lambda state: lambda comp, a, b: state.mem[ki if comp == 'index' else kv].get((a, b))
        g0 = rd(st)
        oblige('while:entry', st, And(g0('index', k, col) == m.idx(k, col), g0('value', k, col) == m.val(k, col)))
        h = st.copy()
        h.mem.update(row(hi, hv, st))
        for key in keys:
            if key not in (ki, kv):
                h.mem[key] = fresh('w', st.mem[key].sort())
        h.mem[cur] = cc + 1
        h.conds = h.conds + tuple(self.counts(col, cc, e)) + (z3.Implies(And(e < m.np, m.idx(e, col) == -1), self.last(col) <= e),)
        ex.line = line
        cond = z3.simplify(ex.eval(s[2], h))
        done = e == self.last(col)
        oblige('while:exit', h.assume(Not(cond)), done)
        s_ = fresh('s')
        for ctl, s2 in ex.exec_block(s[3], h.assume(cond)):
            g2 = rd(s2)
            if ctl is None or (ctl[0] == 'cycle' and ctl[1] in (None, s[4])):
                c2, e2 = s2.mem[cur] - 1, e + 1
                for nm, goals in (('tail', self.tail(g2, k, col, c2, e2)), ('head', self.head(g2, col, c2, e2)), ('counts', self.counts(col, c2, e2))):
                    for g in goals:
                        oblige('while:' + nm, s2, g)
                oblige('while:other samples', s2, And(*[g2(x, k, s_) == g0(x, k, s_) for x in ('index', 'value')]), s_ != col)
            elif ctl[0] == 'exit' and ctl[1] in (None, s[4]):
                oblige('while:exit', s2, And(done, *[g2(x, k, col) == get(x, k, col) for x in ('index', 'value')]))
                oblige('while:other samples', s2, And(*[g2(x, k, s_) == g0(x, k, s_) for x in ('index', 'value')]), s_ != col)
            else:
                from vf.fexec import Unsupported
                raise Unsupported('control flow in the while loop')


def enclosing_do(body, w):
    for s in body:
        if s is w:
            return True
        subs = [s[6]] if s[0] == 'do' else [s[3]] if s[0] == 'while' else [b for _, b in s[2]] + [s[3]] if s[0] == 'if' else []
        for b in subs:
            r = enclosing_do(b, w)
            if r is True and s[0] == 'do':
                return s[2]
            if r:
                return r
    return None


def pack(mods, u, kinds=('post',), **kw):
    h = {}

    def pre(c):
        h['p'] = Pack(c)
        c.ex.inv = h['p'].loop

    def post(c):
        p = h['p']
        m, a = p.m, c.byname['matrix']
        s, i = fresh('s'), p.i0
        rng = [0 <= s, s < m.ns]
        if conc(m.np) is None:
            last, nlast = p.last(s), p.nkeep(p.last(s), s)
        else:
            last = m.sum(s, lambda k: ONE, I)
            nlast = m.sum(s, lambda k: If(p.keep(k, s), ONE, ZERO), I)
        goals = []
        for i in [i] if conc(m.np) is None else [z3.IntVal(x) for x in range(conc(m.np))]:
            g = [0 <= i, i < last, p.keep(i, s)] + rng
            q = p.nkeep(i, s)
            goals += [('kept index', tuple([c.post(a, q, s, comp='index') == p.rank(m.idx(i, s))] + g)),
                      ('kept value', tuple([c.post(a, q, s, comp='value') == m.val(i, s)] + g))]
        goals.append(('terminated', tuple([c.post(a, nlast, s, comp='index') == -1, nlast < m.np] + rng)))
        return goals + unchanged(c, [1])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def tasks(mods):
    out = []

    def add(prop, uname, fn, **a):
        out.append((prop, 'pointing_' + uname, 'pointingmatrix', uname, fn, a))
    add('C07', 'direct', direct)
    add('C07', 'transpose', back('transpose'))
    add('C07', 'backprojection_weight', back('weight'))
    add('C07', 'backprojection_weight_mask', back('mask'))
    add('C07', 'ptp', ptp)
    add('C07', 'ptp_one', ptp_one)
    add('C08', 'mask', mask)
    add('C08', 'isvalid', isvalid)
    add('C08', 'intersects', intersects(None))
    add('C08', 'intersects_openmp2', intersects(None))
    add('C08', 'intersects_axis2', intersects(2))
    add('C08', 'intersects_axis3', intersects(3))
    add('C08', 'pack', pack)
    return out
