"""Race check of parallel loops: two distinct iterations never conflict.

For every pair of accesses to the same shared storage of which one is a write,
the formula  "iteration t performs a, another iteration t' performs b, same
element"  must be unsatisfiable, unless both are atomic or in the same critical
section, or both write the same constant (idempotent flag, listed as assumption).
"""
import re
import z3
from . import sym
from .sym import And, Not, free_consts, apps

_num = re.compile(r'!(\d+)$')


def renamer(mark, t, exprs):
    """substitution of everything created inside the iteration by a primed copy"""
    subs, fsubs = [], []
    seen = set()
    for e in exprs:
        for c in free_consts(e):
            n = c.decl().name()
            if n in seen:
                continue
            m = _num.search(n)
            if c.eq(t) or (m and int(m.group(1)) > mark):
                seen.add(n)
                subs.append((c, z3.Const(n + "'", c.sort())))
        for a in apps(e, lambda x: x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            d = a.decl()
            n = d.name()
            m = _num.search(n)
            if m and int(m.group(1)) > mark and n not in seen:
                seen.add(n)
                fsubs.append((d, z3.Function(n + "'", *[d.domain(k) for k in range(d.arity())], d.range())))
    return subs, fsubs


def rename(e, subs, fsubs):
    if fsubs:
        pairs = []
        for d, d2 in fsubs:
            vs = [z3.Var(k, d.domain(k)) for k in range(d.arity())]
            pairs.append((d, d2(*vs)))
        e = z3.substitute_funs(e, *pairs)
    return z3.substitute(e, *subs) if subs else e


class RaceResult:
    def __init__(self, rec):
        self.where = '%s:%d' % (rec.uname, rec.line)
        self.pairs = 0
        self.conflicts = []       # (key, line a, line b, status, model)
        self.benign = 0


def check(rec, ctx, timeout=4000):
    res = RaceResult(rec)
    acc = []
    seen = set()
    facts = list(ctx.facts)
    for a in rec.accesses:
        if a.key not in rec.shared or a.key in rec.reduction:
            continue
        if not z3.is_expr(a.key) and isinstance(a.key, str) and a.key.startswith('undef'):
            continue
        k = (str(a.key), tuple(z3.simplify(i).get_id() for i in a.idx), tuple(c.get_id() for c in a.conds), a.w, a.sync)
        if k in seen:
            continue
        seen.add(k)
        acc.append(a)
    bykey = {}
    for a in acc:
        bykey.setdefault(a.key, []).append(a)
    for key, lst in bykey.items():
        if not any(a.w for a in lst):
            continue
        for x in range(len(lst)):
            for y in range(x, len(lst)):
                a, b = lst[x], lst[y]
                if not (a.w or b.w):
                    continue
                if a.sync is not None and a.sync == b.sync:
                    continue
                res.pairs += 1
                if a.w and b.w and a.value is not None and b.value is not None and is_const(a.value) and a.value.eq(b.value):
                    res.benign += 1
                    continue
                es = list(b.conds) + list(b.idx)
                subs, fsubs = renamer(rec.mark, rec.t, es)
                t2 = z3.substitute(rec.t, *subs) if subs else rec.t
                t2 = z3.Const(rec.t.decl().name() + "'", rec.t.sort())
                base = list(a.conds) + [rename(c, subs, fsubs) for c in b.conds]
                base += [rec.t != t2, 0 <= rec.t, rec.t < rec.n, 0 <= t2, t2 < rec.n]
                base += [i == rename(j, subs, fsubs) for i, j in zip(a.idx, b.idx)]
                base += facts
                r, m = sym.solve(base + ctx.ex.prover.facts(base), timeout)
                if r not in ('unsat', 'sat'):
                    r, m = sym.solve(base + ctx.ex.prover.facts(base), 8 * timeout)
                if r != 'unsat':
                    # same value written by both?
                    res.conflicts.append((str(key), a.line, b.line, r, str(m)[:800] if m is not None else '', a.sync, b.sync, a.w, b.w))
    return res


def is_const(v):
    return z3.is_true(v) or z3.is_false(v) or z3.is_int_value(v) or z3.is_rational_value(v)
