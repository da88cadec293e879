"""Loop summarisation with verified closed forms.

For a loop executed n times (n symbolic) the state after t iterations is
described storage by storage by a closed form C(t).  The closed form is
proposed from one symbolic execution of the body from a havocked state, and is
accepted only if the prover discharges the inductive step (the pointwise shape
of the update, its independence from the accumulator, the uniqueness of the
writing iteration).  Nothing is assumed about the loop.
"""
import z3
from . import sym
from .sym import (I, R, B, fresh, fresh_fn, to_real, iv, conc, And, Or, Not, If, SUM, EX, ALL,
                  FIRST, FOLD, free_consts, apps)
from . import fexec
from .fexec import Arr, State, Unsupported, Ref, ParLoop, Access


# ------------------------------------------------------------------ syntactic modified set
def assigned_names(body, acc):
    for s in body:
        k = s[0]
        if k == 'assign':
            acc.add(base_name(s[2]))
        elif k == 'if':
            for _, b in s[2]:
                assigned_names(b, acc)
            assigned_names(s[3], acc)
        elif k == 'do':
            acc.add(s[2])
            assigned_names(s[6], acc)
        elif k == 'while':
            assigned_names(s[3], acc)
        elif k == 'call':
            for a in s[3]:
                if a[0] == 'kw':
                    a = a[2]
                if a[0] in ('name', 'ref', 'comp'):
                    acc.add(base_name(a))
        elif k == 'where':
            assigned_names(s[3], acc)
            assigned_names(s[4], acc)
        elif k == 'select':
            for _, b in s[3]:
                assigned_names(b, acc)
    return acc


def base_name(e):
    while e[0] in ('ref', 'comp'):
        e = e[1]
    return e[1] if e[0] == 'name' else None


def do_vars(body, acc):
    for s in body:
        k = s[0]
        if k == 'do':
            acc.add(s[2])
            do_vars(s[6], acc)
        elif k == 'if':
            for _, b in s[2]:
                do_vars(b, acc)
            do_vars(s[3], acc)
        elif k == 'while':
            do_vars(s[3], acc)
        elif k == 'select':
            for _, b in s[3]:
                do_vars(b, acc)
    return acc


def keys_of(ex, name, st):
    r = ex.frame.env.get(name)
    if r is not None and r.extra is not None and r.extra in st.mem:
        return [r.extra]
    if r is None or r.st is None or r.optional_absent:
        return []
    if r.base == 'type':
        return [(r.st, f.name) for f in ex.type_fields(r.tname) if (r.st, f.name) in st.mem]
    return [r.st] if r.st in st.mem else []


def rank_of(arr, ex, key):
    return ex.ranks.get(key)


# ------------------------------------------------------------------ storages
class Stor:
    """how to havoc / abstract a storage"""

    def __init__(self, key, val):
        self.key = key
        self.entry = val
        self.arr = isinstance(val, Arr)
        if self.arr:
            self.rank = val_rank(val)
            self.sort = val_sort(val, self.rank)
            self.h = fresh_fn('h', *([I] * self.rank), self.sort)
            self.hv = Arr('fn', lambda idx: self.h(*idx), rank=self.rank)
            self.q = tuple(fresh('q') for _ in range(self.rank))
        else:
            self.rank = 0
            self.sort = val.sort()
            self.h = fresh('h', self.sort)
            self.hv = self.h
            self.q = ()
        self.acc = fresh('acc', self.sort)
        self.closed = None      # fn(t) -> value (Arr or term)
        self.hname = self.h.name() if self.arr else None

    def at(self, val, q):
        return val.get(q) if self.arr else val


def val_rank(arr):
    return arr.rank


def val_sort(arr, rank):
    s = arr.get(tuple(fresh('z') for _ in range(rank))).sort()
    return s


def h_apps(e, stors):
    names = {s.hname: s for s in stors if s.arr}
    return apps(e, lambda x: x.num_args() > 0 and x.decl().name() in names)


def depends(e, s):
    """does e mention the havocked value of s"""
    if s.arr:
        return sym.contains_decl(e, {s.hname})
    return any(c.eq(s.h) for c in free_consts(e))


def subst_h(e, s, f):
    """replace h_s(args) by f(args), innermost first; h_s scalar by f(())"""
    if not s.arr:
        return z3.substitute(e, (s.h, f(())))
    for _ in range(50):
        ap = apps(e, lambda x: x.num_args() > 0 and x.decl().name() == s.hname)
        if not ap:
            return e
        # innermost: no nested h app in the arguments
        inner = [a for a in ap if not any(sym.contains_decl(c, {s.hname}) for c in a.children())]
        e = z3.substitute(e, *[(a, f(tuple(a.children()))) for a in inner])
    raise Unsupported('nested havoc')


def linear_t(e, t):
    """e = a*t + b with integer a: (a, b) or None"""
    z = z3.simplify(z3.substitute(e, (t, z3.IntVal(0))))
    o = z3.simplify(z3.substitute(e, (t, z3.IntVal(1))) - z)
    a = conc(o)
    if a is None:
        return None
    if not z3.is_true(z3.simplify(e == z + a * t)):
        d = z3.simplify(e - z - a * t, som=True)
        if conc(d) != 0:
            return None
    return a, z


def index_solutions(e, t, qs):
    """terms t*(q) from equalities q_d == a*t+b in the conditions of e"""
    out = []
    seen = set()
    eqs = apps(e, lambda x: z3.is_eq(x) and z3.is_int(x.arg(0)))
    for _ in range(3):      # equalities inside the bodies of iterated operators
        nxt = []
        for a in apps(e, sym.is_iter):
            it = sym.iter_of(a)
            e = it.inst(a, fresh('u'), fresh('ua', it.acc.sort()) if it.acc is not None else None)
            nxt.append(e)
            eqs += apps(e, lambda x: z3.is_eq(x) and z3.is_int(x.arg(0)))
        if not nxt:
            break
        e = z3.And(*[x == x for x in nxt])
    tq = lambda d: all(c.eq(t) or any(c.eq(q) for q in qs) or not c.decl().name().startswith('u!') for c in free_consts(d))
    for x in eqs:
        d = z3.simplify(x.arg(0) - x.arg(1), som=True)
        if not any(c.eq(t) for c in free_consts(d)):
            continue
        if not any(any(c.eq(q) for q in qs) for c in free_consts(d)):
            continue
        l = linear_t(d, t)
        if l is None or not tq(d):
            continue
        a, b = l
        if a == 0:
            continue
        if a == 1:
            ts = z3.simplify(-b)
        elif a == -1:
            ts = z3.simplify(b)
        else:
            m = abs(a)
            ts = z3.simplify((-b if a > 0 else b) / m)
        if ts.sexpr() not in seen:
            seen.add(ts.sexpr())
            out.append(ts)
    return out


def block_solutions(e, t, qs):
    """e touches the elements of a block that starts at t * S, S not a number:
    t is the quotient by S.  [(quotient, its characterisation)]"""
    out, seen = [], set()
    for x in apps(e, lambda x: x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) and z3.is_int(x.arg(0))):
        d = z3.simplify(x.arg(0) - x.arg(1), som=True)
        fc = free_consts(d)
        if not any(c.eq(t) for c in fc) or not any(c.eq(q) for q in qs for c in fc):
            continue
        z = z3.simplify(sub(d, (t, z3.IntVal(0))), som=True)
        S = z3.simplify(sub(d, (t, z3.IntVal(1))) - z, som=True)
        if conc(S) is not None or any(c.eq(t) for c in free_consts(S)) or conc(z3.simplify(d - z - S * t, som=True)) != 0:
            continue
        for q in qs:
            l = linear_t(z, q)
            if l is None or l[0] not in (1, -1):
                continue
            S1 = z3.simplify(-S if l[0] == 1 else S, som=True)
            ts = sym.QDIV(q, S1)
            if ts.sexpr() not in seen:
                seen.add(ts.sexpr())
                out.append((ts, [z3.Implies(And(S1 > 0, 0 <= q - t * S1, q - t * S1 < S1), ts == t)]))
    return out


def sub(e, *pairs):
    return z3.substitute(e, *pairs)


# ------------------------------------------------------------------ main
def exec_do(ex, s, st, par=None):
    _, line, var, elo, ehi, estep, body, name = s
    ex.line = line
    lo, step, n = ex.trip(s, st)
    c = conc(n)
    vref = ex.frame.env.get(var)
    if vref is None:
        raise Unsupported('do variable')
    vkey = vref.st
    if c is not None and c <= ex.unroll:
        return unroll(ex, s, st, lo, step, max(c, 0), vref, body, name, par)
    if ex.opts.get('bounded'):
        raise Unsupported('symbolic trip count in bounded mode')
    n = z3.simplify(n)
    # do not reason about an empty loop
    if not ex.feasible(st, n > 0):
        st = st.copy()
        st.mem[vkey] = lo
        return [(None, st)]
    return Summ(ex, s, st, lo, step, n, vref, par).run()


def unroll(ex, s, st, lo, step, n, vref, body, name, par):
    cur = [st.copy()]
    outs = []
    privs = []
    if par is not None:
        privs = private_keys(ex, par, body, st, vref)
    for k in range(n):
        nxt = []
        for c in cur:
            c = c.copy()
            c.mem[vref.st] = z3.simplify(lo + step * k)
            for key in privs:
                if key != vref.st:
                    c.mem[key] = undef_like(c.mem[key])
            env = dict(ex.frame.env)
            for ctl, s2 in ex.exec_block(body, c):
                if ctl is None or (ctl[0] == 'cycle' and ctl[1] in (None, name)):
                    nxt.append(s2)
                elif ctl[0] == 'exit' and ctl[1] in (None, name):
                    outs.append((None, s2))
                else:
                    outs.append((ctl, s2))
            restore_env(ex, env)
        if len(nxt) > 1 and ex.merge_ifs:
            nxt = [ex.merge(nxt, st)]
        cur = nxt
        if not cur:
            break
    for c in cur:
        c = c.copy()
        c.mem[vref.st] = z3.simplify(lo + step * n)
        outs.append((None, c))
    for key in privs:
        for _, o in outs:
            if key != vref.st and key in o.mem:
                o.mem[key] = undef_like(o.mem[key])
    return ex.join(outs, st)


def restore_env(ex, env):
    ex.frame.env.clear()
    ex.frame.env.update(env)


def undef_like(v):
    if isinstance(v, Arr):
        r = v.rank
        f = fresh_fn('undef', *([I] * r), val_sort(v, r))
        a = Arr('fn', lambda idx: f(*idx))
        a.rank = r
        return a
    return fresh('undef', v.sort())


def private_keys(ex, par, body, st, vref):
    names = set(par[1]['private']) | do_vars(body, set())
    keys = [vref.st]
    for nm in names:
        for k in keys_of(ex, nm, st):
            if k not in keys:
                keys.append(k)
    return keys


def ex_prove(ex, st, goal):
    return ex.prover.prove(list(st.conds), goal)[0] == 'proved'


def prune_guards(e, t, n):
    """drop the guards that hold for 0 <= t < n"""
    base = [0 <= t, t < n]
    for _ in range(20):
        ites = [x for x in apps(e, lambda x: x.decl().kind() == z3.Z3_OP_ITE)]
        for x in ites:
            c = x.arg(0)
            if sym.solve1(base + [Not(c)], 500)[0] == 'unsat':
                e = z3.simplify(z3.substitute(e, (x, x.arg(1))))
                break
            if sym.solve1(base + [c], 500)[0] == 'unsat':
                e = z3.simplify(z3.substitute(e, (x, x.arg(2))))
                break
        else:
            return e
    return e


class Summ:
    def __init__(self, ex, s, st, lo, step, n, vref, par):
        self.ex, self.s, self.st, self.lo, self.step, self.n, self.vref, self.par = ex, s, st, lo, step, n, vref, par
        self.body, self.name = s[6], s[7]
        self.line = s[1]

    # run the body once at iteration t from state st
    def once(self, st, t, extra=()):
        ex = self.ex
        st = st.copy()
        st.mem[self.vref.st] = z3.simplify(self.lo + self.step * t)
        for k in self.priv:
            if k != self.vref.st:
                st.mem[k] = undef_like(st.mem[k])
        st.conds = st.conds + tuple([0 <= t, t < self.n]) + tuple(extra)
        env = dict(ex.frame.env)
        try:
            outs = ex.exec_block(self.body, st)
        finally:
            restore_env(ex, env)
        nxt, brk = [], []
        for ctl, s2 in outs:
            if ctl is None or (ctl[0] == 'cycle' and ctl[1] in (None, self.name)):
                nxt.append(s2)
            else:
                brk.append((ctl, s2))
        return nxt, brk, len(st.conds)

    def quiet(self):
        ex = self.ex
        saved = (ex.verify, ex.log)
        ex.verify, ex.log = False, None
        return saved

    def run(self):
        ex, st = self.ex, self.st
        self.priv = private_keys(ex, self.par, self.body, st, self.vref) if self.par else [self.vref.st]
        saved = self.quiet()
        try:
            self.infer()
        finally:
            ex.verify, ex.log = saved
        # verification pass: emit the obligations of the body from the closed state
        if ex.verify or ex.log is not None:
            t = fresh('k')
            mark = sym._fresh[0]
            nb = self.nobreak_before(t)
            if self.par is not None and ex.log is None:
                rec = ParLoop(self.line, ex.frame.unit.fname, ex.frame.unit.name)
                rec.t, rec.n, rec.mark = t, self.n, mark
                rec.shared = set(st.mem) - set(self.priv)
                rec.reduction = self.redkeys()
                rec.conds = st.conds
                ex.log = rec.accesses
                savedpar, ex.in_parallel = ex.in_parallel, True
                try:
                    self.once(self.closed_state(t), t, nb)
                finally:
                    ex.log = None
                    ex.in_parallel = savedpar
                ex.parloops.append(rec)
            else:
                self.once(self.closed_state(t), t, nb)
        return self.finish()

    def redkeys(self):
        out = {}
        for nm, op in self.par[1]['reduction'].items():
            for k in keys_of(self.ex, nm, self.st):
                out[k] = op
        return out

    def nobreak_before(self, t):
        if self.first is None:
            return ()
        return (self.first_at(self.n) >= t,)

    def first_at(self, n):
        return FIRST(n, self.first)

    def closed_state(self, t):
        st = self.st.copy()
        for k, s in self.stors.items():
            if k == self.vref.st:
                continue
            st.mem[k] = s.closed(t)
        return st

    def infer(self):
        ex, st = self.ex, self.st
        names = assigned_names(self.body, set())
        keys = []
        for nm in names:
            for k in keys_of(ex, nm, st):
                if k not in keys:
                    keys.append(k)
        t = fresh('k')
        self.t = t
        for attempt in range(8):
            stors = {k: Stor(k, st.mem[k]) for k in keys if k in st.mem and k != self.vref.st}
            h = st.copy()
            for k, s in stors.items():
                h.mem[k] = s.hv
            nxt, brk, nc = self.once(h, t)
            new = []
            for s2 in nxt + [b for _, b in brk]:
                for k, v in h.mem.items():
                    if k == self.vref.st or k in stors:
                        continue
                    if k in s2.mem and s2.mem[k] is not v and k not in self.priv:
                        if not isinstance(v, Arr) and s2.mem[k].eq(v):
                            continue
                        new.append(k)
            if not new:
                break
            for k in new:
                if k not in keys:
                    keys.append(k)
        else:
            raise Unsupported('modified set')
        self.stors = stors
        self.base_conds = tuple(st.conds) + (0 <= t, t < self.n)
        nx = ex.merge(nxt, h) if nxt else None
        extra = tuple(nx.conds[len(self.base_conds):]) if nx is not None else (z3.BoolVal(False),)
        self.nextcond = And(*extra)
        self.brk = brk
        self.nx = nx
        # symbolic transformer of each storage at a generic index
        T = {}
        for k, s in stors.items():
            if nx is None:
                T[k] = s.h(*s.q) if s.arr else s.h
            else:
                T[k] = z3.simplify(s.at(nx.mem[k], s.q))
        self.T = T
        # private scalars of parallel loops are dead between iterations
        pending = list(stors)
        for k in list(pending):
            if self.par and k in self.priv:
                u = undef_like(st.mem[k])
                stors[k].closed = lambda tt, u=u: u
                pending.remove(k)
        self.resolved_break = False
        progress = True
        while pending and progress:
            progress = False
            for k in list(pending):
                others = [stors[o] for o in pending if o != k]
                e = self.resolve(T[k])
                if any(depends(e, o) for o in others):
                    continue
                f = self.closed_form(stors[k], e)
                if f is None:
                    continue
                stors[k].closed = f
                pending.remove(k)
                progress = True
        if pending:
            cand = ex.opts.get('candidate')
            if cand is not None:
                r = cand(ex, self, pending)
                if r:
                    for k, f in r.items():
                        stors[k].closed = f
                    self.check_candidates(r)
                    pending = [k for k in pending if k not in r]
        if pending:
            raise Unsupported('no closed form for %s (line %d)' % (
                ', '.join(str(k) for k in pending), self.line))
        # break condition
        self.first = None
        if brk:
            conds = []
            for ctl, b in brk:
                conds.append(And(*b.conds[len(self.base_conds):]))
            bc = self.resolve(Or(*conds))
            if any(depends(bc, o) for o in stors.values()):
                raise Unsupported('break condition')
            self.first = lambda tt, bc=bc, t=t: sub(bc, (t, tt))
        for k, op in (self.redkeys() if self.par else {}).items():
            self.check_reduction(k, op)

    def resolve(self, e, but=None):
        """replace havocked values of resolved storages by their closed forms at t"""
        for s in self.stors.values():
            if s is not but and s.closed is not None and depends(e, s):
                v = s.closed(self.t)
                e = subst_h(e, s, (lambda a, v=v: v.get(a)) if s.arr else (lambda a, v=v: v))
        return z3.simplify(e)

    def prove(self, goal, extra=()):
        conds = list(self.base_conds) + [self.resolve(self.nextcond)] + list(extra)
        return self.ex.prover.prove(conds, goal, depth=2)[0] == 'proved'

    def arr(self, s, f):
        if not s.arr:
            return f(())
        a = Arr('fn', f)
        a.rank = s.rank
        return a

    def closed_form(self, s, T):
        t = self.t
        ent = lambda q: s.entry.get(q) if s.arr else s.entry
        hq = s.h(*s.q) if s.arr else s.h
        # unchanged
        if T.eq(hq):
            return lambda tt: s.entry
        if not depends(T, s):
            # overwritten with a value independent of the previous one
            def f(tt):
                return self.arr(s, lambda q: If(z3.simplify(tt > 0), sub(T, (t, z3.simplify(tt - 1)), *zip(s.q, q)), ent(q)))
            return f
        cand = z3.simplify(subst_h(T, s, lambda a: s.acc))
        if s.arr:
            aps = h_apps(T, [s])
            if any(not all(x.eq(y) for x, y in zip(a.children(), s.q)) for a in aps):
                goal = T == sub(cand, (s.acc, hq))
                if not self.prove(goal):
                    return self.own(s, T) or (self.scan(s, T) if s.rank == 1 else None)
        if cand.eq(s.acc) or self.prove(cand == s.acc):
            return lambda tt: s.entry
        acc = s.acc
        qsub = lambda e, q: sub(e, *zip(s.q, q)) if s.arr else e
        # a single iteration can touch element q
        if s.arr:
            for ts, known in [(x, []) for x in index_solutions(cand, t, s.q)] + block_solutions(cand, t, s.q):
                if self.prove(cand == acc, [t != ts] + known):
                    def f(tt, ts=ts):
                        def g(q):
                            k = qsub(ts, q)
                            e0 = ent(q)
                            v = sub(qsub(cand, q), (t, k), (acc, e0))
                            c = z3.simplify(And(k >= 0, k < tt))
                            return If(c, z3.simplify(v), e0)
                        return self.arr(s, g)
                    return f
        if s.sort == B:
            c0 = z3.simplify(sub(cand, (acc, z3.BoolVal(False))))
            c1 = z3.simplify(sub(cand, (acc, z3.BoolVal(True))))
            if z3.is_true(c1) or self.prove(c1):
                return lambda tt: self.arr(s, lambda q: Or(ent(q), EX(tt, lambda u: sub(qsub(c0, q), (t, u)))))
            if z3.is_false(c0) or self.prove(Not(c0)):
                return lambda tt: self.arr(s, lambda q: And(ent(q), ALL(tt, lambda u: sub(qsub(c1, q), (t, u)))))
        else:
            zero = z3.RealVal(0) if s.sort == R else z3.IntVal(0)
            inc = z3.simplify(sub(cand, (acc, zero)))
            if self.prove(cand == acc + inc):
                return lambda tt: self.arr(s, lambda q: ent(q) + SUM(tt, lambda u: sub(qsub(inc, q), (t, u)), s.sort))
        def f(tt):
            return self.arr(s, lambda q: FOLD(tt, ent(q), lambda a, u: sub(qsub(cand, q), (acc, a), (t, u))))
        return f

    def own(self, s, T):
        """each iteration writes elements of its own from elements of its own.
        Proposed here, accepted when the step is proved."""
        t = self.t
        hq = s.h(*s.q)
        for ts in index_solutions(T, t, s.q):
            if not self.prove(T == hq, [t != ts]):
                continue
            E = z3.simplify(subst_h(T, s, lambda a: s.entry.get(a)))

            def closed(tt, ts=ts, E=E):
                def g(qq):
                    pairs = list(zip(s.q, qq))
                    k = z3.simplify(sub(ts, *pairs))
                    return If(z3.simplify(And(k >= 0, k < tt)), z3.simplify(sub(sub(E, *pairs), (t, k))), s.entry.get(qq))
                return self.arr(s, g)
            s.closed = closed
            if self.prove(self.resolve(T) == closed(t + 1).get(tuple(s.q)), [t == ts]):
                return closed       # for t != ts both sides are the element as it was
            s.closed = None
        return None

    def scan(self, s, T):
        """a recurrence: iteration t writes the element p(t) from the one written
        just before, p(t - 1).  Proposed here, accepted by check_candidates."""
        t, q = self.t, s.q[0]
        hq = s.h(q)
        for ts in index_solutions(T, t, s.q):
            l = linear_t(ts, q)
            if l is None or l[0] not in (1, -1) or not self.prove(T == hq, [t != ts]):
                continue
            p = lambda u: z3.simplify(l[0] * (u - l[1]))
            E = z3.simplify(sub(T, (q, p(t))))
            E = prune_guards(E, t, self.n)
            pairs = []
            for a in h_apps(E, [s]):
                x = a.arg(0)
                if conc(z3.simplify(x - p(t), som=True)) == 0:
                    pairs.append((a, s.entry.get((p(t),))))
                elif conc(z3.simplify(x - p(t - 1), som=True)) == 0:
                    pairs.append((a, s.acc))
                else:
                    break
            else:
                E = z3.simplify(sub(E, *pairs))
                v0 = s.entry.get((p(z3.IntVal(-1)),))

                def closed(tt, ts=ts, E=E, v0=v0):
                    def g(qq):
                        k = z3.simplify(sub(ts, (q, qq[0])))
                        c = z3.simplify(And(k >= 0, k < tt))
                        v = FOLD(z3.simplify(k + 1), v0, lambda a, u: sub(E, (s.acc, a), (t, u)))
                        return If(c, v, s.entry.get(qq))
                    return self.arr(s, g)
                # base case and step, at the written element and elsewhere
                if ex_prove(self.ex, self.st, closed(z3.IntVal(0)).get((q,)) == s.entry.get((q,))):
                    s.closed = closed
                    T1, C1 = self.resolve(T), closed(t + 1).get((q,))
                    here = [sub(x, (q, p(t))) for x in (T1, C1)]
                    if self.prove(here[0] == here[1]) and self.prove(T1 == C1, [t != ts]):
                        return closed
                    s.closed = None
        return None

    def check_candidates(self, r):
        """closed forms supplied by a contract: prove base case and step"""
        ex = self.ex
        for k, f in r.items():
            s = self.stors[k]
            q = s.q
            g0 = s.at(f(z3.IntVal(0)), q) == s.at(s.entry, q)
            if ex.prover.prove(list(self.st.conds), g0)[0] != 'proved':
                raise Unsupported('candidate base case')
            T = self.resolve(self.T[k])
            g1 = T == s.at(f(self.t + 1), q)
            if not self.prove(g1):
                raise Unsupported('candidate step')

    def check_reduction(self, k, op):
        s = self.stors.get(k)
        if s is None:
            return
        T = self.resolve(self.T[k], s)
        cand = z3.simplify(subst_h(T, s, lambda a: s.acc))
        a, b = s.acc, fresh('acc', s.sort)
        f = lambda x: sub(cand, (s.acc, x))
        opf = {'+': lambda x, y: x + y, '.or.': Or, '.and.': And,
               'max': lambda x, y: If(x >= y, x, y), 'min': lambda x, y: If(x <= y, x, y)}.get(op)
        if opf is None:
            raise Unsupported('reduction ' + op)
        # the update commutes with combining partial results
        goal = f(opf(a, b)) == opf(f(a), b)
        ok = self.prove(goal)
        self.ex.redchecks.append((self.ex.frame.unit.name, self.line, str(k), op, ok))

    def unchanged_at_exit(self):
        """storages that the breaking iteration leaves as it found them"""
        out = []
        for k, s in self.stors.items():
            for ctl, b in self.brk:
                v = b.mem[k]
                if not (z3.simplify(v.get(s.q)).eq(s.h(*s.q)) if s.arr else v.eq(s.h)):
                    break
            else:
                out.append(k)
        return out

    def finish(self):
        ex, st = self.ex, self.st
        N = self.n
        empty = lambda x: z3.simplify(If(z3.simplify(N > 0), x, z3.IntVal(0)))
        outs = []
        npos = N if not ex.feasible(st, N < 0) else empty(N)
        def after(tt, conds):
            s2 = self.closed_state(tt)
            s2.mem[self.vref.st] = z3.simplify(self.lo + self.step * tt)
            s2.conds = st.conds + tuple(conds)
            for k in self.priv:
                if k != self.vref.st:
                    s2.mem[k] = undef_like(st.mem[k])
            return s2
        if self.first is None:
            return [(None, after(npos, ()))]
        F = self.first_at(npos)
        same = self.unchanged_at_exit()
        shared = {k: self.stors[k].closed(F) for k in same}
        normal = after(npos, (F == npos,))
        normal.mem.update({k: v for k, v in shared.items() if k not in self.priv})
        exits = []
        # break outcomes: values at the breaking iteration
        for ctl, b in self.brk:
            s2 = st.copy()
            cond = And(*b.conds[len(self.base_conds):])
            cond = sub(self.resolve(cond), (self.t, F))
            s2.conds = st.conds + (F < npos, cond)
            for k, s in self.stors.items():
                if k in shared:
                    s2.mem[k] = shared[k]
                    continue
                v = b.mem[k]
                if s.arr:
                    def g(q, v=v, s=s):
                        e = self.resolve(v.get(q))
                        return sub(e, (self.t, F))
                    s2.mem[k] = self.arr(s, g)
                else:
                    s2.mem[k] = z3.simplify(sub(self.resolve(v), (self.t, F)))
            # temporaries created inside the body do not survive
            s2.mem[self.vref.st] = z3.simplify(self.lo + self.step * F)
            for k in self.priv:
                if k != self.vref.st:
                    s2.mem[k] = undef_like(st.mem[k])
            if ctl[0] == 'exit' and ctl[1] in (None, self.name):
                ctl = None
            exits.append((ctl, s2))
        outs = exits + ([(None, normal)] if self.nx is not None or True else [])
        return ex.join(outs, st)
