"""Contracts of the averages and extrema of angles (wcsutils.f90): C18."""
import z3
from vf import sym
from vf.fexec import Arr, Unsupported
from vf.sym import I, R, B, fresh, fresh_fn, SUM, If, And, Or, Not, to_real
from vf.contract import run_contract
from vf.fintr import zmodulo
from contracts.sparse import unchanged

FULL, HALF, ZERO, ONE = [z3.RealVal(x) for x in (360, 180, 0, 1)]
PINF, MINF = z3.Const('PINF', R), z3.Const('MINF', R)
NANF = fresh_fn('missing', I, B)


def mod(x):
    return zmodulo(x, FULL)


def setup(c, turns=None):
    """the values may be missing; the infinities are beyond every angle"""
    a, n = c.byname['array'], c.byname['n'].val
    c.assume(n >= 0, PINF > 10000, MINF < -10000)
    c.ex.nan_fns[a.f.name()] = lambda i: NANF(i)
    if turns is not None:
        f = a.f
        c.st.mem[a.ref.st] = Arr('fn', lambda idx: f(*idx) + FULL * to_real(turns(*idx)), rank=1)


def folds(e):
    return [x for x in sym.apps(e, sym.is_iter) if sym.iter_of(x).op == 'FOLD']


def extreme(c, F, n, x, valid, lower, base):
    """the contract of a loop computing the least (or greatest) of the x(t) that are valid,
    by induction on the iterations.  (obligations, bound, attained), attained at a witness"""
    t, acc = fresh('t'), fresh('acc', R)
    it = sym.iter_of(F)
    nxt = it.inst(F, t, acc)
    le = (lambda a, b: a <= b) if lower else (lambda a, b: b <= a)
    here = (0 <= t, t < n) + tuple(base(t))
    nm = 'least' if lower else 'greatest'
    obs = [('%s value: every angle' % nm, (F.arg(0) == n,)),
           ('%s value: starts beyond every angle' % nm, (And(F.arg(1) == (PINF if lower else MINF)),)),
           ('%s value: monotone' % nm, (le(nxt, acc),) + here),
           ('%s value: below every angle' % nm if lower else '%s value: above every angle' % nm, (z3.Implies(valid(t), le(nxt, x(t))),) + here),
           ('%s value: attained' % nm, (Or(nxt == acc, And(valid(t), nxt == x(t))),) + here)]
    p = fresh('witness')

    def bound(k):
        return z3.Implies(And(0 <= k, k < n, valid(k)), le(F, x(k)))
    attained = And(le(F, F.arg(1)), Or(F == F.arg(1), And(0 <= p, p < n, valid(p), F == x(p))))
    return obs, bound, attained, p


def classify(c, e, n, x, valid, base):
    """the least and greatest values among the loops of e, by which contract they satisfy"""
    out = {}
    for F in folds(e):
        for lower in (True, False):
            if lower in out or not F.arg(1).eq(PINF if lower else MINF):
                continue
            out[lower] = (F,) + extreme(c, F, n, x, valid, lower, base)
    return out


def mean(mods, u, kinds=('post',), **kw):
    turns = z3.Function('turns', I, I)
    keep = []

    def final(c):
        return c.final.mem[c.byname['mean'].ref.st]

    def shifted(c):
        keep.append(final(c))
        return []
    if 'post' in kinds:
        r = run_contract(mods, u, lambda c: setup(c, turns), shifted, kinds=('post',), **kw)
        if not keep:
            return r

    def pre(c):
        setup(c)

    def post(c):
        a, n = c.byname['array'].f, c.byname['n'].val
        valid = lambda i: Not(NANF(i))
        v = lambda i: mod(a(i))
        res = final(c)
        count = SUM(n, lambda i: If(valid(i), z3.IntVal(1), z3.IntVal(0)), I)
        total = SUM(n, lambda i: If(valid(i), v(i), ZERO))
        upper = SUM(n, lambda i: If(And(valid(i), v(i) >= HALF), z3.IntVal(1), z3.IntVal(0)), I)
        goals = [('missing', (c.ex.nanof(res), count == 0)), ('not missing', (Not(c.ex.nanof(res)), count > 0))]
        ex = classify(c, res, n, v, valid, lambda t: ())
        facts = []
        if len(ex) < 2:
            raise Unsupported('no loops computing the extrema')
        for lower, (F, obs, bound, attained, p) in ex.items():
            goals += obs
            c.rule(a, bound)
            facts += [attained, bound(p), z3.Implies(attained, attained)]
        wits = [e[4] for e in ex.values()]
        cnt = (count > 0,) + tuple(facts)
        # within a half-circle that starts at b
        b = fresh('b', R)
        w = lambda i: b + mod(a(i) - b)
        arc = lambda i: z3.Implies(And(0 <= i, i < n, valid(i)), And(mod(a(i) - b) < HALF,
                                   Or(And(w(i) == v(i), b <= v(i)), And(w(i) == v(i) + FULL, v(i) < b))))
        i = fresh('i')
        goals.append(('unwrapped angles', (Or(And(w(i) == v(i), b <= v(i)), And(w(i) == v(i) + FULL, v(i) < b)), 0 <= b, b < FULL)))
        around = SUM(n, lambda i: If(valid(i), w(i), ZERO))
        want = mod(around / to_real(count))
        frame = (0 <= b, b < FULL)
        # the three ways an arc can lie
        k, l = fresh('k'), fresh('l')
        inr = lambda i: And(0 <= i, i < n, valid(i))
        every = lambda cond: (lambda i: z3.Implies(inr(i), cond(i)))

        def case(name, hyp, goal):
            goals.append((name, (goal,) + cnt + frame + tuple(hyp)))
        c.c18 = dict(arc=arc)
        c.rule(a, arc)
        straight = z3.Const('no angle wrapped', B)
        allw = z3.Const('every angle wrapped', B)
        c.rule(a, lambda i: [z3.Implies(And(straight, inr(i)), w(i) == v(i)), z3.Implies(And(allw, inr(i)), w(i) == v(i) + FULL)])
        case('mean, no angle wrapped', (straight, arc(wits[0]), arc(wits[-1])), res == want)
        goals.append(('sum, every angle wrapped', (around == total + FULL * to_real(count), allw)))
        goals.append(('sum, some angles wrapped', (around == total - FULL * to_real(upper) + FULL * to_real(count), b > HALF) + frame))
        # a full turn more or less
        T, N, q, r = [fresh(x, R) for x in 'TNqr']
        goals.append(('a full turn, quotient', (r == q + FULL, N > 0, q * N == T, r * N == T + FULL * N)))
        goals.append(('a full turn', mod(q + FULL) == mod(q)))
        N = to_real(count)

        def turn(T):
            return mod(around / N) == mod(T / N)
        case('mean, every angle wrapped', (allw, around == total + FULL * N, turn(total)), res == want)
        some = (inr(k), inr(l), w(k) == v(k), w(l) == v(l) + FULL, arc(k), arc(l))
        T = total - FULL * to_real(upper)
        case('mean, some angles wrapped', some + (around == T + FULL * N, turn(T)), res == want)
        goals.append(('full turns', (keep[0] == res, count > 0)))
        goals.append(('full turns, missing', (c.ex.nanof(keep[0]), count == 0)))
        return goals + unchanged(c, [j for j, x in enumerate(c.args) if x.name == 'array'])
    return run_contract(mods, u, pre, post, kinds=kinds, **kw)


def minmax(mods, u, kinds=('post',), **kw):
    """mean_degrees by its contract: the mean is missing if there is no valid angle,
    otherwise it is between 0 and 360, and does not depend on full turns"""
    M = z3.Real('mean')
    turns = z3.Function('turns', I, I)
    keep, calls = [], []

    def hook(ex, v, args, st):
        if v.name != 'mean_degrees':
            return None
        v.parse()
        acts = [ex.actual(a, st) for a in args]
        fr = ex.bind(v, acts, st)
        a, n, out = [fr.env[x] for x in v.args]
        j = fresh('j')
        ex.access(a.st, a.canon((a.dims[0][0] + j,)), st.copy().assume(And(0 <= j, j < a.dims[0][1])), False)
        calls.append((a, ex.read_ref(n, st)))
        count = SUM(a.dims[0][1], lambda i: If(Not(NANF(i)), z3.IntVal(1), z3.IntVal(0)), I)
        ex.store(out, If(count <= 0, z3.Const('NAN mean', R), M), st)
        return True

    def final(c):
        return [c.final.mem[c.byname[x].ref.st] for x in ('minv', 'maxv')]

    def shifted(c):
        keep.append(final(c))
        return []
    opts = {'hook_call': hook}
    if 'post' in kinds:
        r = run_contract(mods, u, lambda c: setup(c, turns), shifted, kinds=('post',), opts=opts, **kw)
        if not keep:
            return r
    calls.clear()

    def pre(c):
        setup(c)
        c.assume(0 <= M, M < FULL)

    def post(c):
        if not calls:
            raise Unsupported('the mean is not that of mean_degrees')
        a, n = c.byname['array'].f, c.byname['n'].val
        valid = lambda i: Not(NANF(i))
        count = SUM(n, lambda i: If(valid(i), z3.IntVal(1), z3.IntVal(0)), I)
        goals = [('mean of the same angles', z3.BoolVal(all(x.st == c.byname['array'].ref.st for x, _ in calls)))]
        goals += [('mean of all the angles', And(x.canon((x.dims[0][0],))[0] == 0, m == n, x.dims[0][1] == n)) for x, m in calls]
        # the angle on the short arc around the mean, and those that are not opposite to it
        short = lambda i: M + mod(a(i) - M + HALF) - HALF
        arc = lambda i: mod(a(i) - M + HALF) != 0
        # it is the angle in the first turn, or a full turn before or after
        rep = lambda i: And(Or(short(i) == mod(a(i)), short(i) == mod(a(i)) - FULL, short(i) == mod(a(i)) + FULL),
                            -HALF < short(i) - M, short(i) - M < HALF, 0 <= mod(a(i)), mod(a(i)) < FULL)
        goals.append(('representative', (rep(z3.Int('i')), arc(z3.Int('i')), 0 <= M, M < FULL)))
        res = final(c)
        goals += [('short arc', (And(short(z3.Int('i')) - M <= HALF, M - short(z3.Int('i')) <= HALF, mod(short(z3.Int('i'))) == mod(a(z3.Int('i'))))))]
        for lower, nm, e in ((True, 'minimum', res[0]), (False, 'maximum', res[1])):
            found = classify(c, e, n, short, valid, lambda t: (count > 0, 0 <= M, M < FULL, arc(t), rep(t)))
            if lower not in found:
                raise Unsupported('the %s is not computed by a loop from the infinity' % nm)
            F, obs, bound, attained, p = found[lower]
            goals += [('%s, %s' % (nm, o[0]), o[1]) for o in obs]
            k = fresh('k')
            c.rule(a, bound)
            c.rule(NANF, lambda i: z3.Implies(arc(i), bound(i)))
            c.rule(NANF, arc)
            has = (count > 0, attained, bound(p), arc(p), 0 <= M, M < FULL)
            goals.append(('%s: some angle' % nm, (count <= 0, F == F.arg(1), 0 <= M, M < FULL)))
            has += (F != F.arg(1), mod(short(p)) == mod(a(p)))
            goals.append(('%s: attained' % nm, (And(0 <= p, p < n, valid(p), e == mod(a(p))),) + has))
            le = (short(p) <= short(k)) if lower else (short(p) >= short(k))
            goals.append(('%s: every angle' % nm, (le, 0 <= k, k < n, valid(k), bound(k), arc(k)) + has))
            goals.append(('%s: missing' % nm, (c.ex.nanof(e), count == 0)))
            goals.append(('%s: not missing' % nm, (Not(c.ex.nanof(e)), count > 0)))
            goals.append(('%s: full turns' % nm, (keep[0][0 if lower else 1] == e, count > 0)))
        return goals + unchanged(c, [j for j, x in enumerate(c.args) if x.name == 'array'])
    return run_contract(mods, u, pre, post, kinds=kinds, opts=opts, **kw)


def tasks(mods):
    out = []
    m = mods.get('wcsutils')
    if m and 'mean_degrees' in m.units:
        out.append(('C18', 'mean_degrees', 'wcsutils', 'mean_degrees', mean, {'nobounded': 1}))
    if m and 'minmax_degrees' in m.units:
        out.append(('C18', 'minmax_degrees', 'wcsutils', 'minmax_degrees', minmax, {'nobounded': 1}))
    return out
