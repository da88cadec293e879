"""Logic layer: z3 terms extended with iterated operators, and the prover.

Iterated operators (all over mathematical integers/reals):
  SUM(n, b)    = sum_{0<=t<n} b(t)
  EX(n, b)     = exists 0<=t<n: b(t)
  FIRST(n, b)  = least 0<=t<n with b(t), or max(n, 0) if there is none
  FOLD(n,i,f)  = x_n where x_0 = i, x_{t+1} = f(x_t, t)
Each is an uninterpreted function of (n, free constants of its body); its
definition is used only through the explicitly instantiated axioms below
(unfolding at successor arguments, empty range, single element, congruence of
pointwise-equal bodies, linearity).  Those axioms are the trusted meta-lemmas.
"""
import hashlib
import sys, time
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

_fresh = [0]


def fresh(prefix, sort=I):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (prefix, _fresh[0]), sort)


def fresh_fn(prefix, *sorts):
    _fresh[0] += 1
    return z3.Function('%s!%d' % (prefix, _fresh[0]), *sorts)


def to_real(x):
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def conc(x):
    """python int of a concrete int term, else None"""
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    y = z3.simplify(x)
    if z3.is_int_value(y):
        return y.as_long()
    return None


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_real(a) and z3.is_int(b):
        b = to_real(b)
    if z3.is_real(b) and z3.is_int(a):
        a = to_real(a)
    return z3.If(c, a, b)


def free_consts(e, acc=None, seen=None):
    """0-arity uninterpreted constants of e, in order of first occurrence."""
    if acc is None:
        acc, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.append(x)
        else:
            stack.extend(reversed(x.children()))
    return acc


def contains_decl(e, names):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() in names:
                return True
            stack.extend(x.children())
    return False


def apps(e, pred, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if pred(x):
                acc.append(x)
            stack.extend(x.children())
    return acc


_UA = {}


def uapps(e):
    """the applications of uninterpreted functions in e (remembered)"""
    k = e.get_id()
    r = _UA.get(k)
    if r is None:
        r = (e, tuple(apps(e, lambda x: x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)))
        if len(_UA) > 100000:
            _UA.clear()
        _UA[k] = r
    return r[1]


def uapps_of(exprs, pred):
    acc, seen = [], set()
    for e in exprs:
        for x in uapps(e):
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                if pred(x):
                    acc.append(x)
    return acc


class Iter:
    """registered iterated operator"""
    reg = {}       # decl name -> Iter
    bykey = {}

    def __init__(self, op, name, decl, bound, acc, body, params):
        self.op, self.name, self.decl = op, name, decl
        self.bound, self.acc, self.body, self.params = bound, acc, body, params

    def inst(self, app, t, acc=None):
        """body at index t (and accumulator acc) for this application"""
        args = app.children()
        off = 2 if self.op == 'FOLD' else 1
        sub = [(self.bound, t)] + [(p, a) for p, a in zip(self.params, args[off:])]
        if self.acc is not None:
            sub.append((self.acc, acc))
        return z3.substitute(self.body, *sub)


def is_iter(x):
    return z3.is_app(x) and x.num_args() > 0 and x.decl().name() in Iter.reg


def iter_of(x):
    return Iter.reg[x.decl().name()]


_PLACE = {}


def _place(kind, k, sort):
    key = (kind, k, sort.name())
    if key not in _PLACE:
        _PLACE[key] = z3.Const('%s#%d#%s' % (kind, k, sort.name()), sort)
    return _PLACE[key]


def _depth(e):
    d = 0
    for a in uapps_of([e], is_iter):
        d = max(d, iter_of(a).level)
    return d


COMM = {z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT}


def digest(e, leaf, cache):
    """hash of a term up to the order of the operands of commutative symbols"""
    k = e.get_id()
    h = cache.get(k)
    if h is not None:
        return h[1]
    if not z3.is_app(e):
        h = e.sexpr()
    elif e.num_args() == 0:
        h = leaf(e)
    else:
        ch = [digest(c, leaf, cache) for c in e.children()]
        if e.decl().kind() in COMM:
            ch.sort()
        h = hashlib.md5(('%s:%s(%s)' % (e.decl().name(), e.sort(), ','.join(ch))).encode()).hexdigest()
    cache[k] = (e, h)
    return h


def _free_in_order(e, blind):
    """free constants in a traversal independent of the order of commutative operands"""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or not z3.is_app(x):
            return
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            return
        ch = x.children()
        if x.decl().kind() in COMM:
            ch = sorted(ch, key=lambda c: digest(c, *blind))
        for c in ch:
            go(c)
    go(e)
    return out


def _mk(op, n, b, body, acc=None, init=None):
    body = z3.simplify(body)
    level = _depth(body) + 1
    bound = _place('b%d' % level, 0, I)
    sub = [(b, bound)]
    accp = None
    if acc is not None:
        accp = _place('a%d' % level, 0, acc.sort())
        sub.append((acc, accp))
    body = z3.substitute(body, *sub)
    params, actual = [], []
    sub = []
    blind = (lambda x: x.sexpr() if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.eq(bound) or (accp is not None and x.eq(accp)) else 'c', {})
    for c in _free_in_order(body, blind):
        if c.eq(bound) or (accp is not None and c.eq(accp)):
            continue
        p = _place('p%d' % level, len(params), c.sort())
        params.append(p)
        actual.append(c)
        sub.append((c, p))
    if sub:
        body = z3.substitute(body, *sub)
    rng = {'SUM': body.sort(), 'EX': B, 'FIRST': I}.get(op)
    if op == 'FOLD':
        rng = init.sort()
    key = (op, digest(body, lambda x: x.sexpr(), {}), tuple(p.sexpr() for p in params), str(rng))
    it = Iter.bykey.get(key)
    if it is None:
        name = '%s@%d' % (op, len(Iter.bykey))
        sorts = [I] + ([rng] if op == 'FOLD' else []) + [p.sort() for p in params] + [rng]
        it = Iter(op, name, z3.Function(name, *sorts), bound, accp, body, params)
        it.level = level
        Iter.reg[name] = it
        Iter.bykey[key] = it
    args = [n] + ([init] if op == 'FOLD' else []) + actual
    return it.decl(*args)


MAXCONC = 6


def _mentions(e, b):
    return any(c.eq(b) for c in free_consts(e))


def _conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += _conjuncts(x)
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out += _conjuncts(z3.simplify(z3.Not(x)))
        return out
    return [c]


def _is_zero(e):
    if z3.is_rational_value(e):
        return e.as_fraction() == 0
    if z3.is_int_value(e):
        return e.as_long() == 0
    return False


def _split_guard(c, b):
    cs = _conjuncts(c)
    out = [x for x in cs if not _mentions(x, b)]
    inn = [x for x in cs if _mentions(x, b)]
    return out, inn


def _free_atom(body, b):
    """an atom of an if-then-else condition of body that does not mention b"""
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop(0)
        if x.get_id() in seen or is_iter(x):
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            continue
        if x.decl().kind() == z3.Z3_OP_ITE:
            for c in _atoms(x.arg(0)):
                if not _mentions(c, b):
                    return c
        stack.extend(x.children())
    return None


def _atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        out = []
        for x in c.children():
            out += _atoms(x)
        return out
    if z3.is_true(c) or z3.is_false(c):
        return []
    return [c]


def _assume(e, at, val):
    e = z3.substitute(e, (at, z3.BoolVal(val)))
    if val and z3.is_eq(at):
        x, y = at.children()
        for p, v in ((x, y), (y, x)):
            if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_int_value(v)):
                e = z3.substitute(e, (p, v))
                break
    return z3.simplify(e)


def _hoist(at, body, mk):
    a, b = _assume(body, at, True), _assume(body, at, False)
    return If(at, mk(a), mk(b))


def SUM(n, f, sort=R):
    n = iv(n)
    c = conc(n)
    zero = z3.RealVal(0) if sort == R else z3.IntVal(0)
    if c is not None and c <= MAXCONC:
        r = zero
        for k in range(c):
            v = f(z3.IntVal(k))
            r = v if k == 0 else r + v
        return r
    b = fresh('t')
    body = z3.simplify(f(b))
    if sort == R:
        body = to_real(body)
    if _is_zero(body):
        return zero
    # case analysis on guards that do not depend on the bound variable
    at = _free_atom(body, b)
    if at is not None:
        return _hoist(at, body, lambda e: SUM(n, lambda t: z3.substitute(e, (b, t)), sort))
    return _mk('SUM', n, b, body)


def EX(n, f):
    n = iv(n)
    c = conc(n)
    if c is not None and c <= MAXCONC:
        return Or(*[f(z3.IntVal(k)) for k in range(c)])
    b = fresh('t')
    body = z3.simplify(f(b))
    if z3.is_false(body):
        return z3.BoolVal(False)
    out, inn = _split_guard(body, b)
    if out and inn:
        return And(*(out + [_mk('EX', n, b, And(*inn))]))
    return _mk('EX', n, b, body)


def ALL(n, f):
    return Not(EX(n, lambda t: Not(f(t))))


def FIRST(n, f):
    b = fresh('t')
    body = z3.simplify(f(b))
    if z3.is_false(body):
        return If(n > 0, n, z3.IntVal(0))
    return _mk('FIRST', iv(n), b, body)


def FOLD(n, init, f):
    """f(acc, t)"""
    n = iv(n)
    c = conc(n)
    if c is not None and c <= MAXCONC:
        r = init
        for k in range(c):
            r = f(r, z3.IntVal(k))
        return r
    b = fresh('t')
    acc = fresh('acc', init.sort())
    return _mk('FOLD', n, b, f(acc, b), acc, init)


# --------------------------------------------------------------------------- prover

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


STATS = Stats()


_mulI = z3.Function('mul_int', I, I, I)
_mulR = z3.Function('mul_real', R, R, R)
_divR = z3.Function('div_real', R, R, R)


_ABS = {}
_SOM = {}


def som(e):
    k = e.get_id()
    r = _SOM.get(k)
    if r is None:
        if len(_SOM) > 50000:
            _SOM.clear()
        r = _SOM[k] = (e, z3.simplify(e, som=True))
    return r[1]


def abstract_products(exprs):
    """the formulas with every nonlinear product made uninterpreted (a weaker
    theory: unsatisfiability carries over); None when there is none"""
    found = [False]

    def is_num(x):
        return z3.is_int_value(x) or z3.is_rational_value(x)

    def okey(x):
        # the root symbols first, so that congruent products line up
        return (x.decl().name() if z3.is_app(x) else '', x.get_id())

    def mul(a, b):
        if is_num(a) or is_num(b):
            return a * b
        # c*x: pull the numbers out
        for x, y in ((a, b), (b, a)):
            if z3.is_mul(x) and x.num_args() == 2 and is_num(x.arg(0)):
                return x.arg(0) * mul(x.arg(1), y)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                return -mul(x.arg(0), y)
        found[0] = True
        if okey(a) > okey(b):
            a, b = b, a
        return (_mulI if a.sort() == I else _mulR)(a, b)

    def go(e):
        k = e.get_id()
        r = cache.get(k)
        if r is not None:
            if r[2]:
                found[0] = True
            return r[1]
        before, found[0] = found[0], False
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [go(c) for c in e.children()]
            kd = e.decl().kind()
            if kd == z3.Z3_OP_MUL:
                num = [c for c in ch if is_num(c)]
                oth = sorted((c for c in ch if not is_num(c)), key=okey)
                r = None
                for c in oth:
                    r = c if r is None else mul(r, c)
                for c in num:
                    r = c if r is None else c * r
            elif kd == z3.Z3_OP_DIV and not is_num(ch[1]):
                found[0] = True
                r = _divR(ch[0], ch[1])
            elif kd == z3.Z3_OP_POWER:
                found[0] = True
                r = mul(ch[0], ch[0]) if is_num(ch[1]) and str(ch[1]) == '2' else e
            elif all(a.eq(b) for a, b in zip(ch, e.children())):
                r = e
            else:
                r = e.decl()(*ch)
        cache[k] = (e, r, found[0])
        found[0] = found[0] or before
        return r
    cache = _ABS
    if len(cache) > 400000:
        cache.clear()
    out = [go(e) for e in exprs]
    return out if found[0] else None


def solve(assums, timeout=4000):
    """('unsat'|'sat'|'unknown', model)"""
    ab = abstract_products([som(a) for a in assums])
    if ab is not None and solve1(ab, min(timeout, 1500))[0] == 'unsat':
        return 'unsat', None
    if ab is not None:
        ra = abstract_reads(assums)
        if ra is not None and solve_nra(ra, min(timeout, 3000)) == 'unsat':
            return 'unsat', None
    return solve1(assums, timeout)


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER,
          z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE,
          z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_XOR, z3.Z3_OP_IMPLIES, z3.Z3_OP_IFF, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM}


def abstract_reads(exprs):
    """the formulas over the reals alone: every other term becomes a variable, every
    atom over the integers a proposition (a weaker theory)"""
    cache, keep = {}, []

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(e):
            r = z3.FreshBool('qf')
        elif e.sort() == I:
            return None
        elif not z3.is_app(e) or e.num_args() == 0:
            r = e
        elif e.decl().kind() in _ARITH:
            ch = [go(c) for c in e.children()]
            r = None if any(c is None for c in ch) else e.decl()(*ch)
            if r is None:
                r = z3.FreshConst(e.sort(), 'at')
        else:
            r = z3.FreshConst(e.sort(), 'rd') if e.sort() in (R, B) else None
        cache[k] = r
        keep.append(e)
        return r
    out = []
    for e in exprs:
        r = go(z3.simplify(e))
        if r is not None:
            out.append(r)
    return out


def solve_nra(exprs, timeout):
    s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat').solver()
    s.set('timeout', timeout)
    s.add(*exprs)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.time += time.time() - t
    STATS.queries += 1
    return 'unsat' if r == z3.unsat else 'unknown'


def solve1(assums, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', 1)
    s.add(*assums)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


def _is_succ(n):
    """n = x + c with integer c >= 1 and x non-constant: return x + (c-1), else None"""
    if z3.is_add(n):
        for k, a in enumerate(n.children()):
            if z3.is_int_value(a) and a.as_long() >= 1:
                return z3.simplify(n - 1)
    return None


_COUNTS = {}


def counts(it):
    """a sum of terms that are never negative, whatever the parameters"""
    def nonneg(e):
        k = e.decl().kind()
        if z3.is_int_value(e):
            return e.as_long() >= 0
        if k == z3.Z3_OP_ITE:
            return nonneg(e.arg(1)) and nonneg(e.arg(2))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(map(nonneg, e.children()))
        return is_iter(e) and iter_of(e).op == 'SUM' and e.sort() == I and counts(iter_of(e))
    if it.name not in _COUNTS:
        _COUNTS[it.name] = it.decl.range() == I and nonneg(it.body)
    return _COUNTS[it.name]


def lemmas(exprs, unfold=True, tpoints=()):
    """axiom instances for the iterated operators occurring in exprs"""
    out = []
    done = set()
    work = list(exprs)
    rounds = 0
    while work and rounds < 6:
        rounds += 1
        acc = uapps_of(work, is_iter)
        work = []
        for a in acc:
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            it = iter_of(a)
            n = a.arg(0)
            new = []
            p = _is_succ(n) if unfold else None
            rest = a.children()[1:]
            if it.op == 'SUM':
                zero = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
                new.append(z3.Implies(n <= 0, a == zero))
                new.append(z3.Implies(n == 1, a == it.inst(a, z3.IntVal(0))))
                if counts(it):
                    new.append(a >= 0)
                if p is not None:
                    prev = it.decl(p, *rest)
                    new.append(z3.Implies(n >= 1, a == prev + it.inst(a, p)))
            elif it.op == 'EX':
                new.append(z3.Implies(n <= 0, Not(a)))
                new.append(z3.Implies(n == 1, a == it.inst(a, z3.IntVal(0))))
                if p is not None:
                    prev = it.decl(p, *rest)
                    new.append(z3.Implies(n >= 1, a == z3.Or(prev, it.inst(a, p))))
                for tp in tpoints:
                    new.append(z3.Implies(z3.And(0 <= tp, tp < n, it.inst(a, tp)), a))
            elif it.op == 'FIRST':
                new.append(z3.Implies(n <= 0, a == 0))
                new.append(z3.Implies(n >= 0, z3.And(0 <= a, a <= n)))
                new.append(z3.Implies(z3.And(n >= 1, a < n), it.inst(a, a)))
                new.append(z3.Implies(n >= 1, z3.Implies(it.inst(a, z3.IntVal(0)), a == 0)))
                for tp in tpoints:
                    new.append(z3.Implies(z3.And(0 <= tp, tp < n, it.inst(a, tp)), a <= tp))
            elif it.op == 'FOLD':
                init = a.arg(1)
                new.append(z3.Implies(n <= 0, a == init))
                new.append(z3.Implies(n == 1, a == it.inst(a, z3.IntVal(0), init)))
                if p is not None:
                    prev = it.decl(p, *rest)
                    new.append(z3.Implies(n >= 1, a == it.inst(a, p, prev)))
            out += new
            work += new
    return out


# axioms for the uninterpreted real functions, instantiated on occurring terms
REALFN = {}


def realfn(name, arity=1):
    if name not in REALFN:
        REALFN[name] = z3.Function(name, *([R] * arity), R)
    return REALFN[name]


def fn_axioms(exprs):
    acc = uapps_of(exprs, lambda x: x.decl().name() in REALFN)
    out = []
    for a in acc:
        n = a.decl().name()
        x = a.arg(0)
        if n == 'sqrt':
            out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            out.append(z3.Implies(x > 0, a > 0))
        elif n == 'exp':
            out.append(a > 0)
            out.append(z3.Implies(x < 0, a < 1))
            out.append(z3.Implies(x > 0, a > 1))
            out.append(z3.Implies(x == 0, a == 1))
        elif n in ('cos', 'sin'):
            out.append(z3.And(a <= 1, a >= -1))
            c, s = realfn('cos')(x), realfn('sin')(x)
            out.append(c * c + s * s == 1)
    return out


QDIV = z3.Function('qdiv', I, I, I)       # floor of the quotient by a positive number


def qdiv_axioms(exprs):
    acc = uapps_of(exprs, lambda x: x.num_args() == 2 and x.decl().name() == 'qdiv')
    return [z3.Implies(a.arg(1) > 0, z3.And(a.arg(1) * a <= a.arg(0), a.arg(0) < a.arg(1) * a + a.arg(1))) for a in acc]


def expand_ex(e, depth=6):
    if depth == 0:
        return e
    ap = [a for a in uapps_of([e], is_iter) if iter_of(a).op == 'EX']
    if not ap:
        return e
    sub = []
    for a in ap:
        vs, cs = [], []
        _flatten_ex(a, vs, cs, depth)
        sub.append((a, z3.Exists(vs, z3.And(*cs))))
    return z3.substitute(e, *sub)


def _flatten_ex(a, vs, cs, depth):
    t = fresh('x')
    vs.append(t)
    cs += [0 <= t, t < a.arg(0)]
    for c in _conjuncts(z3.simplify(iter_of(a).inst(a, t))):
        if is_iter(c) and iter_of(c).op == 'EX' and depth > 0:
            _flatten_ex(c, vs, cs, depth - 1)
        else:
            cs.append(expand_ex(c, depth - 1))


def has_ite(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo += x.children()
    return False


class Prover:
    def __init__(self, background=None, timeout=4000, deadline=None):
        self.background = background or (lambda exprs: [])   # read-triggered facts
        self.timeout = timeout
        self.deadline = deadline
        self.late = False
        self.memo = {}
        self.background_version = lambda: 0

    def facts(self, exprs, tpoints=()):
        out = []
        cur = list(exprs)
        lem = lemmas(cur, True, tpoints)
        cur = cur + lem
        bg = self.background(cur)
        cur2 = cur + bg
        out = lem + bg + fn_axioms(cur2) + qdiv_axioms(cur2)
        return out

    def prove(self, assums, goal, depth=3, timeout=None, tpoints=()):
        """('proved'|'failed', model or None)"""
        if self.deadline and time.time() > self.deadline:
            self.late = True
            return 'failed', None
        key = (goal.get_id(), frozenset(a.get_id() for a in assums), depth, timeout, tuple(p.get_id() for p in tpoints))
        r = self.memo.get(key)
        if r is None:
            v = self.background_version()
            r = self.prove_(assums, goal, depth, timeout, tpoints)
            if not self.late and v == self.background_version():
                self.memo[key] = r + (goal, list(assums), tpoints, v)
        elif r[5] != self.background_version():
            del self.memo[key]
            return self.prove(assums, goal, depth, timeout, tpoints)
        return r[:2]

    def bound(self, kind, depth, sort=I):
        """the variable of an iterated term looked into, distinct from those of the
        terms around it (the depth decreases inwards)"""
        return z3.Const('%s~%d' % (kind, depth), sort)

    def prove_(self, assums, goal, depth, timeout, tpoints):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', None
        if z3.is_and(g):
            for c in g.children():
                r = self.prove(assums, c, depth, timeout, tpoints)
                if r[0] != 'proved':
                    return r
            return 'proved', None
        if z3.is_eq(goal) and z3.is_real(goal.arg(0)):
            from . import ring
            t0 = time.time()
            ok = ring.equal(goal.arg(0), goal.arg(1))
            if not ok and has_ite(goal):
                x, y = [ring.pruned(e, assums) for e in goal.children()]
                ok = not (x.eq(goal.arg(0)) and y.eq(goal.arg(1))) and ring.equal(x, y)
            STATS.time += time.time() - t0
            if ok:
                return 'proved', None
        assums = [a for a in assums if not z3.is_true(a)]
        base = assums + [z3.Not(g)]
        r, m = solve(base + self.facts(base, tpoints), timeout or self.timeout)
        if r == 'unsat':
            return 'proved', None
        if depth <= 0:
            return 'failed', m
        # congruence lemmas between iterated terms
        acc = uapps_of(base, is_iter)
        if not acc:
            return 'failed', m
        m0 = m
        eqs = []
        uniq = acc
        for i in range(len(uniq)):
            for j in range(i):
                e = self.congruent(assums, uniq[j], uniq[i], depth)
                if e is not None:
                    eqs.append(e)
        for a in uniq:
            e = self.vanishes(assums, a, depth)
            if e is not None:
                eqs.append(e)
        if eqs:
            b2 = base + eqs
            r, m = solve(b2 + self.facts(b2, tpoints), timeout or self.timeout)
            if r == 'unsat':
                return 'proved', None
        if any(iter_of(a).op in ('EX', 'FIRST') for a in uniq) and (
                self.quantified(base + eqs, timeout) or self.herbrand(base + eqs, timeout)):
            return 'proved', None
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            if self.linear(assums, g.arg(0) - g.arg(1), depth):
                return 'proved', None
        return 'failed', m0

    def quantified(self, base, timeout=None):
        """refute base with the EX terms replaced by the quantifiers they stand for"""
        try:
            b2 = [expand_ex(e) for e in base]
        except RecursionError:
            return False
        if all(x.eq(y) for x, y in zip(base, b2)):
            return False
        r, _ = solve(b2 + self.facts(b2), timeout or self.timeout)
        return r == 'unsat'

    def herbrand(self, base, timeout=None, rounds=4, maxpts=10, maxterms=60):
        """refute base by skolemising the true EX terms and instantiating the
        false ones (and the minimality of FIRST) at the witnesses"""
        facts, done = [], set()
        pts, ptids = [], set()
        terms, tids = [], set()

        def point(p):
            p = z3.simplify(p)
            if p.get_id() not in ptids and len(pts) < maxpts:
                ptids.add(p.get_id())
                pts.append(p)
        work = list(base)
        for _ in range(rounds):
            new = self.facts(work)
            acc = uapps_of(work + new, lambda x: is_iter(x) and iter_of(x).op in ('EX', 'FIRST'))
            facts += new
            for a in acc:
                if a.get_id() not in tids and len(terms) < maxterms:
                    tids.add(a.get_id())
                    terms.append(a)
                    if iter_of(a).op == 'FIRST':
                        point(a)
            nxt = []
            for a in terms:
                it, n = iter_of(a), a.arg(0)
                if it.op == 'EX' and ('w', a.get_id()) not in done:
                    done.add(('w', a.get_id()))
                    w = z3.Function('wit.' + it.name, *([x.sort() for x in a.children()] + [I]))(*a.children())
                    nxt.append(z3.Implies(a, z3.And(0 <= w, w < n, it.inst(a, w))))
                    point(w)
            for a in terms:
                it, n = iter_of(a), a.arg(0)
                for p in list(pts):
                    if (a.get_id(), p.get_id()) in done or p.eq(a):
                        continue
                    done.add((a.get_id(), p.get_id()))
                    hit = z3.And(0 <= p, p < n, it.inst(a, p))
                    nxt.append(z3.Implies(hit, a if it.op == 'EX' else a <= p))
            if not nxt:
                break
            facts += nxt
            r, _ = solve(base + facts + self.facts(nxt), timeout or self.timeout)
            if r == 'unsat':
                return True
            work = nxt
        return False

    def vanishes(self, assums, a, depth):
        """SUM of zeros / EX of falsities / FOLD of steps that change nothing under the assumptions"""
        it = iter_of(a)
        if it.op not in ('SUM', 'EX', 'FOLD'):
            return None
        t = self.bound('vt', depth)
        if it.op == 'FOLD':
            acc = self.bound('va', depth, a.sort())
            b = it.inst(a, t, acc)
            if not _may_keep(b, acc):
                return None
            if self.prove(assums + [0 <= t, t < a.arg(0)], b == acc, depth - 1)[0] == 'proved':
                return a == a.arg(1)
            return None
        b = it.inst(a, t)
        if it.op == 'SUM':
            goal = b == (z3.RealVal(0) if a.sort() == R else z3.IntVal(0))
        else:
            goal = z3.Not(b)
        if self.prove(assums + [0 <= t, t < a.arg(0)], goal, 0)[0] == 'proved':
            return z3.Not(a) if it.op == 'EX' else a == (z3.RealVal(0) if a.sort() == R else z3.IntVal(0))
        return None

    def congruent(self, assums, a, b, depth):
        """an equality a == b, proved by congruence, or None"""
        ia, ib = iter_of(a), iter_of(b)
        if ia.op != ib.op or a.sort() != b.sort() or a.eq(b):
            return None
        na, nb = a.arg(0), b.arg(0)
        if not na.eq(nb):
            base = assums + [na != nb, z3.Or(na > 0, nb > 0)]
            if solve(base + self.facts(base), 2000)[0] != 'unsat':
                return None
        t = self.bound('ct', depth)
        if ia.op == 'FOLD':
            if not a.arg(1).eq(b.arg(1)):
                base = assums + [a.arg(1) != b.arg(1)]
                if solve(base + self.facts(base), 2000)[0] != 'unsat':
                    return None
            acc = self.bound('ca', depth, a.sort())
            x, y = ia.inst(a, t, acc), ib.inst(b, t, acc)
        else:
            x, y = ia.inst(a, t), ib.inst(b, t)
        if z3.is_int(x) != z3.is_int(y):
            return None
        r = self.prove(assums + [0 <= t, t < na], x == y, depth - 1)
        if r[0] == 'proved':
            return a == b
        return None

    # -- linear combinations of sums -------------------------------------
    def linear(self, assums, d, depth, budget=None):
        """prove d == 0 where d is a linear combination of SUMs"""
        if budget is None:
            budget = [24]
        budget[0] -= 1
        if budget[0] < 0:
            return False
        d = z3.simplify(d, som=True, push_ite_arith=False) if False else z3.simplify(d)
        # case split on conditions of ites that guard sums
        c = _ite_guard(d)
        if c is not None:
            for lit in (c, Not(c)):
                a2 = assums + [lit]
                base = a2
                if solve(base + self.facts(base), 1500)[0] == 'unsat':
                    continue
                d2 = z3.simplify(_resolve_ite(d, c, lit is c))
                if not self.linear(a2, d2, depth, budget):
                    return False
            return True
        base = assums + [d != 0]
        if solve(base + self.facts(base), 1500)[0] == 'unsat':
            return True
        lc = lincomb(d)
        if lc is None:
            return self.prove(assums, d == 0, depth - 1)[0] == 'proved'
        rest, terms = lc
        groups = []
        for coef, s in terms:
            n = s.arg(0)
            for g in groups:
                if g[0].eq(n) or solve(assums + [g[0] != n, z3.Or(g[0] > 0, n > 0)] + self.facts(assums + [g[0] != n]), 1500)[0] == 'unsat':
                    g[1].append((coef, s))
                    break
            else:
                groups.append([n, [(coef, s)]])
        if self.prove(assums, rest == 0, 0)[0] != 'proved':
            return False
        for n, ts in groups:
            t = self.bound('lt', depth)
            body = None
            for coef, s in ts:
                x = to_real(coef) * to_real(iter_of(s).inst(s, t))
                body = x if body is None else body + x
            a2 = assums + [0 <= t, t < n]
            if self.prove(a2, body == 0, 0)[0] == 'proved':
                continue
            if depth > 1 and self.linear(a2, body, depth - 1, budget):
                continue
            return False
        return True


def _may_keep(e, acc):
    """a branch of e is the accumulator, or a fold that starts from it"""
    if e.eq(acc):
        return True
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return _may_keep(e.arg(1), acc) or _may_keep(e.arg(2), acc)
    return is_iter(e) and iter_of(e).op == 'FOLD' and _may_keep(e.arg(1), acc)


def _has_iter(e):
    return any(is_iter(x) for x in uapps(e))


def _ite_guard(d):
    for x in apps(d, lambda x: x.decl().kind() == z3.Z3_OP_ITE):
        if _has_iter(x.arg(1)) or _has_iter(x.arg(2)):
            if not _inside_iter(d, x):
                return x.arg(0)
    return None


def _inside_iter(d, x):
    # iter bodies are not subterms, only their arguments: never inside
    return False


def _resolve_ite(d, c, val):
    return z3.substitute(d, (c, z3.BoolVal(val)))


def lincomb(d):
    """d = rest + sum coef*S with S iterated SUM applications; None if not linear"""
    terms = []
    rest = []

    def go(e, coef):
        if is_iter(e) and iter_of(e).op == 'SUM':
            terms.append((coef, e))
            return True
        if not _has_iter(e):
            rest.append(to_real(coef) * to_real(e))
            return True
        if z3.is_add(e):
            return all(go(x, coef) for x in e.children())
        if z3.is_sub(e):
            ch = e.children()
            return go(ch[0], coef) and all(go(x, -coef) for x in ch[1:])
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            return go(e.arg(0), -coef)
        if z3.is_mul(e):
            fs = e.children()
            w = [x for x in fs if _has_iter(x)]
            if len(w) != 1:
                return False
            c = coef
            for x in fs:
                if not x.eq(w[0]):
                    c = to_real(c) * to_real(x)
            return go(w[0], c)
        if z3.is_div(e) and not _has_iter(e.arg(1)):
            return go(e.arg(0), to_real(coef) / to_real(e.arg(1)))
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return go(e.arg(0), coef)
        return False
    if not go(d, z3.RealVal(1)):
        return None
    r = z3.RealVal(0)
    for x in rest:
        r = r + x
    return r, terms
