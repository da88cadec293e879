"""Equality of real terms as rational functions: sums of monomials with exact
coefficients, whose atoms are the other terms (their arguments normalised in turn).
Denominators are taken as nonzero."""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, limit=20000):
        self.limit = limit
        self.cache, self.atoms, self.keep = {}, {}, []

    def atom(self, key):
        if key not in self.atoms:
            self.atoms[key] = len(self.atoms)
        return {((self.atoms[key], 1),): Fraction(1)}

    def mul(self, a, b):
        if len(a) * len(b) > 20 * self.limit:
            raise TooBig
        r = {}
        for m, x in a.items():
            for n, y in b.items():
                d = dict(m)
                for k, e in n:
                    d[k] = d.get(k, 0) + e
                k = tuple(sorted(d.items()))
                c = r.get(k, 0) + x * y
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
        if len(r) > self.limit:
            raise TooBig
        return r

    def add(self, a, b, s=1):
        r = dict(a)
        for m, x in b.items():
            c = r.get(m, 0) + s * x
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r

    def key(self, p):
        return tuple(sorted(p.items()))

    def inverse(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): 1 / c}
            for k, e in m:
                r = self.mul(r, {((self.atom_inv(k), e),): Fraction(1)})
            return r
        # make the leading coefficient one
        ks = sorted(p)
        c = p[ks[0]] if ks else Fraction(1)
        if not p:
            return self.atom(('inv', ()))
        q = {m: x / c for m, x in p.items()}
        return self.mul({(): 1 / c}, self.atom(('inv', self.key(q))))

    def atom_inv(self, k):
        a = self.atom(('invatom', k))
        (m, _), = a.items()
        return m[0][0]

    def norm(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self.norm_(e)
        self.cache[i] = r
        self.keep.append(e)
        return r

    def norm_(self, e):
        if z3.is_rational_value(e):
            return {(): Fraction(e.numerator_as_long(), e.denominator_as_long())} if e.numerator_as_long() else {}
        if z3.is_int_value(e):
            return {(): Fraction(e.as_long())} if e.as_long() else {}
        if not z3.is_app(e):
            return self.atom(('raw', e.get_id()))
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.norm(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.norm(ch[0]), self.inverse(self.norm(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = {(): Fraction(1)}
            for _ in range(ch[1].numerator_as_long()):
                r = self.mul(r, self.norm(ch[0]))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if not ch:
            return self.atom(('const', e.decl().name()))
        parts = []
        for c in ch:
            if z3.is_arith(c):
                parts.append(self.key(self.norm(c)))
            else:
                self.keep.append(c)
                parts.append(('id', c.get_id()))
        self.keep.append(e)
        return self.atom(('app', e.decl().name() if k == z3.Z3_OP_UNINTERPRETED else k, tuple(parts)))


def equal(a, b, limit=20000):
    r = Ring(limit)
    try:
        return not r.add(r.norm(a), r.norm(b), -1)
    except (TooBig, RecursionError):
        return False


def pruned(e, assums, timeout=300, limit=60):
    """e with the conditions decided by the assumptions replaced by their values"""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*assums)
    known, asked = {}, [0]

    def decide(c):
        i = c.get_id()
        if i not in known:
            v = None
            if asked[0] < limit:
                asked[0] += 1
                if s.check(z3.Not(c)) == z3.unsat:
                    v = True
                elif s.check(c) == z3.unsat:
                    v = False
            known[i] = (v, c)
        return known[i][0]
    cache = {}

    def walk(e):
        i = e.get_id()
        if i in cache:
            return cache[i][0]
        r = e
        if z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_ITE:
                v = decide(e.arg(0))
                if v is True:
                    r = walk(e.arg(1))
                elif v is False:
                    r = walk(e.arg(2))
                else:
                    r = z3.If(walk(e.arg(0)), walk(e.arg(1)), walk(e.arg(2)))
            else:
                ch = [walk(c) for c in e.children()]
                if any(not x.eq(y) for x, y in zip(ch, e.children())):
                    r = e.decl()(*ch)
        cache[i] = (r, e)
        return r
    return walk(e)

