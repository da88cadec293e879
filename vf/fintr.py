"""Intrinsic procedures."""
import z3
from .sym import (SUM, EX, ALL, FOLD, If, And, Or, Not, to_real, conc, realfn, R, I)


def _args(ex, args, st):
    pos, kw = [], {}
    for a in args:
        if isinstance(a, tuple) and a[0] == 'kw':
            kw[a[1]] = a[2]
        else:
            pos.append(a)
    return pos, kw


def zmin(a, b):
    if z3.is_real(a) or z3.is_real(b):
        a, b = to_real(a), to_real(b)
    return If(z3.simplify(a <= b), a, b)


def zmax(a, b):
    if z3.is_real(a) or z3.is_real(b):
        a, b = to_real(a), to_real(b)
    return If(z3.simplify(a >= b), a, b)


def zabs(a):
    return If(z3.simplify(a >= 0), a, -a)


def zfloor(x):
    return z3.ToInt(to_real(x))


def zceil(x):
    return -z3.ToInt(-to_real(x))


def zint(x):
    return If(z3.simplify(x >= 0), z3.ToInt(x), -z3.ToInt(-x))


def znint(x):
    h = z3.Q(1, 2)
    return If(z3.simplify(x >= 0), z3.ToInt(x + h), -z3.ToInt(-x + h))


def zmodulo(a, p):
    if z3.is_int(a) and z3.is_int(p):
        return If(p > 0, a % p, -((-a) % (-p)))
    a, p = to_real(a), to_real(p)
    return a - p * to_real(z3.ToInt(a / p))


def over(ex, shape, fn, op, sort=R):
    """iterate over all indices of an array value"""
    def rec(k, idx):
        if k == len(shape):
            return fn(tuple(idx))
        return op(shape[k], lambda t: rec(k + 1, idx + [t]))
    return rec(0, [])


def call(ex, name, args, st):
    from .fexec import AV, DV, Unsupported, KINDS
    pos, kw = _args(ex, args, st)
    if name in ('c_loc',):
        raise Unsupported('c_loc in expression')
    if name == 'present':
        r = ex.resolve(pos[0], st)
        return z3.BoolVal(not r.optional_absent)
    if name == 'kind':
        v = ex.resolve(pos[0], st)
        return z3.IntVal(v.kind)
    if name in ('size', 'lbound', 'ubound'):
        r = ex.resolve(pos[0], st)
        if r is not None and r.dims is not None:
            dims = r.dims
        else:
            v = ex.eval(pos[0], st)
            if not isinstance(v, AV):
                raise Unsupported(name)
            dims = [(z3.IntVal(1), e) for e in v.shape]
        d = None
        if len(pos) > 1:
            d = conc(ex.eval(pos[1], st))
        elif 'dim' in kw:
            d = conc(ex.eval(kw['dim'], st))
        if name == 'size':
            if d is None:
                r = z3.IntVal(1)
                for _, e in dims:
                    r = r * e
                return z3.simplify(r)
            return dims[d - 1][1]
        if d is None:
            if len(dims) == 1:
                raise Unsupported('lbound without dim')
            raise Unsupported(name)
        lo, ext = dims[d - 1]
        return lo if name == 'lbound' else z3.simplify(lo + ext - 1)
    if name == 'loc':
        r = ex.resolve(pos[0], st)
        # addresses are compared by storage identity
        sid = abs(hash(str(r.st))) % (1 << 40)
        return z3.IntVal(sid)
    vals = [ex.eval(a, st) for a in pos]
    if any(isinstance(v, DV) for v in vals):
        raise Unsupported(name + ' of derived type')
    if name in ('min', 'max'):
        f = zmin if name == 'min' else zmax
        r = vals[0]
        for v in vals[1:]:
            r = ex.lift2(f, r, v)
        return r
    if name == 'abs':
        return ex.lift1(zabs, vals[0])
    if name in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'log'):
        f = realfn(name)
        return ex.lift1(lambda x: f(to_real(x)), vals[0])
    if name == 'atan2':
        return ex.lift2(lambda a, b: realfn('atan2', 2)(a, b), vals[0], vals[1])
    if name in ('real', 'dble'):
        return ex.lift1(to_real, vals[0], 'real')
    if name in ('int', 'floor', 'ceiling', 'nint'):
        f = {'int': zint, 'floor': zfloor, 'ceiling': zceil, 'nint': znint}[name]
        def g(x):
            if z3.is_int(x):
                return x
            return f(x)
        return ex.lift1(g, vals[0], 'integer')
    if name == 'modulo':
        return ex.lift2(zmodulo, vals[0], vals[1])
    if name == 'mod':
        def mod(a, p):
            if z3.is_int(a) and z3.is_int(p):
                return a - p * ex.binop('/', a, p)
            a, p = to_real(a), to_real(p)
            q = a / p
            return a - p * to_real(zint(q))
        return ex.lift2(mod, vals[0], vals[1])
    if name == 'sign':
        def sgn(a, b):
            return If(b >= 0, zabs(a), -zabs(a))
        return ex.lift2(sgn, vals[0], vals[1])
    if name == 'merge':
        a, b, c = vals
        def at(v, idx):
            return v.fn(idx) if isinstance(v, AV) else v
        sh = [v for v in vals if isinstance(v, AV)]
        if not sh:
            return If(c, a, b)
        return AV(sh[0].shape, lambda idx: If(at(c, idx), at(a, idx), at(b, idx)), ex.base_of(a))
    if name in ('sum', 'any', 'all', 'minval', 'maxval', 'count', 'product'):
        a = vals[0]
        if not isinstance(a, AV):
            raise Unsupported(name)
        if 'dim' in kw or (len(vals) > 1 and not isinstance(vals[1], AV)):
            raise Unsupported(name + ' with dim')
        mask = ex.eval(kw['mask'], st) if 'mask' in kw else (vals[1] if len(vals) > 1 else None)
        if name == 'sum':
            sort = R if a.base == 'real' else I
            zero = z3.RealVal(0) if sort == R else z3.IntVal(0)
            fn = a.fn if mask is None else (lambda idx: If(mask.fn(idx), a.fn(idx), zero))
            return over(ex, a.shape, fn, lambda n, f: SUM(n, f, sort))
        if name == 'count':
            return over(ex, a.shape, lambda idx: If(a.fn(idx), z3.IntVal(1), z3.IntVal(0)), lambda n, f: SUM(n, f, I))
        if name == 'any':
            return over(ex, a.shape, a.fn, EX)
        if name == 'all':
            return over(ex, a.shape, a.fn, ALL)
        if name in ('minval', 'maxval') and mask is None and len(a.shape) == 1:
            f = zmin if name == 'minval' else zmax
            first = a.fn((z3.IntVal(0),))
            c = conc(a.shape[0])
            if c is not None:
                r = first
                for k in range(1, c):
                    r = f(r, a.fn((z3.IntVal(k),)))
                return r
            return FOLD(a.shape[0] - 1, first, lambda acc, t: f(acc, a.fn((t + 1,))))
        raise Unsupported(name)
    if name == 'dot_product':
        a, b = vals
        p = ex.lift2(lambda x, y: ex.binop('*', x, y), a, b)
        return over(ex, p.shape, p.fn, lambda n, f: SUM(n, f, R if p.base == 'real' else I))
    raise Unsupported('function ' + name)
