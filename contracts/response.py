"""Contracts of the truncated exponential response (module_operators.f90.j2, operators.f90.j2): C09."""
import re
import time
import z3
from vf import sym
from vf.fexec import Unsupported
from vf.sym import I, R, fresh, If, And, Or, Not, realfn, Prover
from vf.contract import run_contract, Result, settle
from contracts.sparse import unchanged

exp = realfn('exp')
ZI, ONE = z3.IntVal(0), z3.RealVal(1)


class _U:
    fname, lineno, name = 'contracts/response.py', 0, 'adjoint'


def recurrence(transpose, out, inp, n, tau, k):
    """what the outputs out(0..n-1) are for the inputs inp, at the index k"""
    w = exp(-1 / tau)
    v = ONE - w
    pos = tau > 0
    goals = [('zero time constant: the identity', (out(k) == inp(k), tau == 0, 0 <= k, k < n))]
    if not transpose:
        return goals + [('first sample', (out(ZI) == inp(ZI), pos, n >= 1)),
                        ('recurrence', (out(k + 1) == w * out(k) + v * inp(k + 1), pos, 0 <= k, k + 1 < n))]
    i = n - 2 - k       # from the end, so that the fold is over k
    return goals + [('one sample', (out(ZI) == inp(ZI), pos, n == 1)),
                    ('last sample', (out(n - 1) == v * inp(n - 1), pos, n >= 2)),
                    ('recurrence', (out(i) == w * out(i + 1) + v * inp(i), pos, 0 <= k, i >= 1)),
                    ('first sample', (v * out(i) == w * out(i + 1) + v * inp(i), pos, 0 <= k, i == 0))]


def kernel(transpose, inplace):
    def f(mods, u, kinds=('post',), **kw):
        def post(c):
            A = c.args
            x, y, tau = A[0], A[0 if inplace else 1], A[-1].val
            n = x.exts[0]
            g = recurrence(transpose, lambda k: c.post(y, k), x.f, n, tau, fresh('k'))
            return g if inplace else g + unchanged(c, [0])
        return run_contract(mods, u, lambda c: c.assume(c.args[-1].val >= 0), post, kinds=kinds, **kw)
    return f


def driver(transpose, inplace):
    """the kernels by their contracts: the driver hands every block of samples to the
    kernel of its name exactly once, with its time constant, and does nothing else"""
    def f(mods, u, kinds=('post',), **kw):
        calls = []

        def hook(ex, v, args, st):
            m = re.match(r'trexp_(direct|transpose)_(in|out)place_r[48]$', v.name)
            if m is None or v is u:
                return None
            v.parse()
            fr = ex.bind(v, [ex.actual(a, st) for a in args], st)
            arr = [fr.env[a] for a in v.args if v.decls[a].dims]
            tau = ex.read_ref(fr.env[v.args[-1]], st)
            j = fresh('j')
            s2 = st.copy()
            for k, r in enumerate(arr):
                s2 = s2.assume(And(0 <= j, j < r.dims[0][1]))
            for k, r in enumerate(arr):
                idx = r.canon((r.dims[0][0] + j,))
                ex.access(r.st, idx, s2, False)
                if k == len(arr) - 1:
                    ex.access(r.st, idx, s2, True)
            if ex.verify or ex.log is not None:
                calls.append((v, m.groups(), arr, tau, tuple(st.conds)))
            return True

        def pre(c):
            n = c.byname
            nd, isize, istride, osize, ostride, ntaus = [n[x].val for x in ('ndetectors', 'isize', 'istride', 'osize', 'ostride', 'ntaus')]
            c.assume(nd >= 0, isize >= 0, osize == isize, istride >= isize, ostride >= osize, Or(ntaus == 1, ntaus >= nd), ntaus >= 1)
            c.assume(n['ninputs'].val >= nd * istride, n['noutputs'].val >= nd * ostride)
            for S in (istride, ostride):
                c.assume(S >= 1)
            if inplace:
                # the two arguments are the same array
                c.assume(istride == ostride, n['ninputs'].val == n['noutputs'].val)
                c.ex.frame.env['output'] = c.ex.frame.env['input']
                n['output'].ref = n['input'].ref
            c.rule(n['tau'].f, lambda i: n['tau'].f(i) >= 0)

        def post(c):
            n = c.byname
            S, L, ntaus, nd, size = [n[x].val for x in ('ostride', 'istride', 'ntaus', 'ndetectors', 'isize')]
            if not calls:
                raise Unsupported('the driver does not call the kernels')
            d, e, j = fresh('d'), fresh('e'), fresh('j')
            pos = [0 <= d, d < nd]
            goals = []
            covered, alone = [], []
            for v, (kind, place), arr, tau, conds in calls:
                ts = [x for x in sym.free_consts(arr[0].canon((arr[0].dims[0][0],))[0]) if x.decl().name().startswith('k!')]
                if len(ts) != 1:
                    raise Unsupported('a kernel called outside a loop over the detectors')
                t = ts[0]
                first = arr[0].canon((arr[0].dims[0][0],))[0]
                # the iteration of the detector d
                for cand in (d, nd - 1 - d):
                    at = lambda x: z3.simplify(z3.substitute(x, (t, cand)))
                    if c.ex.prover.prove(list(c.facts) + pos, at(first) == d * L)[0] == 'proved':
                        break
                else:
                    cand = d
                at = lambda x: z3.simplify(z3.substitute(x, (t, cand)))
                goals.append(('the kernel of this driver', z3.BoolVal(kind == ('transpose' if transpose else 'direct') and place == ('in' if inplace else 'out'))))
                refs = ['input'] if len(arr) == 1 else ['input', 'output']
                for r, nm in zip(arr, refs):
                    stride = {'input': L, 'output': S}[nm]
                    goals.append(('%s is the array given' % nm, z3.BoolVal(r.st == n[nm].ref.st)))
                    at2 = at(r.canon((r.dims[0][0] + j,))[0])
                    goals.append(('%s block' % nm, (at2 == d * stride + j, 0 <= j, j < size) + tuple(pos)))
                    goals.append(('%s length' % nm, (at(r.dims[0][1]) == size,) + tuple(pos)))
                goals.append(('time constant', (at(tau) == n['tau'].f(If(d < ntaus, d, ntaus - 1)),) + tuple(pos)))
                covered.append(at(And(*conds)))
                # no block is handed twice
                goals.append(('one call per detector', (at(first) != z3.substitute(at(first), (d, e)), 0 <= e, e < d, d < nd, size >= 1)))
            goals.append(('every detector is handed to the kernel', (Or(*covered),) + tuple(pos)))
            for a in range(len(covered)):
                for b in range(a):
                    goals.append(('one call per detector', (Not(And(covered[a], covered[b])),) + tuple(pos)))
            goals.append(('the blocks are disjoint', (d * S >= e * S + size, 0 <= e, e < d, d < nd)))
            return goals + unchanged(c, list(range(len(c.args))))
        return run_contract(mods, u, pre, post, kinds=kinds, opts={'hook_call': hook}, **kw)
    return f


def lemma_adjoint(mods, u, kinds=('post',), timeout=4000, deadline=None, sizes=None, **kw):
    """<direct(x), y> == <x, transpose(y)>, from the contracts of the kernels, by induction over the samples"""
    res = Result(_U)
    t0 = time.time()
    P = Prover(None, timeout, deadline)
    o, Y, x, y = [z3.Function(a, I, R) for a in ('direct_x', 'transpose_y', 'x', 'y')]
    n, m = z3.Ints('n m')
    w = z3.Real('w')
    v = ONE - w
    # the contracts at one index
    direct = lambda k: z3.Implies(And(0 <= k, k + 1 < n), o(k + 1) == w * o(k) + v * x(k + 1))
    last = z3.Implies(n >= 2, Y(n - 1) == v * y(n - 1))
    back = lambda i: And(z3.Implies(And(i >= 1, i < n - 1), Y(i) == w * Y(i + 1) + v * y(i)),
                         z3.Implies(And(i == 0, i < n - 1), v * Y(i) == w * Y(i + 1) + v * y(i)))
    base = [v != 0, n >= 1, o(ZI) == x(ZI)]

    def ob(name, assums, goal):
        st, md = P.prove(base + assums, goal)
        res.obligs.append(('lemma:' + name, 'post', st, 'contracts/response.py', md))
    left = lambda m: sym.SUM(m, lambda i: o(i) * y(i))
    right = lambda m: sym.SUM(m, lambda i: x(i) * Y(i))
    inv = lambda m: v * left(m) == v * right(m) - w * o(m - 1) * Y(m)     # for 1 <= m < n
    ob('adjoint, a single sample', [n == 1, Y(ZI) == y(ZI)], left(n) == right(n))
    ob('adjoint, base', [n >= 2, m == 1, back(ZI), last], inv(m))
    p1 = o(m) * (Y(m) - w * Y(m + 1) - v * y(m)) == 0
    p2 = Y(m) * (o(m) - w * o(m - 1) - v * x(m)) == 0
    here = [n >= 2, 1 <= m, m + 1 < n]
    ob('adjoint, transpose at one sample', here + [back(m)], p1)
    ob('adjoint, recurrence at one sample', here + [direct(m - 1)], p2)
    ob('adjoint, step', here + [inv(m), p1, p2], inv(m + 1))
    p1 = o(m) * (Y(m) - v * y(m)) == 0
    here = [n >= 2, m == n - 1]
    ob('adjoint, transpose at the last sample', here + [z3.Implies(n >= 2, Y(m) == v * y(m))], p1)
    ob('adjoint, recurrence at the last sample', here + [direct(m - 1)], p2)
    ob('adjoint, last step', [1 <= m, inv(m), p1, p2], v * left(m + 1) == v * right(m + 1))
    ob('adjoint, conclusion', [v * left(n) == v * right(n)], left(n) == right(n))
    ob('adjoint, no time constant', [o(m) == x(m), Y(m) == y(m)], o(m) * y(m) == x(m) * Y(m))
    settle(res, P)
    res.time = time.time() - t0
    return res


def tasks(mods):
    out = []
    m = mods.get('module_operators')
    for un in (m.units if m else ()):
        t = re.match(r'trexp_(direct|transpose)_(inplace|outplace)_r[48]$', un)
        if t:
            out.append(('C09', un, 'module_operators', un, kernel(t.group(1) == 'transpose', t.group(2) == 'inplace')))
    m = mods.get('operators')
    for un in (m.units if m else ()):
        t = re.match(r'trexp_(direct|transpose)_r[48]$', un)
        if t:
            for inplace in (False, True):
                out.append(('C09', '%s, %s place' % (un, 'in' if inplace else 'out of'), 'operators', un, driver(t.group(1) == 'transpose', inplace)))
    out.append(('C09', 'trexp_adjoint', None, 'trexp_direct / trexp_transpose', lemma_adjoint, {'nobounded': 1}))
    return out
