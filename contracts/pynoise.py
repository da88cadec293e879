"""C23: folding and unfolding of power spectral densities.

The spectra are the last axis of the arrays; the other axes are carried along
by numpy, element by element."""
import z3
from vf import pyexec as px

PATH = 'noises.py'
I, R = z3.IntSort(), z3.RealSort()


def spectrum(vm, name, n):
    f = z3.Function(name, I, R)
    a = vm.new(n, lambda k: f(px.term(k)), 'f')
    a.readonly = True
    return a, f


def readonly(vm, a, f):
    k = vm.fresh('k')
    return ('the argument is unchanged', z3.Implies(z3.And(0 <= k, k < a.n), a(k) == f(k)))


def partial_sum(vm, name, f, at):
    """the partial sums of f, their definition at the given points"""
    S = vm.fresh_fn('sum.' + name, I, R)
    vm.fact(S(0) == 0)
    for k in at:
        vm.fact(z3.Implies(k >= 0, S(k + 1) == S(k) + f(k)))
    return S


def fold():
    def setup(vm):
        h = vm.fresh('h')
        vm.assume(h >= 1)
        a, p = spectrum(vm, 'p', 2 * h)
        q = z3.Int('q!s')
        vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 < q, q < 2 * h), p(q) == p(2 * h - q)), patterns=[p(q)]))
        return px.function(vm, '_fold_psd'), [a], {}, (a, p, h)

    def post(vm, kind, out, d):
        a, p, h = d
        if kind == 'raise' or not isinstance(out, px.Arr):
            return [('returns an array', False)]
        k, m = vm.fresh('k'), vm.fresh('m')
        g = out.getter()
        N = 2 * h
        one = z3.IntVal(1)
        Sp = partial_sum(vm, 'p', p, [z3.IntVal(0), m + 1, N - m - 1, h])
        Sf = partial_sum(vm, 'f', g, [z3.IntVal(0), m + 1, h])
        claim = lambda m: Sf(m + 1) - Sf(one) == Sp(m + 1) - Sp(one) + Sp(N) - Sp(N - m)
        sym = z3.Implies(z3.And(0 < m + 1, m + 1 < N), p(m + 1) == p(N - m - 1))
        return [('length', out.n == h + 1), ('zero frequency', g(z3.IntVal(0)) == p(0)), ('Nyquist frequency', g(h) == p(h)),
                ('others doubled', z3.Implies(z3.And(0 < k, k < h), g(k) == 2 * p(k))),
                ('power, step of the induction', z3.Implies(z3.And(0 <= m, m + 1 <= h - 1, claim(m), sym), claim(m + 1))),
                ('power, first step', claim(z3.IntVal(0))),
                ('total power', z3.Implies(claim(h - 1), Sf(h + 1) == Sp(N))), readonly(vm, a, p)]
    return setup, post


def unfold():
    def setup(vm):
        n = vm.fresh('n')
        vm.assume(n >= 2)
        a, p = spectrum(vm, 'q', n)
        return px.function(vm, '_unfold_psd'), [a], {}, (a, p, n)

    def post(vm, kind, out, d):
        a, p, n = d
        if kind == 'raise' or not isinstance(out, px.Arr):
            return [('returns an array', False)]
        k = vm.fresh('k')
        g = out.getter()
        ink = z3.And(0 < k, k < n - 1)
        return [('length', out.n == 2 * n - 2), ('zero frequency', g(z3.IntVal(0)) == p(0)), ('Nyquist frequency', g(n - 1) == p(n - 1)),
                ('others halved', z3.Implies(ink, g(k) == p(k) / 2)),
                ('symmetric', z3.Implies(ink, g(2 * n - 2 - k) == p(k) / 2)), readonly(vm, a, p)]
    return setup, post


def roundtrip(first, second):
    def setup(vm):
        n = vm.fresh('n')
        vm.assume(n >= 2)
        a, p = spectrum(vm, 'p', n if first == '_unfold_psd' else 2 * n - 2)
        q = z3.Int('q!s')
        if first == '_fold_psd':
            vm.fact(z3.ForAll([q], z3.Implies(z3.And(0 < q, q < 2 * n - 2), p(q) == p(2 * n - 2 - q)), patterns=[p(q)]))
        f, g = px.function(vm, first), px.function(vm, second)
        return px.Builtin(lambda vm: vm.call(g, [vm.call(f, [a], {})], {})), [], {}, (a, p, n)

    def post(vm, kind, out, d):
        a, p, n = d
        if kind == 'raise' or not isinstance(out, px.Arr):
            return [('returns an array', False)]
        k = vm.fresh('k')
        return [('length', px.term(out.n) == px.term(a.n)), ('identity', z3.Implies(z3.And(0 <= k, k < px.term(a.n)), out(k) == p(k)))]
    return setup, post


def tasks(mods):
    out = []
    for name, (setup, post), what in [('_fold_psd', fold(), 'fold'), ('_unfold_psd', unfold(), 'unfold'),
                                      ('_unfold_psd(_fold_psd)', roundtrip('_fold_psd', '_unfold_psd'), 'unfold o fold'),
                                      ('_fold_psd(_unfold_psd)', roundtrip('_unfold_psd', '_fold_psd'), 'fold o unfold')]:
        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None, setup=setup, post=post):
            return px.run_py(PATH, setup, post, timeout=timeout, deadline=deadline)
        out.append(('C23', what, None, PATH + ':' + name, fn, {'nobounded': True}))
    return out
