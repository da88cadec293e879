"""C21: exact partitions of headers, tables and observations over processes.

pyoperators' split(n, m, rank) is executed like the code under contract;
combine(n) is assumed to return the sum of n over the processes."""
import glob, z3
from vf import pyexec as px
from vf.pyexec import term, Obj, Slice, Arr, Unsupported
from . import pytables

PATH = 'mpiutils.py'
TABLES = pytables.PATH
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def misc():
    p = sorted(glob.glob('/opt/venv/lib/python3*/site-packages/pyoperators/utils/misc.py'))
    if not p:
        raise Unsupported('pyoperators is not installed where expected')
    m = px.Module.get(p[0])
    if 'split' not in m.funcs:
        raise Unsupported('no split in pyoperators')
    return px.Func(m.funcs['split'], m)


def externals():
    try:
        return {'split': misc()}
    except Unsupported:
        return {}


def comm(size, rank):
    return Obj('comm', {'size': size, 'rank': rank, 'Get_rank': px.Builtin(lambda vm: rank), 'Get_size': px.Builtin(lambda vm: size)})


def processes(vm, nranks=1):
    p = vm.fresh('p')
    vm.assume(p >= 1)
    rs = []
    for _ in range(nranks):
        r = vm.fresh('rank')
        vm.assume(0 <= r, r < p)
        rs.append(r)
    return [p] + rs


# -------------------------------------------------------------------- split
def c_split():
    """the slices of split tile range(n): the lemma used by the other contracts"""
    def setup(vm):
        p, r = processes(vm)
        n = vm.fresh('n')
        vm.assume(n >= 0)
        f = misc()

        def run(vm):
            return [vm.call(f, [n, p, x], {}) for x in (r, r + 1, z3.IntVal(0), p - 1)]
        return px.Builtin(run), [], {}, (n, p, r)

    def post(vm, kind, val, d):
        n, p, r = d
        if kind == 'raise':
            return [('returns slices', False)]
        a, b, first, last = val
        return [('within the range', z3.And(0 <= a.start, a.start <= a.stop, a.stop <= n)), ('consecutive', z3.Implies(r + 1 < p, b.start == a.stop)),
                ('first', term(first.start) == 0), ('last', last.stop == n)]
    return setup, post


# ------------------------------------------------------------------ headers
def header(vm, naxis):
    h = px.Header(vm, 'header')
    h.d['NAXIS',], h.h['NAXIS',], h.h['NAXIS1',] = naxis, True, True
    ax = str(naxis) if isinstance(naxis, int) else px.SStr(naxis)
    key = 'NAXIS' + ax if isinstance(ax, str) else px.SStr('NAXIS', ax)
    crp = 'CRPIX' + ax if isinstance(ax, str) else px.SStr('CRPIX', ax)
    h.h[px.skey(key)] = True
    N = h.get(key)
    vm.assume(N >= 0)
    h.readonly = True
    return h, key, crp, N


def naxis(vm, n):
    if n is not None:
        return n
    n = vm.fresh('naxis')
    vm.assume(n >= 2)
    return n


def only(h, keys):
    return ('the other cards are unchanged', h.written <= {px.skey(k) for k in keys})


def c_scatter(n):
    def setup(vm):
        p, r = processes(vm)
        h, key, crp, N = header(vm, naxis(vm, n))
        f = px.function(vm, 'scatter_fitsheader')

        def run(vm):
            return [vm.call(f, [h], {'comm': comm(p, x)}) for x in (r, r + 1, z3.IntVal(0), p - 1)]
        return px.Builtin(run), [], {}, (p, r, h, key, crp, N)

    def post(vm, kind, val, d):
        p, r, h, key, crp, N = d
        if kind == 'raise' or not all(isinstance(x, px.Header) for x in val):
            return [('returns headers', False)]
        goals = [only(x, (key, crp)) for x in val] + [('a new header', all(x is not h for x in val))]
        hc = term(h.has(crp))
        a, b, first, last = val
        ref = lambda x: px.sym.to_real(term(x.get(crp)))
        rows = lambda x: px.sym.to_real(term(x.get(key)))
        goals += [('same cards', z3.And(*[term(x.has(crp)) == hc for x in val])), ('number of rows', z3.And(0 <= rows(a), rows(a) <= rows(h))),
                  ('the first process has the first row', z3.Implies(hc, ref(first) == ref(h))),
                  ('the next process has the next row', z3.Implies(z3.And(hc, r + 1 < p), ref(b) == ref(a) - rows(a))),
                  ('the last process has the last row', z3.Implies(hc, ref(h) - ref(last) + rows(last) == rows(h))),
                  ('the reference pixel of all rows', z3.Implies(p == 1, z3.And(rows(a) == rows(h), z3.Implies(hc, ref(a) == ref(h)))))]
        if 'split' in vm.externals:
            s = vm.call(vm.externals['split'], [N, p, r], {})
            goals += [('the rows of the process', z3.And(rows(a) == s.stop - s.start, z3.Implies(hc, ref(a) == ref(h) - s.start)))]
        return goals
    return setup, post


def c_gather(n):
    """gather(scatter(header)) is the header"""
    def setup(vm):
        p, r = processes(vm)
        h, key, crp, N = header(vm, naxis(vm, n))
        c = comm(p, r)

        def combine(vm, nlocal, comm=None):
            vm.oblige('the local number of rows is combined', z3.And(comm is c, term(nlocal) == local[0]))
            return N
        vm.externals = dict(vm.externals, combine=px.Builtin(combine))
        local = []

        def run(vm):
            s = vm.call(px.function(vm, 'scatter_fitsheader'), [h], {'comm': c})
            s.readonly = True
            local.append(term(s.get(key)))
            return vm.call(px.function(vm, 'gather_fitsheader'), [s], {'comm': c})
        return px.Builtin(run), [], {}, (h, key, crp)

    def post(vm, kind, val, d):
        h, key, crp = d
        if kind == 'raise' or not isinstance(val, px.Header):
            return [('returns a header', False)]
        written, x = set(), val
        while x is not None:
            written |= x.written
            x = x.parent
        return [('number of rows', term(val.get(key)) == term(h.get(key))), ('same cards', term(val.has(crp)) == term(h.has(crp))),
                ('reference pixel', z3.Implies(term(h.has(crp)), px.sym.to_real(term(val.get(crp))) == px.sym.to_real(term(h.get(crp))))),
                ('the other cards are unchanged', written <= {px.skey(key), px.skey(crp)})]
    return setup, post


# ------------------------------------------------------------------- tables
def c_table_split():
    def setup(vm):
        o, N, m, get = pytables.table(vm, 'array')
        g = vm.fresh('groups')
        vm.assume(g >= 0)
        r = vm.fresh('r')
        vm.assume(0 <= r, r < g)

        def split(vm, n, k, rank=None):
            vm.oblige('all the elements are split', z3.And(term(n) == m, term(k) == g))
            s = vm.call(misc(), [n, g, r], {})
            return px.Seq(g, r, s) if rank is None else vm.unsup('rank')
        vm.externals = dict(vm.externals, split=px.Builtin(split))
        o.attrs['__getitem__'] = px.Builtin(lambda vm, s: Obj('selected', {'by': s}))
        o.readonly = True
        return pytables.method(vm, o, 'split'), [g], {}, (m, g, r)

    def post(vm, kind, val, d):
        m, g, r = d
        if kind == 'raise' or not isinstance(val, px.Seq):
            return [('returns a sequence', False)]
        s = val.value.attrs['by']
        t = vm.call(misc(), [m, g, r], {})
        return [('number of groups', term(val.n) == g), ('elements of a group', z3.And(s.start == t.start, s.stop == t.stop)), ('step', s.step in (None, 1))]
    return setup, post


def c_table_scatter(kind, attr):
    def setup(vm):
        o, N, m, get = pytables.table(vm, kind, ('attr', 'scalar', 'absent'))
        p, r = processes(vm)
        c = comm(p, r)
        fa = z3.Function('attr', I, R)
        o.attrs['scalar'] = vm.fresh('scalar', R)
        o.attrs['attr'] = vm.new(m, lambda k: fa(term(k))) if attr else None
        sel = []

        def getitem(vm, s):
            # the contract of __getitem__ (C19): the elements of the slice, as views; the table itself for all of them
            sel.append(s)
            if vm.decide(vm.fresh('itself', B)):
                vm.assume(s.start == 0, s.stop == m)
                return o
            q = Obj(o.cls, dict(o.attrs))
            q.attrs['_index'] = 'selected'
            if attr:
                q.attrs['attr'] = vm.index_view(o.attrs['attr'], Slice(s.start, s.stop, None))
            return q
        o.attrs['__getitem__'] = px.Builtin(getitem)
        o.readonly = True
        before = dict(o.attrs)
        return pytables.method(vm, o, 'scatter'), [c], {}, (o, m, p, r, c, fa, sel, before)

    def post(vm, kind_, val, d):
        o, m, p, r, c, fa, sel, before = d
        if kind_ == 'raise' or not isinstance(val, Obj):
            return [('returns a table', False)]
        goals = [('the table is unchanged', all(o.attrs[k] is before[k] for k in before))]
        if not sel:
            return goals + [('one process', z3.And(p == 1, val is o))]
        s = sel[0]
        t = vm.call(misc(), [m, p, r], {})
        goals += [('the elements of the process', z3.And(len(sel) == 1, s.start == t.start, s.stop == t.stop)), ('a new table', val is not o),
                  ('the communicator', val.attrs['comm'] is c), ('the index', val.attrs['_index'] is before['_index'] or val.attrs['_index'] == 'selected'),
                  ('scalar attributes', val.attrs['scalar'] is before['scalar'])]
        if attr:
            k = vm.fresh('k')
            a = val.attrs['attr']
            goals += [('attributes', z3.And(term(a.n) == s.stop - s.start, z3.Implies(z3.And(0 <= k, k < a.n), a(k) == fa(s.start + k)))),
                      ('attributes are not views', a.store is not o.attrs['attr'].store)]
        return goals
    return setup, post


# ------------------------------------------------------------- observations
def mentions(t, c):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo += x.children()
    return False


def outer_inv(vm, env):
    b = env.get('blocksize')
    if b is None:
        raise Unsupported('the block size is not named blocksize')
    return [('positive block size', term(b) >= 1)]


def inner_inv(vm, env):
    return []


def c_distribute(case):
    def setup(vm):
        p, r = processes(vm)
        if case == 'one':
            vm.assume(p == 1)
        else:
            vm.assume(p > 1)
        N, M, nt = vm.fresh('ndetectors'), vm.fresh('nobservations'), vm.fresh('nthreads')
        vm.assume(N >= 0, M >= 0, nt >= 1)
        fd, fo = z3.Function('removed', I, B), z3.Function('observation', I, R)
        det = vm.new(N, lambda k: fd(term(k)), 'b')
        obs = vm.new(M, lambda k: fo(term(k)), 'f')
        det.readonly = obs.readonly = True
        det.store.fresh = obs.store.fresh = False
        vm.externals = dict(vm.externals, omp_num_threads=px.Builtin(lambda vm: nt))
        c = comm(p, r if case != 'given' else vm.fresh('other'))
        args = [det, obs] + ([r] if case == 'given' else [])
        return px.function(vm, 'distribute_observation'), args, {'comm': c}, (p, r, N, M, nt, fd, fo, det, obs)

    def post(vm, kind, val, d):
        p, r, N, M, nt, fd, fo, det, obs = d
        if kind == 'raise' or not isinstance(val, tuple) or len(val) != 2:
            return [('returns detectors and observations', False)]
        d_, o_ = val
        i, k, j = vm.fresh('i'), vm.fresh('k'), vm.fresh('j')
        ini = z3.And(0 <= i, i < N)
        goals = [('all detectors are listed', term(d_.n) == N), ('the detectors are not modified', z3.And(d_.store is not det.store, z3.Implies(ini, det(i) == fd(i))))]
        if case == 'one':
            return goals + [('all detectors', z3.Implies(ini, d_(i) == fd(i))), ('all observations', z3.And(term(o_.n) == M, z3.Implies(z3.And(0 <= k, k < M), o_(k) == fo(k))))]
        env = vm.frames['distribute_observation']
        xb, yb, nyb, nxb = [term(env[x]) for x in ('xblocksize', 'yblocksize', 'ny_block', 'nx_block')]
        w = vm.wheres[0][2]
        nd = term(w.n)            # number of valid detectors
        cnt = w.rank(i)           # rank of a detector among them
        x = [term(e) for e in vm.loopreads if isinstance(e, (int, z3.ExprRef))]
        goals += [('the blocks do not depend on the process', not any(mentions(e, r) for e in x)),
                  ('the blocks fit in the processes', z3.And(xb >= 1, yb >= 1, nxb >= 1, nyb >= 1, nxb * nyb <= p)),
                  ('the blocks cover the work', z3.And(xb * nxb >= M, yb * nyb * nt >= nd))]
        # the process ix * ny_block + iy has the observations [ix xb, (ix + 1) xb) and the valid detectors [iy yb nt, (iy + 1) yb nt)
        ix, iy = term(env['ix']), term(env['iy'])
        vm.fact(w.about_rank(i))
        goals += [('the block of the process', z3.And(0 <= ix, 0 <= iy, iy < nyb, r == ix * nyb + iy))]
        rank = ix < nxb
        for f in vm.fancies:
            vm.fact(f[2](cnt))
            vm.fact(f[2](cnt - (iy + 1) * yb * nt))
        mine = z3.And(iy * yb * nt <= cnt, cnt < (iy + 1) * yb * nt)
        goals += [('the detectors of a process', z3.Implies(z3.And(ini, rank, z3.Not(fd(i))), d_(i) == z3.Not(mine))),
                  ('removed detectors', z3.Implies(z3.And(ini, fd(i)), d_(i)))]
        lo = ix * xb
        n = term(o_.n)
        goals += [('number of observations of a process', z3.Implies(rank, n == z3.If(lo >= M, 0, z3.If(lo + xb <= M, xb, M - lo)))),
                  ('the observations of a process', z3.Implies(z3.And(rank, 0 <= k, k < n), o_(k) == fo(lo + k))),
                  ('processes without work', z3.Implies(z3.Not(rank), n == 0))]
        return goals
    return setup, post


def c_partition():
    """lemma: with the above, every pair (valid detector, observation) belongs to one process"""
    def setup(vm):
        d, o, xb, yb, nyb, nxb, nt, p, M, nd = [vm.fresh(x) for x in ('d', 'o', 'xb', 'yb', 'nyb', 'nxb', 'nt', 'p', 'M', 'nd')]
        s = vm.fresh('s')        # yb * nt
        vm.assume(xb >= 1, s >= 1, nyb >= 1, nxb >= 1, nxb * nyb <= p, xb * nxb >= M, s * nyb >= nd, 0 <= d, d < nd, 0 <= o, o < M)
        return px.Builtin(lambda vm: (d, o, xb, s, nyb, nxb, p)), [], {}, None

    def post(vm, kind, val, _):
        d, o, xb, s, nyb, nxb, p = val
        ix, iy, jx, jy = [vm.fresh(x) for x in ('ix', 'iy', 'jx', 'jy')]
        for q, a, b in ((ix, o, xb), (iy, d, s)):      # the quotients exist
            vm.fact(q * b <= a, a < (q + 1) * b)
        has = lambda a, b: z3.And(a * xb <= o, o < (a + 1) * xb, b * s <= d, d < (b + 1) * s)
        return [('observation block', z3.And(0 <= ix, ix < nxb)), ('detector block', z3.And(0 <= iy, iy < nyb)), ('some process has the pair', has(ix, iy)),
                ('no other block has it', z3.Implies(has(jx, jy), z3.And(jx == ix, jy == iy)))]
    return setup, post


def c_unique_rank():
    """lemma: different blocks belong to different processes, all of them existing"""
    def setup(vm):
        a, b, c, e, n, m, p = [vm.fresh(x) for x in 'abcenmp']
        vm.assume(n >= 1, m >= 1, m * n <= p, 0 <= a, a < m, 0 <= c, c < m, 0 <= b, b < n, 0 <= e, e < n)
        return px.Builtin(lambda vm: (a, b, c, e, n, m, p)), [], {}, None

    def post(vm, kind, val, _):
        a, b, c, e, n, m, p = val
        return [('the process exists', z3.And(0 <= a * n + b, a * n + b < p)), ('one block each', z3.Implies(a * n + b == c * n + e, z3.And(a == c, b == e)))]
    return setup, post


def tasks(mods):
    out = []

    def add(what, name, sp, path=PATH, **kw):
        setup, post = sp

        def fn(mods, unit, kinds=('post',), timeout=5000, deadline=None, sizes=None):
            return px.run_py(path, setup, post, timeout=timeout, deadline=deadline, externals=externals(), **kw)
        out.append(('C21', what, None, path + ':' + name, fn, {'nobounded': True}))
    add('lemma: the slices tile the range', 'split (pyoperators)', c_split())
    for n in (1, 2, 3, None):
        add('NAXIS = %s' % (n or 'any'), 'scatter_fitsheader', c_scatter(n))
        add('NAXIS = %s' % (n or 'any'), 'gather_fitsheader(scatter_fitsheader)', c_gather(n))
    add('groups', pytables.CLS + '.split', c_table_split(), TABLES)
    for kind in pytables.INDEXES:
        for attr in (False, True):
            add('index: %s%s' % (kind, ', attribute' if attr else ''), pytables.CLS + '.scatter', c_table_scatter(kind, attr), TABLES)
    for case in ('one', 'several', 'given'):
        add('processes: ' + case, 'distribute_observation', c_distribute(case), loops={'while': outer_inv, 'for': inner_inv})
    add('lemma: every pair is in one block', 'distribute_observation', c_partition())
    add('lemma: every block has its process', 'distribute_observation', c_unique_rank())
    return out
