"""Run-time assertion checking: the contracts' postconditions evaluated on real
executions of the code.  It replays what the verifier rejects and stands in
(bounded, labelled so) for code out of the verifier's reach.

A case is registered with @case(property, name); it has
    gen(ctx)  -> iterator of JSON parameters (systematic ones first, then random)
    run(p)    -> None when the property holds, else a message or (key, message)
"""
import importlib, json, os, pkgutil, re, signal, sys, time, traceback, itertools

CASES = {}          # name -> Case


class Case:
    def __init__(self, prop, name, gen, run, what=''):
        self.props = [prop] if isinstance(prop, str) else list(prop)
        self.name, self.gen, self.run, self.what = name, gen, run, what


def case(prop, name, gen, what=''):
    def deco(run):
        CASES[name] = Case(prop, name, gen, run, what or (run.__doc__ or '').strip())
        return run
    return deco


class GenCtx:
    def __init__(self, seed, tier, lits, new=()):
        import numpy as np
        self.new = list(new)
        self.rng = np.random.default_rng(seed)
        self.tier, self.lits, self.seed = tier, lits, seed

    def sizes(self, hi=12):
        """interesting small sizes, including the ones the source mentions"""
        s = list(range(0, hi + 1)) + [v for v in self.lits if hi < v <= 300]
        return sorted(set(s))

    def size(self, hi=12, lo=0, cap=400):
        """a random size: mostly small, sometimes around a number of the sources
        (more often so around those the sources did not mention when the check was written)"""
        r = self.rng.random()
        near = [v for v in self.new if lo <= v <= cap]
        if near and r < 0.4:
            v = int(near[self.rng.integers(len(near))])
            return min(cap, max(lo, [v, v + 1, v - 1, 2 * v + 1, v + int(self.rng.integers(20))][self.rng.integers(5)]))
        if r < 0.9:
            return int(self.rng.integers(lo, hi + 1))
        if r < 0.97:
            l = [v for v in self.lits if lo <= v <= cap]
            return int(l[self.rng.integers(len(l))])
        return int(self.rng.integers(lo, min(cap, 8 * hi) + 1))

    def newseed(self):
        return int(self.rng.integers(1 << 31))


def layout(a, k):
    """the same array in another memory layout: 0 C, 1 Fortran, 2 strided, 3 reversed, 4 read-only, 5 both"""
    import numpy as np
    a = np.asarray(a)
    k = k % 6
    if k == 1 or a.ndim == 0:
        return np.array(a, order='F')
    if k == 2:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
        b[..., 1::2] = a
        return b[..., 1::2]
    if k == 3:
        return np.array(a[..., ::-1])[..., ::-1]
    if k == 5:
        b = np.zeros((3 * a.shape[0],) + a.shape[1:], a.dtype, order='F')
        b[1::3] = a
        return b[1::3]
    b = np.array(a, order='C')
    if k == 4:
        b.flags.writeable = False
    return b


def outlayout(shape, dtype, fill, k):
    """a writable array filled with a value, in one of the memory layouts"""
    import numpy as np
    return layout(np.full(shape, fill, dtype), (0, 1, 2, 3, 5)[k % 5])


def product(*lists):
    return itertools.product(*lists)


def load_all():
    import rac as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module('rac.' + m.name)


def file_literals(root='/repo/src'):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(('.py', '.f90', '.j2')):
                x = open(os.path.join(d, f), errors='replace').read()
                x = re.sub(r'#.*' if f.endswith('.py') else r'!.*', '', x)
                c = out.setdefault(os.path.relpath(os.path.join(d, f), root), {})
                for v in re.findall(r'(?<![\w.])(\d{1,6})(?:_\w+)?(?![\w.])', x):
                    c[int(v)] = c.get(int(v), 0) + 1
    return out


def literals():
    """integers mentioned in the source and their neighbours: sizes worth trying;
    and those that the sources mention more often than when the check was written"""
    fl = file_literals()
    base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')))
    out, new = set(), set()
    for f, c in fl.items():
        for v, n in c.items():
            out.update((v - 1, v, v + 1))
            if n > base.get(f, {}).get(str(v), 0):
                new.add(v)
    return sorted(v for v in out if 0 <= v <= 5000), sorted(v for v in new if 0 < v <= 5000)


RANDOM = object()     # yielded by a generator between its systematic and its random parts


def mixed(gen, ctx, limit=100000):
    """the systematic parameters in a shuffled order, alternating with random ones;
    first those around the numbers that are new in the sources"""
    head = []
    for p in gen:
        if p is RANDOM or len(head) >= limit:
            break
        head.append(p)
    else:
        gen = iter(())
    ctx.rng.shuffle(head)
    # first those that combine two kinds (types, classes, layouts) not combined before
    met, first, later = set(), [], []
    for p in head:
        k = [(a, str(v)) for a, v in sorted(p.items()) if isinstance(v, (str, bool, type(None), list))]
        n = [(x, y) for i, x in enumerate(k) for y in k[i:]]
        (first if any(x not in met for x in n) else later).append(p)
        met.update(n)
    head = first + later
    if ctx.new:
        near = set(x for v in ctx.new for x in (v - 1, v, v + 1) if x > 3)
        head.sort(key=lambda p: not any(isinstance(v, int) and v in near for k, v in p.items() if k != 'seed'))
    head = iter(head)
    done = 0
    while done < 2:
        done = 0
        for g in head, gen:
            try:
                yield next(g)
            except StopIteration:
                done += 1


class Timeout(Exception):
    pass


def worker(prop, tier, seed, budget, part, nparts, statefile, outfile, only=None):
    load_all()
    lits, new = literals()
    cases = [c for c in CASES.values() if prop in c.props and (only is None or c.name in only)]
    res = {'evaluations': {}, 'violations': [], 'errors': [], 'samples': {}, 'done': [], 'distinct': {}}
    fd = os.open(statefile, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    t0 = time.time()
    its = []
    for c in cases:
        ctx = GenCtx(seed, tier, lits, new)
        its.append([c, enumerate(mixed(c.gen(ctx), ctx)), 0])
    seen = {c.name: set() for c in cases}

    def put(d):
        b = json.dumps(d).encode()
        os.pwrite(fd, b'%08d' % len(b) + b, 0)

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    bad = {}
    # the budget is processor time, so that a busy machine explores as much; at most three times as much real time
    c0 = time.thread_time()
    while its and time.thread_time() - c0 < budget and time.time() - t0 < 3 * budget:
        for it in list(its):
            c, g, _ = it
            k0 = time.time()
            # a slice of time per case, so that every case advances
            while time.time() - k0 < max(0.05, min(1.0, budget / max(1, len(cases)) / 8)):
                try:
                    k, p = next(g)
                except StopIteration:
                    its.remove(it)
                    res['done'].append(c.name)
                    break
                if k % nparts != part:
                    continue
                js = json.dumps(p, sort_keys=True)
                if js in seen[c.name]:
                    continue
                seen[c.name].add(js)
                put({'case': c.name, 'params': p, 't': time.time()})
                try:
                    signal.alarm(120)
                    r = c.run(p)
                    signal.alarm(0)
                except Timeout:
                    r = ('hang', 'no answer within 120 s')
                except MemoryError:
                    signal.alarm(0)
                    res['errors'].append((c.name, 'MemoryError'))
                    continue
                except Exception as e:
                    signal.alarm(0)
                    tb = traceback.extract_tb(e.__traceback__)
                    inrac = not any('/repo/src/' in f.filename or '/pysimulators' in f.filename or 'site-packages' in f.filename for f in tb)
                    if inrac:
                        res['errors'].append((c.name, json.dumps(p), traceback.format_exc()))
                        if len(res['errors']) > 20:
                            its.clear()
                            break
                        continue
                    r = ('exception:' + type(e).__name__, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
                res['distinct'].setdefault(c.name, {})[json.dumps({a: b for a, b in p.items() if a != 'seed'}, sort_keys=True)] = 1
                res['evaluations'][c.name] = res['evaluations'].get(c.name, 0) + 1
                if c.name not in res['samples']:
                    res['samples'][c.name] = p
                if r is not None:
                    key, msg = r if isinstance(r, tuple) else ('', r)
                    n = bad[c.name, key] = bad.get((c.name, key), 0) + 1
                    if n <= 3:
                        res['violations'].append({'case': c.name, 'params': p, 'key': key, 'msg': str(msg)[:4000]})
                    if n > 20:
                        it in its and its.remove(it)
                        break
            if not its:
                break
    put({})
    res['wall'] = time.time() - t0
    res['distinct'] = {k: len(v) for k, v in res['distinct'].items()}
    with open(outfile, 'w') as f:
        json.dump(res, f)


def replay(path):
    d = json.load(open(path))
    load_all()
    return CASES[d['case']].run(d['params'])


if __name__ == '__main__':
    a = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import vf.rac as me
    me.worker(**a)
