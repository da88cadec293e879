"""Discharging the contracts: every task in its own process, with a deadline."""
import importlib, json, multiprocessing as mp, os, pkgutil, signal, time, traceback

CTX = mp.get_context('fork')


def all_tasks(mods):
    import contracts as pkg
    out = []
    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        mod = importlib.import_module('contracts.' + m)
        if hasattr(mod, 'tasks'):
            out += mod.tasks(mods)
    return out


def describe(r, races):
    from . import sym
    out = {'status': r.status, 'reason': r.reason, 'time': round(r.time, 3),
           'obligs': [[o[0], o[1], o[2], o[3], str(o[4])[:1500] if o[4] is not None else ''] for o in r.obligs],
           'queries': sym.STATS.queries, 'solver_s': round(sym.STATS.time, 3), 'races': [], 'units': []}
    if r.ctx is not None:
        out['units'] = sorted('%s::%s' % u for u in r.ctx.ex.units_used)
    elif getattr(r, 'used', None):
        out['units'] = sorted(map(str, r.used))
    if races and r.ctx is not None:
        from . import race
        for rec in r.parloops:
            rr = race.check(rec, r.ctx)
            out['races'].append([rr.where, rr.pairs, rr.benign, [list(map(str, c)) for c in rr.conflicts]])
    return out


BOUNDED = ([2, 2, 2, 2, 2, 2], [3, 2, 1, 2, 3, 2], [1, 3, 2, 3, 1, 2])


def attributes(task):
    return task[5] if len(task) > 5 else {}


def child(conn, mods, task, kinds, races, opts, deadline):
    try:
        prop, name, mname, uname, fn = task[:5]
        attrs = attributes(task)
        deadline = max(deadline, attrs.get('deadline', 0))
        res = {}
        unit = None
        if mname is not None:
            mod = mods.get(mname)
            unit = mod.units.get(uname) if mod else None
            if unit is None:
                conn.send({'status': 'unsupported', 'reason': 'no procedure %s in module %s' % (uname, mname), 'obligs': [], 'time': 0,
                           'queries': 0, 'solver_s': 0, 'races': [], 'units': []})
                return
        t0 = time.time()
        r = fn(mods, unit, kinds=kinds, deadline=t0 + deadline)
        if r.status == 'failed' and time.time() - t0 < deadline:
            # once more, with more solver time: a busy machine is not a violation
            r2 = fn(mods, unit, kinds=kinds, timeout=20000, deadline=t0 + 2 * deadline)
            if r2.status == 'proved':
                r = r2
        res = describe(r, races)
        if r.status != 'proved' and not attrs.get('nobounded'):
            bd = []
            for sizes in attrs.get('bounded', BOUNDED):
                try:
                    rb = fn(mods, unit, kinds=kinds, deadline=time.time() + deadline, sizes=sizes)
                    bd.append([sizes, rb.status, rb.reason, [[o[0], o[3], str(o[4])[:1500] if o[4] is not None else ''] for o in rb.obligs if o[2] != 'proved'][:5]])
                except Exception as e:
                    bd.append([sizes, 'unsupported', repr(e), []])
            res['bounded'] = bd
        conn.send(res)
    except Exception:
        conn.send({'status': 'error', 'reason': traceback.format_exc(), 'obligs': [], 'time': 0, 'queries': 0, 'solver_s': 0, 'races': [], 'units': []})
    finally:
        conn.close()
        os._exit(0)


def run(mods, tasks, kinds=('post',), races=False, jobs=8, deadline=60, total=600, opts=None, log=None):
    """[(task, result dict)]"""
    todo = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs and time.time() - t0 < total:
            k, t = todo.pop(0)
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=child, args=(b, mods, t, kinds, races, opts, deadline))
            p.start()
            b.close()
            running[k] = (p, a, time.time())
        if todo and not running:
            for k, t in todo:
                results[k] = {'status': 'timeout', 'reason': 'not started before the end of the check', 'obligs': [], 'time': 0, 'queries': 0, 'solver_s': 0, 'races': [], 'units': []}
            break
        mp.connection.wait([r[1] for r in running.values()], 0.5)
        for k in list(running):
            p, a, ts = running[k]
            if a.poll():
                try:
                    results[k] = a.recv()
                except EOFError:
                    results[k] = {'status': 'error', 'reason': 'the prover died', 'obligs': [], 'time': 0, 'queries': 0, 'solver_s': 0, 'races': [], 'units': []}
            elif time.time() - ts > 4.5 * max(deadline, attributes(tasks[k]).get('deadline', 0)) or time.time() - t0 > total + 60:
                os.kill(p.pid, signal.SIGKILL)
                results[k] = {'status': 'timeout', 'reason': 'killed after %d s' % (time.time() - ts), 'obligs': [], 'time': time.time() - ts, 'queries': 0, 'solver_s': 0, 'races': [], 'units': []}
            else:
                continue
            p.join()
            a.close()
            del running[k]
    return list(zip(tasks, results))


def verdict(res):
    """('proved' | 'violated' | 'bounded' | 'undecided', text)"""
    if res['status'] == 'proved':
        return 'proved', ''
    bd = res.get('bounded', [])
    for sizes, st, why, obl in bd:
        if st == 'failed' and any(o[2] for o in obl):
            return 'violated', 'obligation %s at %s fails for sizes %s\n%s' % (obl[0][0], obl[0][1], sizes, obl[0][2])
    if bd and all(b[1] == 'proved' for b in bd):
        return 'bounded', 'proved for sizes %s only' % (', '.join(str(b[0]) for b in bd))
    if res['status'] == 'failed':
        o = [x for x in res['obligs'] if x[2] == 'failed']
        if res['reason'] or not o:
            return 'violated', res['reason']
        return 'violated', 'obligation %s at %s is not discharged\n%s' % (o[0][0], o[0][3], o[0][4])
    return 'undecided', '%s: %s' % (res['status'], res['reason'])
