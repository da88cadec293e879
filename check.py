"""Decide one property:  check.py C01 [--tier quick|thorough]   (run by ./check)"""
import argparse, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = '/repo'
BUILD = '/opt/pysimulators-build'
REPLAYS = os.path.join(HERE, 'replays')


def digest():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', '__pycache__', 'tests', 'benchmark'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def build():
    """compile /repo's current sources whatever the time stamps say"""
    stamp = os.path.join(BUILD, '.verif-stamp')
    d = digest()
    if os.path.exists(stamp) and open(stamp).read() == d:
        r = subprocess.run(['ninja', '-C', BUILD], capture_output=True, text=True)
    else:
        if os.path.exists(stamp):
            os.remove(stamp)
        subprocess.run(['ninja', '-C', BUILD, '-t', 'clean'], capture_output=True)
        r = subprocess.run(['ninja', '-C', BUILD], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-1000:])
        raise SystemExit(2)
    with open(stamp, 'w') as f:
        f.write(d)


def rac_start(prop, tier, seed, budget, nparts, tag, threads):
    procs = []
    tmp = os.path.join('/tmp', 'verif-rac-%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    for k in range(nparts):
        st, out = os.path.join(tmp, '%s-%d.state' % (tag, k)), os.path.join(tmp, '%s-%d.json' % (tag, k))
        args = dict(prop=prop, tier=tier, seed=seed, budget=budget, part=k, nparts=nparts, statefile=st, outfile=out)
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), PYTHONPATH=HERE, OMP_WAIT_POLICY='passive', MALLOC_PERTURB_='165')
        log = open(out + '.log', 'w')
        procs.append((subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'vf', 'rac.py'), json.dumps(args)],
                                       stdout=log, stderr=log, env=env, cwd=tmp), st, out, time.time()))
    return tmp, procs


def rac_finish(tmp, procs, budget):
    """merged results of the run-time checks"""
    res = {'evaluations': {}, 'violations': [], 'errors': [], 'samples': {}, 'done': {}}
    for p, st, out, t0 in procs:
        try:
            p.wait(max(1, t0 + 3 * budget + 240 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            for k, v in r['evaluations'].items():
                res['evaluations'][k] = res['evaluations'].get(k, 0) + v
            res['violations'] += r['violations']
            res['errors'] += r['errors']
            res['samples'].update(r['samples'])
            for k, v in r['distinct'].items():
                res['distinct'] = res.get('distinct', 0) + v
            for k in r['done']:
                res['done'][k] = res['done'].get(k, 0) + 1
            continue
        cur = {}
        try:
            b = open(st, 'rb').read()
            cur = json.loads(b[8:8 + int(b[:8])])
        except Exception:
            pass
        log = open(out + '.log').read()[-2000:]
        if p.returncode in (-11, -6, -7, -4, -8) and cur:
            res['violations'].append({'case': cur['case'], 'params': cur['params'], 'key': 'crash',
                                      'msg': 'the process dies with signal %d\n%s' % (-p.returncode, log)})
        elif cur and p.returncode == -9 and time.time() - cur['t'] > 150:
            res['violations'].append({'case': cur['case'], 'params': cur['params'], 'key': 'hang', 'msg': 'no answer within 150 s'})
        else:
            res['errors'].append(['process', 'exit %s' % p.returncode, log])
    return res


def findings():
    """known findings: lines 'finding: property=C05 case=NAME key=KEY what'"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                w = l[8:].split(None, 3)
                d = dict(x.split('=', 1) for x in w[:3])
                out[d['property'], d['case'], d['key']] = w[3].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--norac', action='store_true')
    ap.add_argument('--noproof', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    if a.prop == 'replay':
        return
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    build()
    import props
    P = props.PROPS[a.prop]
    thorough = a.tier == 'thorough'
    budget = a.budget or (P.get('thorough_s', 300) if thorough else P.get('quick_s', 20))
    from vf import rac, fparse, proofs
    rac.load_all()
    cases = [c for c in rac.CASES.values() if a.prop in c.props]
    procs = []
    if cases and not a.norac:
        tmp, procs = rac_start(a.prop, a.tier, seed, budget, P.get('parts', 4), a.prop, P.get('threads', 2))
    # ---- deductive part
    mods, errs = fparse.load()
    tasks = [] if a.noproof else props.tasks(a.prop, mods, thorough)
    kinds = P.get('kinds', ('post',))
    races = P.get('races', False)
    pr = proofs.run(mods, tasks, kinds=kinds, races=races, jobs=8 if not procs else 6,
                    deadline=300 if thorough else 60, total=3000 if thorough else 420)
    violations = []       # (replay payload, has_input)
    nobl = ndis = 0
    und, bnd, samples, solver_s, queries, units = [], [], [], 0, 0, set()
    for t, r in pr:
        solver_s += r['solver_s']
        queries += r['queries']
        units.update(r['units'])
        nobl += len(r['obligs'])
        ndis += sum(o[2] == 'proved' for o in r['obligs'])
        if len(samples) < 6 and r['obligs']:
            samples.append({'task': t[1], 'obligation': r['obligs'][0][0], 'at': r['obligs'][0][3], 'status': r['obligs'][0][2]})
        if races:
            for where, pairs, benign, conf in r['races']:
                nobl += pairs
                ndis += pairs - len(conf)
                for c in conf:
                    violations.append(({'kind': 'race', 'task': t[1], 'procedure': t[3], 'at': where, 'shared': c[0],
                                        'lines': [c[1], c[2]], 'verifier': c[3:]}, False))
            if r['status'] in ('proved', 'failed'):
                continue
        v, why = proofs.verdict(r)
        if v == 'violated':
            violations.append(({'kind': 'obligation', 'task': t[1], 'procedure': t[3], 'verifier': why,
                                'obligations': [o for o in r['obligs'] if o[2] != 'proved'][:10], 'bounded': r.get('bounded')}, False))
        elif v == 'bounded':
            bnd.append({'task': t[1], 'why': why, 'main': r['status'] + ' ' + r['reason']})
        elif v == 'undecided':
            und.append({'task': t[1], 'why': why[-600:]})
    # ---- other checks of the property (compiled with bounds checks, ...)
    extra = {}
    if 'extra' in P:
        for viol in P['extra'](a.tier, seed, extra):
            violations.append(viol)
    # ---- run-time part
    racres = {'evaluations': {}, 'violations': [], 'errors': [], 'samples': {}, 'done': {}}
    if procs:
        racres = rac_finish(tmp, procs, budget)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    known = findings()
    seen_known = {}
    failing = []
    for v in racres['violations']:
        k = (a.prop, v['case'], v['key'])
        if k in known:
            seen_known[k] = known[k]
        else:
            failing.append(v)
    for k, w in sorted(known.items()):
        if k[0] == a.prop and (k in seen_known or not procs):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, w))
    rc = 0
    os.makedirs(REPLAYS, exist_ok=True)
    lines = []
    for k, v in enumerate(failing[:5]):
        path = os.path.join(REPLAYS, '%s-%d.json' % (a.prop, k))
        ob = [x[0] for x in violations][:3]
        json.dump(dict(v, property=a.prop, failed_obligations=ob, how='python vf/replay.py ' + path), open(path, 'w'), indent=1)
        print('--', v['case'], v['params'], v['msg'][:600])
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
    if not failing:
        for k, (v, has) in enumerate(violations[:5]):
            path = os.path.join(REPLAYS, '%s-o%d.json' % (a.prop, k))
            json.dump(dict(v, property=a.prop), open(path, 'w'), indent=1)
            print('--', json.dumps(v)[:1500])
            lines.append('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if has else ' no-failing-input-found'))
    for l in lines:
        print(l)
    if lines:
        rc = 1
    for e in racres['errors'][:5]:
        print('error of the check:', *e)
    errors = [r for t, r in pr if r['status'] == 'error']
    for r in errors[:3]:
        print('error of the prover:', r['reason'][-1500:])
    nev = sum(racres['evaluations'].values())
    level = P.get('level', 'proof')
    cov = {}
    ntasks = len(tasks)
    cov.update({
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': './check %s --tier %s' % (a.prop, a.tier),
        'trusted_base': props.TRUSTED + P.get('trusted', []),
        'functions_under_contract': sorted(set(t[3] for t in tasks)), 'contracts': ntasks,
        'procedures_executed_symbolically': sorted(units),
        'backend': 'z3 %s (python API), verification conditions by vf/ from the preprocessed sources' % z3v(),
        'solver_s': round(solver_s, 2), 'solver_queries': queries,
        'bounded_instead_of_proved': bnd, 'undecided': und,
        'evaluations': nev, 'distinct_nontrivial': racres.get('distinct', 0),
        'rule': 'bounded run-time check of the same postconditions on the built package: parameters are enumerated (types, storage, '
                'sizes around every literal of the sources) then drawn from VERIF_SEED. distinct_nontrivial counts the parameter sets '
                'that differ in more than the seed of their data, in each worker',
        'cases': {c.name: {'what': c.what, 'evaluations': racres['evaluations'].get(c.name, 0), 'generator_exhausted': racres['done'].get(c.name, 0) > 0} for c in cases},
        'samples': samples + [{'case': k, 'params': v} for k, v in list(racres['samples'].items())[:8]],
        'explanation': P.get('explanation', ''),
    })
    cov.update(extra)
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(lines)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d/%d obligations discharged, %d bounded, %d undecided, %d run-time cases, %.1f s' % (
        a.prop, ntasks, ndis, nobl, len(bnd), len(und), nev, time.time() - t0))
    for x in bnd + und:
        print('  not proved:', x['task'], x['why'].strip().splitlines()[-1][:200] if x['why'].strip() else '')
    if rc == 0 and (racres['errors'] or errors) and not (ndis or nev):
        rc = 2      # no answer at all
    sys.exit(rc)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
