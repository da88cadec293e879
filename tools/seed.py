"""Make and try planted bugs:  seed.py make FILE.py | try ID [--check PROP..] [--notests]

FILE.py calls add(id, property, edits, needs, breaks, demo)."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout, 'unclean /repo'


def add(id, prop, edits, needs, breaks, demo):
    clean()
    try:
        for f, old, new in edits:
            p = os.path.join('/repo/src', f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        d = sh('git', '-C', '/repo', 'diff').stdout
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
    o = os.path.join(SEED, id)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'w').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    open(os.path.join(o, 'demo.py'), 'w').write(demo.lstrip('\n'))
    s = os.path.join(o, 'demo.sh')
    open(s, 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport OMP_NUM_THREADS="${OMP_NUM_THREADS:-2}"\nexec timeout 250 python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(s, 0o755)
    print('made', id)


def demo(id):
    return sh('bash', os.path.join(SEED, id, 'demo.sh'), cwd='/repo')


def attempt(id, checks=None, tests=True):
    clean()
    m = json.load(open(os.path.join(SEED, id, 'meta.json')))
    r = sh('bash', '/opt/vp/build.sh')
    assert r.returncode == 0, r.stdout
    r0 = demo(id)
    out = {'clean demo': r0.returncode}
    if r0.returncode:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
    try:
        r = sh('git', '-C', '/repo', 'apply', os.path.join(SEED, id, 'patch.diff'))
        assert r.returncode == 0, r.stderr
        r = sh('bash', '/opt/vp/build.sh')
        out['build'] = r.returncode
        if r.returncode:
            print(r.stdout[-2000:])
            return out
        r1 = demo(id)
        out['demo'] = r1.returncode
        out['demo says'] = (r1.stdout + r1.stderr).strip()[-200:]
        if tests:
            sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
            got = json.load(open('/tmp/seedtest.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            def passed(d):
                for k in ('passed', 'pass', 'stable'):
                    if k in d:
                        return set(d[k])
                return {k for k, v in d.get('tests', d).items() if v in ('passed', 'pass', True)}
            out['tests lost'] = sorted(passed(base) - passed(got))[:5]
        for c in checks or [m['property']]:
            t0 = time.time()
            e = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            r = sh(os.path.join(HERE, 'check'), c, cwd=HERE, env=e)
            l = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', '--', 'error'))]
            out['check ' + c] = [r.returncode, round(time.time() - t0), [x[:260] for x in l[:3]] + [x for x in l if x.startswith('VIO')][:1]]
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'))
    else:
        a = sys.argv[2:]
        tests = '--notests' not in a
        a = [x for x in a if x != '--notests']
        checks = None
        if '--check' in a:
            k = a.index('--check')
            checks, a = a[k + 1:], a[:k]
        for id in a:
            print('==', id, json.dumps(attempt(id, checks, tests), indent=1), flush=True)
