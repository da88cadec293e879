"""Append the fix: commits of /repo that KNOWN_FINDINGS.txt does not list: findings.py PROP=HASH..."""
import subprocess, sys
p = '/verif/KNOWN_FINDINGS.txt'
have = open(p).read()
with open(p, 'a') as f:
    for a in sys.argv[1:]:
        prop, hs = a.split('=')
        for h in hs.split(','):
            s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], capture_output=True, text=True, check=True).stdout.strip()
            assert s.startswith('fix: ') and h not in have, a
            f.write('fixed: property=%s %s %s\n' % (prop, h, s[5:]))
