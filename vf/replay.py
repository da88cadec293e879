"""python vf/replay.py FILE: run the failing case of a replay file again"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import rac
d = json.load(open(sys.argv[1]))
if 'case' not in d:
    print(json.dumps(d, indent=1))
    sys.exit(1)
rac.load_all()
r = rac.CASES[d['case']].run(d['params'])
print('holds' if r is None else r)
sys.exit(r is not None)
