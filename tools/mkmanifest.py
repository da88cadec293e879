"""Write /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': P.get('technique', 'contracts on the Fortran kernels discharged by z3 (own VC generator over the preprocessed sources); run-time assertion checks of the same postconditions through the Python API'),
            'level': P.get('level', 'proof'),
            'level_note': P.get('note', 'Kernels: postconditions proved for all inputs and sizes over the reals. Python wrappers and fallbacks: bounded run-time checks of the same contracts, not proved.'),
        })
    else:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
           'notes': 'vf/ is the verifier, contracts/ the specifications, rac/ the run-time (bounded) checks; see DESIGN.md'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
