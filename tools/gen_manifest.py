import json, sys; sys.path.insert(0, '/verif')
from tcv import plan
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
ids = [p['id'] for p in props]
claimed = [i for i in ids if i in plan.SOURCES]
NA = {}
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt /verif/check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification of the instantiated C++ code (own VC generator over clang AST, z3)', 'level': 'proof', 'level_note': plan.note(i)})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
