#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification: VCs generated from the LLVM IR of the real functions, discharged by z3/cvc5'
CLAIMS = json.load(open(os.path.join(V, 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CLAIMS.get(p['id'])
    if c and not c.get('na'):
        checks.append(dict(property=p['id'], quick_cmd='python3-vt /verif/check.py ' + p['id'], thorough_cmd='python3-vt /verif/check.py ' + p['id'] + ' --thorough',
                           technique=c.get('technique', T), level=c.get('level', 'proof'), level_note=c['note']))
    else:
        na.append(dict(property=p['id'], reason=(c or {}).get('na', 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt /verif/setup.py', hooks=dict(guard='none', enable='no hooks: the checks read /repo as it is', source_commits=[]), checks=checks, not_applicable=na,
               notes='One check per property; every check recompiles wrapper TUs against /repo/include on every run, regenerates the verification conditions and discharges them; native harnesses are replay search / labelled bounded stand-ins.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
