#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, '/verif')
from irv import registry
T = 'contract-based deductive verification: pre/postconditions and loop invariants over LLVM IR extracted from /repo on every run, verification conditions discharged by z3/cvc5'
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i, technique=r.get('technique', T), level=r.get('level', 'proof'), level_note=r.get('note', 'every obligation generated from the code as it is in /repo is discharged for all inputs and all iterations; see DESIGN.md for what is assumed')))
    else: na.append(dict(property=i, reason=registry.NA.get(i, 'not claimed yet: the contracts for this property are not written')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', len(na), 'not')
