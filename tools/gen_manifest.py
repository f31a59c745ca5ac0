#!/usr/bin/env python3
"""regenerate MANIFEST.json from groups.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
import groups
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in groups.PROPS:
        g = groups.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification of the compiled C++ (symbolic VC generation over LLVM IR, inferred inductive invariants at cut points, z3/cvc5)',
            level=g.get('level', 'proof'), level_note=g.get('note', groups.NOTE)))
    else: na.append(dict(property=i, reason=groups.NOT_APPLICABLE.get(i, 'no contract for it yet')))
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks, not_applicable=na,
         notes='Every check rebuilds the IR of /repo\'s current sources together with the contracts (contracts/) and the environment contracts (model/), generates the obligations and discharges them; see DESIGN.md.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
