#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from properties.jsonl and the registered specs."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]; q = [j for j in s.jobs if j.tier in ('both', 'quick')]
        note = 'All paths of the real code (compiled to LLVM IR) explored symbolically, every branch, assertion and memory access decided by Z3 for all values within the bounds. Bounds: ' + '; '.join('%s: %s' % (j.name, j.bounds) for j in q)
        if s.assumptions: note += '. Assumptions: ' + '; '.join(s.assumptions)
        checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py %s' % i, 'thorough_cmd': 'python3 checks/run.py %s --thorough' % i, 'technique': 'path-forking symbolic execution of the real code (LLVM IR) with Z3, against a reference model; counterexamples replayed natively', 'level': 'model_checking', 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
