#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in J.JOBS:
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': J.TECH.get(i, 'runtime monitoring: online oracle (reference model) over generated and stress workloads'),
                       'level': 'exploration',
                       'level_note': J.NOTE.get(i, 'Held on every execution observed (counts in the evidence file); trusts GMP, the compiler and the oracle in /verif/harness.')})
    else:
        na.append({'property': i, 'reason': J.NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'The checks instrument the headers from outside (own build modes, guarded objects, an own OpenMP runtime); no hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
