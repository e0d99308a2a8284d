#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and spec_table.CLAIMED."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec_table as T
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T.CLAIMED:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification of the real C++ (AST-level VC generation, z3/cvc5)', 'level': 'proof', 'level_note': T.CLAIMED[i]})
    else:
        na.append({'property': i, 'reason': T.NA.get(i, 'not reached yet: no contract written for the functions it depends on')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Every check rebuilds the AST exporter, re-exports /repo\'s sources, regenerates and discharges the obligations, and replays the property on the real code (bounded, reported separately).'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
