#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (the single source)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from spec import PROPS, NA
TECH = 'contract-based deductive verification (weakest-precondition style obligations from LLVM IR of the real functions, z3/cvc5)'
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        d['quantifier'] = {'over': p.get('over', ['inputs']), 'text': p['forall']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        f.write(json.dumps(d) + '\n')
M = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'No hooks in /repo: contracts are attached to the functions extracted mechanically from the current tree on every run. DESIGN.md describes the verifier.'}
for p in PROPS:
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'python3-vt check.py %s --thorough' % p['id'],
                        'technique': p.get('tech', TECH), 'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
