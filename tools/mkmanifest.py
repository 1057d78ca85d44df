#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props/*.py and properties.jsonl."""
import json, os, re, sys, importlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from tools.na import NA
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = R + '/props/%s.py' % i
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('props.' + i)
        units = getattr(m, 'SUMMARY', None) or m.__doc__.strip().split(' - ', 1)[-1].split('\n')[0]
        note = getattr(m, 'LEVEL_NOTE', None) or ('Every obligation generated from the LLVM IR of the current source under contract (%s) is discharged by the verifier for all inputs; assumes: %s. A native monitor on the real code looks for a failing input and is not counted as proof.' % (units.strip().rstrip('.'), '; '.join(m.ASSUMPTIONS + list(getattr(m, 'TRUSTED', [])))))
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the LLVM IR of the real functions (symbolic execution with contracts, loop invariants and ghost state; obligations discharged by z3/cvc5), with replay on the compiled code'),
                       'level': getattr(m, 'LEVEL', 'proof'), 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not yet under contract')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks: /repo is verified as it is.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
