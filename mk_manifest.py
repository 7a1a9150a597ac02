#!/usr/bin/env python3
"""Write MANIFEST.json from the properties that have a contract module."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
NOTE = {}
LEVEL = {}
BOUNDED = (
    'Bounded: the obligations are generated from the current source for '
    'symbolic values, but at the stated concrete sizes only (listed in the '
    'evidence); nothing here is counted as an unbounded proof. Real '
    'arithmetic and the trusted base listed in the evidence and DESIGN.md.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    f = os.path.join(HERE, 'contracts', pid.lower() + '.py')
    if pid in NA or not os.path.exists(f):
        na.append({'property': pid, 'reason': NA.get(
            pid, 'no contract discharged yet')})
        continue
    src = open(f).read()
    m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    if m:
        LEVEL[pid] = m.group(1)
        if m.group(1) == 'other':
            n = re.search(r"^LEVEL_NOTE = \((.*?)\)$", src, re.M | re.S)
            NOTE[pid] = eval("(" + n.group(1) + ")") if n else BOUNDED
    checks.append({
        'property': pid,
        'quick_cmd': f'python3-vt check.py {pid}',
        'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
        'technique': 'contract-based deductive verification: VC generation '
                     'from the current Python source, loop invariants from '
                     'the contract, ring normaliser / z3 / cvc5',
        'level': LEVEL.get(pid, 'proof'),
        'level_note': NOTE.get(pid, (
            'Every obligation generated from the current source of the '
            'functions under contract is discharged; real arithmetic, '
            'representative array shapes, and the trusted base listed in '
            'the evidence and DESIGN.md. A proof that is no longer found is '
            'reported; concrete executions of the real code supply the '
            'failing input where there is one.')),
        'evidence_file': f'evidence/{pid}.json'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup_check.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'Contracts in contracts/, verifier in pydv/, concrete '
                    'oracles in rac/. No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
