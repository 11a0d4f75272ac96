"""Writes /verif/MANIFEST.json from the contract files present."""
import ast
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
p = os.path.join(H, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for i in ids:
    f = os.path.join(H, 'contracts', i + '.py')
    if not os.path.exists(f) or i in NA:
        na.append({'property': i, 'reason': NA.get(
            i, 'contracts for this property are not written yet')})
        continue
    doc = ast.get_docstring(ast.parse(open(f).read())) or ''
    note = ' '.join(doc.split())
    checks.append({
        'property': i,
        'quick_cmd': './check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.py %s' % i,
        'technique': 'deductive verification: contracts on the real source, '
        'VCs generated by symbolic execution of the current AST and '
        'discharged by normal form / z3 / cvc5',
        'level': 'proof',
        'level_note': note + ' Every obligation is regenerated from /repo\'s '
        'current text and discharged on each run; floats are treated as '
        'reals and numpy/scipy calls by assumed contracts (listed in the '
        'evidence). The same contracts are also evaluated at run time on '
        'sampled inputs (bounded, not counted as proved) to find failing '
        'inputs.'})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. check.py reads /repo on every run; see '
     'DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
