"""Writes MANIFEST.json from the properties that have a contract module."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    low = i.lower()
    have = os.path.exists(os.path.join(HERE, 'contracts', low + '.py'))
    if not have:
        na.append({'property': i, 'reason': NOTE.get(i, {}).get('na', 'no contract is registered for it yet')})
        continue
    n = NOTE.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py %s quick' % i,
        'thorough_cmd': 'python3-vt check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': n.get('technique', 'contract-based deductive verification (pyvc: VC generation from the real AST, z3/cvc5), '
                                        'failed obligations confirmed by executing the same contract on the real code'),
        'level': n.get('level', 'proof'),
        'level_note': n.get('note', 'Every obligation of the contracts in contracts/%s.py is generated from the current source of /repo '
                            'and discharged without bound; see DESIGN.md for what is assumed.' % low),
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python -c "import six"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: the checks read and run the unmodified source of /repo. Only python3-vt (z3) and the repository\'s own '
             'interpreter are needed. See DESIGN.md.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not claimed')
