#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'lib': 'TLC checks bounded instances of the specification exhaustively; recorded runs of the real library are '
           'validated line by line against the same specification, and behaviours it generates are replayed.',
    'cli': 'TLC checks bounded instances of the training specification; outputs of the real command-line program are '
           'validated against it.',
}
checks = []
for p in sorted(registry.CHECKS):
    n = int(p[1:])
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+ specification, model-checked by TLC and bound by trace validation and replay',
        'level': 'model_checking',
        'level_note': NOTE['cli' if 14 <= n <= 23 or n >= 25 else 'lib'],
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': []}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(checks), 'checks')
