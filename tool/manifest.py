"""Writes MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import registry

NOTE = ('Every instance of the rule in the current source is examined; a pass means no instance violates it under the '
        'analysis. Trusts the clang front end, the abstract models of library calls, and the approximations listed in '
        'DESIGN.md (ideal integer arithmetic unless a rule is about ranges, field-based aliasing, bounded call depth).')
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in registry.CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                            'technique': registry.CHECKS[p][2], 'level': 'other', 'level_note': NOTE,
                            'evidence_file': 'evidence/%s.json' % p})
    else:
        m['not_applicable'].append({'property': p, 'reason': registry.NOT_APPLICABLE.get(p, 'check not built yet')})
m['notes'] = 'quick: validation level 1 (the default build); thorough: validation levels 1 and 2.'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
