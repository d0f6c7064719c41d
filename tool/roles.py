#!/usr/bin/env python3
"""Records the functions of the implementation and their signatures, so that renamed ones are recognised."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import facts

known = {q: [[n, s] for n, s, _ in xs] for q, xs in sorted(facts.signatures(facts.load(1)).items())}
with open(facts.ROLES, 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(q), json.dumps(v)) for q, v in known.items()) + '\n}\n')
