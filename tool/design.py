#!/usr/bin/env python3
"""Rewrites the table of rules in DESIGN.md from the properties and the checks."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vlib import registry

MARK = '<!-- rules -->'
out = []
for line in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    out.append('**%s — %s.**' % (i, d['title']))
    if i in registry.CHECKS:
        mod, fn, how = registry.CHECKS[i]
        doc = getattr(importlib.import_module('checks.' + mod), fn).__doc__
        out += ['*%s* (`checks/%s.py`)' % (how[0].upper() + how[1:], mod), ' '.join((doc or '').split())]
    else:
        out.append('Not applicable: %s.' % registry.NOT_APPLICABLE[i])
    out.append('')
p = os.path.join(here, 'DESIGN.md')
a = open(p).read().split(MARK)
open(p, 'w').write(a[0] + MARK + '\n' + '\n'.join(out) + MARK + a[2])
