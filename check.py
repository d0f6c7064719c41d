#!/usr/bin/env python3
"""check.py <ID>...   decide properties on /repo's current source
   check.py --setup    build the exporter
   check.py --all      every registered check"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vlib import check, facts, registry  # noqa: E402


def main(argv):
    if argv[:1] == ['--setup']:
        facts.build_tool()
        for lvl in (1,):
            facts.load(lvl)
        print('ready')
        return 0
    ids = argv
    if argv[:1] == ['--all']:
        ids = sorted(registry.CHECKS)
    if not ids:
        print(__doc__)
        return 2
    rc = 0
    for i in ids:
        mod, fn, how = registry.CHECKS[i]
        m = importlib.import_module('checks.' + mod)
        r = check.run_check(i, getattr(m, fn), ' '.join((getattr(m, fn).__doc__ or how).split()))
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
