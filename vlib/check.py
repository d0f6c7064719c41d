"""Common frame of the checks: instances, reports, known findings, evidence."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import facts
from .facts import Broken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {'quick': (1,), 'thorough': (1, 2)}


class Check:
    def __init__(self, pid, rule_text):
        self.pid = pid
        self.rule_text = rule_text
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in LEVELS:
            self.tier = 'quick'
        self.t0 = time.time()
        self.viol = []
        self.seen = set()
        self.obl = {}            # rule -> [instances]
        self.bad = {}            # rule -> set of failed instances
        self.fns = set()
        self.cov = {}
        self.assumptions = []
        self.level = None
        self.P = None
        self.notes = []
        self.short = None        # first rule that found too few instances

    # -- instances ------------------------------------------------------
    def instance(self, rule, what):
        l = self.obl.setdefault(rule, [])
        if what not in l:
            l.append(what)

    def floor(self, rule, n):
        """the rule must have found at least n instances, or the analysis is out of date"""
        k = len(self.obl.get(rule, []))
        if k < n and self.short is None:
            self.short = ('rule %s matched %d instances, expected at least %d' % (rule, k, n))

    def used(self, *fs):
        for f in fs:
            if isinstance(f, dict):
                self.fns.add(f['qn'])
            elif isinstance(f, set):
                for x in f:
                    self.fns.add(self.P.fn[x]['qn'])
            else:
                self.fns.add(f)

    def each(self, items, fn):
        """fn(self, item) for every item, spread over processes; findings are merged in the order of the items"""
        global _JOB
        items = list(items)
        n = min(len(items), int(os.environ.get('VERIF_JOBS', '0') or 0) or os.cpu_count() or 1)
        if n <= 1:
            return [fn(self, x) for x in items]
        _JOB = (self, items, fn)
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(_one, range(len(items)), chunksize=1)
        out = []
        for obl, viol, fns, short, cov, val in res:
            for r, xs in obl.items():
                for x in xs:
                    self.instance(r, x)
            for v in viol:
                self.report(v['rule'], v['key'][len(v['rule']) + 1:], v['where'], v['what'], v['path'])
            self.fns |= fns
            if short and self.short is None:
                self.short = short
            out.append(val)
        return out

    # -- reports --------------------------------------------------------
    def report(self, rule, key, where, msg, path=()):
        k = (rule, key)
        if k in self.seen:
            return
        self.seen.add(k)
        self.bad.setdefault(rule, set()).add(key)
        self.viol.append({'rule': rule, 'key': '%s/%s' % (rule, key), 'where': where, 'what': msg, 'path': list(path)})

    def where(self, node_or_fn, fid=None):
        return self.P.where(node_or_fn) if fid is None else self.P.where(node_or_fn, fid)


_JOB = None


def _one(i):
    """one item of Check.each, in a worker process"""
    c, items, fn = _JOB
    c.obl, c.viol, c.seen, c.fns, c.short = {}, [], set(), set(), None
    val = None
    try:
        val = fn(c, items[i])
    except Broken as e:
        c.short = str(e)
    except Exception:
        c.short = 'internal error: ' + traceback.format_exc()
    return c.obl, c.viol, c.fns, c.short, None, val


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: '):
                rest = line[len('KNOWN-FINDING: '):]
                d = {'line': line}
                for tok in rest.split():
                    if tok.startswith('property='):
                        d['property'] = tok[9:]
                    elif tok.startswith('key='):
                        d['key'] = tok[4:]
                out.append(d)
    return out


def run_check(pid, fn, rule_text):
    c = Check(pid, rule_text)
    try:
        for lvl in LEVELS[c.tier]:
            c.level = lvl
            c.P = facts.load(lvl)
            fn(c)
    except Broken as e:
        c.short = str(e)
    except Exception:
        traceback.print_exc()
        c.short = 'internal error'
    kn = [k for k in known() if k.get('property') == pid]
    new, hit = [], []
    for v in c.viol:
        m = [k for k in kn if k.get('key') == v['key'].replace(' ', '_')]
        if m:
            hit.append((m[0], v))
        else:
            new.append(v)
    if c.short and not new:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, c.short))
        return 2
    for k, v in hit:
        print(k['line'])
    nobl = sum(len(x) for x in c.obl.values())
    nbad = len(set((v['rule'], v['key']) for v in c.viol))
    print('property %s: %d rules, %d instances, %d functions analysed' % (pid, len(c.obl), nobl, len(c.fns)))
    for r in sorted(c.obl):
        xs = c.obl[r]
        print('  rule %-28s %3d instances  e.g. %s' % (r, len(xs), '; '.join(str(x) for x in xs[:3])))
    for n in c.notes:
        print('  note: ' + n)
    ev = {
        'property': pid, 'tier': c.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': dict({
            'explanation': rule_text,
            'rules': {r: len(x) for r, x in sorted(c.obl.items())},
            'instances': nobl,
            'instances_failed': nbad,
            'functions_analysed': len(c.fns),
            'translation_units': c.P.units if c.P else 0,
            'program_functions': len(c.P.fn) if c.P else 0,
            'validation_levels': list(LEVELS[c.tier]),
            'samples': [{'rule': r, 'instances': [str(y) for y in x[:8]]} for r, x in sorted(c.obl.items())],
            'functions': sorted(c.fns)[:400],
        }, **c.cov),
        'wall_s': round(time.time() - c.t0, 3),
        'assumptions': c.assumptions,
        'violations': [dict(v, known=any(v is h[1] for h in hit)) for v in c.viol],
    }
    out = os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    epath = os.path.join(out, pid + '.json')
    with open(epath, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if new:
        for v in new:
            print('%s: [%s] %s' % (v['where'], v['key'], v['what']))
            for p in v['path'][:24]:
                print('      ' + str(p))
        print('VIOLATION property=%s replay=%s' % (pid, epath))
        return 1
    print('OK property=%s' % pid)
    return 0
