#!/usr/bin/env python3
"""Tries the checks on edited copies of /repo (under /tmp, removed afterwards).
   run.py [-k substring] [-p PROP]      edits from tests/edits.py
A line says which checks reported. 'bug' edits must be reported by their property; 'same' edits by none."""
import glob, importlib.util, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import registry  # noqa

spec = importlib.util.spec_from_file_location('edits', os.path.join(HERE, 'edits.py'))
edits = importlib.util.module_from_spec(spec)
spec.loader.exec_module(edits)

key = prop = None
a = sys.argv[1:]
allp = '-a' in a
if '-k' in a:
    key = a[a.index('-k') + 1]
if '-p' in a:
    prop = a[a.index('-p') + 1]
jobs = []
for kind, props, name, subs in edits.EDITS:
    if key and key not in name:
        continue
    ps = props.replace(',', ' ').split()
    if prop and prop not in ps and not (kind == 'same' and not ps):
        continue
    jobs.append((kind, ps, name, subs))
BASE = '/tmp/vmut%d' % os.getpid()
N = 7
q = queue.Queue()
os.makedirs(BASE + '/verif', exist_ok=True)
for x in ('vlib', 'checks', 'tool'):
    shutil.copytree(VERIF + '/' + x, BASE + '/verif/' + x, ignore=shutil.ignore_patterns('__pycache__'))
for x in ('check.py', 'known-findings.txt', 'properties.jsonl', 'MANIFEST.json'):
    shutil.copy(VERIF + '/' + x, BASE + '/verif/' + x)
os.symlink(VERIF + '/.build', BASE + '/verif/.build')
for i in range(N):
    d = '%s/w%d' % (BASE, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build', '.git', 'test'))
    os.makedirs(d + '/test', exist_ok=True)
    q.put(d)


def job(j):
    kind, ps, name, subs = j
    d = q.get()
    saved = {}
    try:
        for f, old, new in subs:
            if f == '*':    # a name, wherever it occurs
                for p in glob.glob(d + '/src/*') + glob.glob(d + '/include/*'):
                    s = open(p).read()
                    t = re.sub(r'\b%s\b' % old, new, s)
                    if t != s:
                        saved.setdefault(p, s)
                        open(p, 'w').write(t)
                continue
            p = os.path.join(d, f)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                return name, kind, 'EDIT DOES NOT APPLY: %s' % f, ''
            open(p, 'w').write(s.replace(old, new, 1))
        run = ps if (kind == 'bug' and not allp) else sorted(registry.CHECKS)
        if kind == 'same' and (ps and not allp):
            run = ps
        if prop and kind == 'same':
            run = [prop]
        run = [x for x in run if x in registry.CHECKS]
        if not run:
            return name, kind, 'no check', ''
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '/evidence', VERIF_JOBS='2')
        t0 = time.time()
        r = subprocess.run([sys.executable, BASE + '/verif/check.py'] + run, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        hit = sorted(set(l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')))
        br = [l for l in r.stdout.split('\n') if 'ANALYSIS-BROKEN' in l or 'Error' in l[:12]]
        first = [l for l in r.stdout.split('\n') if ': [' in l][:2]
        res = ' '.join(hit) if hit else 'quiet'
        if br:
            res += ' BROKEN ' + br[0][:150]
            open('/tmp/broken-%s.txt' % name.replace(' ', '-'), 'w').write(r.stdout)
        if time.time() - t0 > 90:
            res += ' (%ds)' % (time.time() - t0)
        good = ('VIOLATION' in r.stdout and not br) if kind == 'bug' else (not hit and not br)
        return name, kind, ('ok   ' if good else 'FAIL ') + res, ' | '.join(x[:230] for x in first)
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)
        q.put(d)


with ThreadPoolExecutor(N) as ex:
    for name, kind, res, first in ex.map(job, jobs):
        print('%-5s %-40s %s' % (kind, name, res), ('\n        ' + first) if first and ('FAIL' in res or '-v' in a) else '')
        sys.stdout.flush()
shutil.rmtree(BASE, ignore_errors=True)
