"""Makes and confirms seeded bugs: plant(name, property, needs, what_it_breaks, [(file, old, new)], demo source).
The edit is applied to /repo, built, tested and demonstrated, and undone straight afterwards."""
import json, os, subprocess
SEED = '/verif/seeded/'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this history
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -fsanitize=address,undefined -I include -I src -I _build "$d/demo.cpp" _build/libE57Format-d.a -lxerces-c -o "$t/demo" || exit 2
cd "$t"
ASAN_OPTIONS=detect_leaks=%d timeout 120 ./demo
'''
HEAD = '''#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <unistd.h>
#include "CheckedFile.h"
#include "E57Format.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"
using namespace e57;
static int code( const std::function<void()> &f )
{
   try { f(); }
   catch ( E57Exception &e ) { return e.errorCode(); }
   return 0;
}
#define NEED( c ) do { if ( !( c ) ) { std::cerr << "broken: " #c << std::endl; return 1; } } while ( 0 )
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(name, prop, needs, breaks, subs, demo, leaks=0, head=True):
    d = SEED + name
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write((HEAD if head else '') + demo)
    open(d + '/demo.sh', 'w').write(DEMO % leaks)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r = sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode:
        print(name, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:])
        return
    try:
        for f, old, new in subs:
            s = open('/repo/' + f).read()
            assert old in s, (name, f, 'edit does not apply')
            open('/repo/' + f, 'w').write(s.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(name, 'BUILD', r.stdout[-1500:])
            return
        r = sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        print(name, 'tests:', r.stdout.strip().split('\n')[-1][:100], end=' ')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('demo with bug: %d %s' % (r.returncode, r.stdout.strip()[-200:]), end=' ')
        r = sh('python3 /verif/check.py %s' % prop, env=dict(os.environ, VERIF_OUT='/tmp/plant-ev'))
        print('check: %d %s' % (r.returncode, [l[:150] for l in r.stdout.split('\n') if ': [' in l][:2]))
    finally:
        sh('git -C /repo checkout -- .')


def done():
    sh('bash /opt/vp/build.sh')
    sh('rm -rf /tmp/plant-ev /tmp/plant.json')
