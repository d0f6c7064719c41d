"""Fact base: builds the exporter, runs it over /repo's current sources and loads the dump.

The dump is cached under /verif/.build keyed by the content of every input file, so a run
always analyses the tree as it is now; a changed byte anywhere gives a new key.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class Broken(Exception):
    """The analysis could not answer (anchor vanished, tree does not parse, ...)."""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'export.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'export-' + h)
    if os.path.exists(exe):
        return exe
    cxx = '/usr/lib/llvm-18/bin/clang++'
    if not os.path.exists(cxx):
        cxx = 'clang++'
    tmp = exe + '.tmp%d' % os.getpid()
    r = _run([cxx, '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
              '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'])
    if r.returncode:
        raise Broken('cannot build the exporter:\n' + r.stdout[-2000:])
    os.replace(tmp, exe)
    return exe


def source_files():
    out = []
    for pat in ('src/*.cpp', 'src/*.h', 'include/*.h', 'extern/CRCpp/inc/*.h', 'CMakeLists.txt', 'src/CMakeLists.txt',
                'cmake/*', 'src/*.in', 'include/CMakeLists.txt', 'src/**/*.cpp', 'src/**/*.h', 'include/**/*.h'):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(set(f for f in out if os.path.isfile(f)))


def tree_key(level):
    h = hashlib.sha256()
    h.update(str(level).encode())
    h.update(REPO.encode())
    h.update(open(os.path.join(VERIF, 'tool', 'export.cpp'), 'rb').read())
    for f in source_files():
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()[:20]


EXPORT_H = '''#ifndef E57_DLL_H
#define E57_DLL_H
#define E57_DLL
#define E57_NO_EXPORT
#define E57_DEPRECATED
#define E57_DEPRECATED_EXPORT
#define E57_DEPRECATED_NO_EXPORT
#endif
'''


def compile_db(level, work):
    """Ask the project's own build description for its sources and flags."""
    bd = os.path.join(work, 'cm')
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    env = dict(os.environ)
    for k in ('CPPFLAGS', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    r = _run(['cmake', '-S', REPO, '-B', bd, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_COMPILER=gcc',
              '-DCMAKE_CXX_COMPILER=g++', '-DE57_BUILD_TEST=OFF', '-DE57_GIT_SUBMODULE_UPDATE=OFF',
              '-DE57_VALIDATION_LEVEL=%d' % level, '-DCCACHE_PROGRAM=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=env)
    cdb = os.path.join(bd, 'compile_commands.json')
    ents = []
    if r.returncode == 0 and os.path.exists(cdb):
        import shlex
        for e in json.load(open(cdb)):
            toks = shlex.split(e['command'])
            flags = []
            i = 1
            while i < len(toks):
                t = toks[i]
                if t in ('-isystem', '-include'):
                    flags += [t, toks[i + 1]]
                    i += 2
                    continue
                if t.startswith('-D') or t.startswith('-I') or t.startswith('-std'):
                    flags.append(t)
                i += 1
            f = os.path.normpath(os.path.join(e['directory'], e['file']))
            if f.startswith(REPO + '/src/') or f.startswith(REPO + '/include/'):
                ents.append((f, flags))
    if not ents:
        eh = os.path.join(bd, 'E57Export.h')
        open(eh, 'w').write(EXPORT_H)
        flags = ['-DCRCPP_BRANCHLESS', '-DCRCPP_USE_CPP11', '-DE57_ENABLE_DIAGNOSTIC_OUTPUT',
                 '-DE57_VALIDATION_LEVEL=%d' % level, '-DREVISION_ID="x"', '-I' + bd, '-I' + REPO + '/extern/CRCpp/inc',
                 '-I' + REPO + '/include', '-I' + REPO + '/src']
        ents = [(f, flags) for f in sorted(glob.glob(REPO + '/src/*.cpp'))]
    return ents


class Program:
    def __init__(self):
        self.fn = {}       # id -> function
        self.byqn = {}     # qualified name -> [function]
        self.rec = {}
        self.enum = {}
        self.gvar = {}
        self.over = {}     # method id -> ids of direct overriders
        self.units = 0
        self.level = None
        self._src = {}

    # ---- queries
    def fns(self, qn):
        return self.byqn.get(qn, [])

    def one(self, qn, pred=None):
        c = [f for f in self.fns(qn) if pred is None or pred(f)]
        if len(c) != 1:
            raise Broken('expected exactly one function %s, found %d' % (qn, len(c)))
        return c[0]

    def some(self, qn):
        c = self.fns(qn)
        if not c:
            raise Broken('no function named %s' % qn)
        return c

    def project_fns(self, implicit=False):
        return [f for f in self.fn.values() if implicit or not f['imp']]

    def enum_name(self, enum, v):
        e = self.enum.get(enum)
        if e:
            for x in e['es']:
                if int(x['v']) == v:
                    return x['n']
        return None

    def enum_value(self, enum, name):
        e = self.enum.get(enum)
        if e and name:
            for x in e['es']:
                if x['n'] == name:
                    return int(x['v'])
        return None

    def overriders(self, fid):
        seen, todo = [], [fid]
        while todo:
            x = todo.pop()
            for y in self.over.get(x, ()):
                if y not in seen:
                    seen.append(y)
                    todo.append(y)
        return seen

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            r = self.rec.get(c)
            if not r:
                continue
            for b in r['bs']:
                b = b[2:] if b.startswith('R:') else b
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def rel(self, f):
        return f['file'].replace(REPO + '/', '')

    def doc(self, f):
        """documentation comment directly above a definition"""
        p = f['file']
        src = self._src.get(p)
        if src is None:
            src = self._src[p] = open(p, errors='replace').read().split('\n')
        i = f['l'] - 2
        while i >= 0 and (src[i].strip().startswith('template') or not src[i].strip()):
            i -= 1
        if i < 0 or not (src[i].strip().endswith('*/') or src[i].strip().startswith('//')):
            return ''
        out = []
        while i >= 0:
            s = src[i].strip()
            out.append(s)
            if s.startswith('/*') or (s.startswith('//') and not src[i - 1].strip().startswith('//')):
                break
            i -= 1
        return '\n'.join(reversed(out))

    def doc_throws(self, f):
        return re.findall(r'@throw\s+::(\w+)', self.doc(f))

    def where(self, f, line=None):
        return '%s:%d' % (self.rel(f), line or f['l'])


def children(n):
    """direct sub-nodes of a syntax node"""
    for k, v in n.items():
        if isinstance(v, dict):
            if 'k' in v or k in ('v', 'cvar'):
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if 'k' in x:
            yield x
        st.extend(reversed(list(children(x))))


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def prune(pattern, keep):
    def age(d):
        try:
            return os.path.getmtime(d)
        except OSError:             # removed by another run meanwhile
            return 0
    old = sorted(glob.glob(os.path.join(BUILD, pattern)), key=age)
    for d in old[:-keep]:
        try:
            if os.path.getmtime(d) < time.time() - 3600:        # another run may be about to read it
                os.remove(d)
        except OSError:
            pass


def export_units(exe, key, level):
    """dump every translation unit; a unit is dumped again when it, a header or its flags changed"""
    other = digest(*[f.encode() + b'\0' + open(f, 'rb').read() for f in source_files() if not f.endswith('.cpp')])
    cpps = [f for f in source_files() if f.endswith('.cpp')]
    dbf = os.path.join(BUILD, 'flags-%s.json' % digest(REPO, level, other, *cpps))
    if not os.path.exists(dbf):
        prune('flags-*.json', 40)
        work = os.path.join(BUILD, 'work-%s-%d' % (key, os.getpid()))
        os.makedirs(work, exist_ok=True)
        ents = compile_db(level, work)
        gen = {}
        # generated headers must outlive the configuration directory
        keep = os.path.join(BUILD, 'gen-%s' % digest(REPO, level, other, *cpps))
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        for h in glob.glob(os.path.join(work, 'cm', '**', '*.h'), recursive=True):
            rel = os.path.relpath(h, os.path.join(work, 'cm'))
            os.makedirs(os.path.dirname(os.path.join(keep, rel)), exist_ok=True)
            shutil.copy(h, os.path.join(keep, rel))
        cm = os.path.join(work, 'cm')
        ents = [(f, [x.replace(cm, keep) for x in fl]) for f, fl in ents]
        shutil.rmtree(work, ignore_errors=True)
        tmp = dbf + '.tmp%d' % os.getpid()
        json.dump(ents, open(tmp, 'w'))
        os.replace(tmp, dbf)
    ents = json.load(open(dbf))

    def job(ent):
        f, flags = ent
        if not any(x.startswith('-std') for x in flags):
            flags = ['-std=gnu++17'] + flags
        flags = flags + ['-w', '-UE57_VERBOSE']
        out = os.path.join(BUILD, 'tu-%s.jsonl' % digest(exe, REPO, other, f, open(f, 'rb').read(), *flags))
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = out + '.tmp%d' % os.getpid()
        r = _run([exe, REPO, tmp, f, '--'] + flags)
        txt = open(tmp).read() if os.path.exists(tmp) else ''
        if r.returncode or not txt.endswith('{"k":"end"}\n'):
            if os.path.exists(tmp):
                os.remove(tmp)
            raise Broken('cannot analyse %s:\n%s' % (f, r.stdout[-1500:]))
        os.replace(tmp, out)
        return out

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(job, ents))
    prune('tu-*.jsonl', 1500)
    return sorted(outs, key=lambda o: outs.index(o))


ROLES = os.path.join(VERIF, 'vlib', 'roles.json')


def signatures(P):
    """class or file -> [name, signature, id] of the functions that are not part of the public interface, in order"""
    out = {}
    for q, r in P.rec.items():
        if not q.startswith('e57::') or not r.get('file', '').startswith(os.path.join(REPO, 'src')):
            continue
        xs = [[m['n'], ' '.join([m['ret']] + list(m['ps'])) + ' const' * bool(m['cm']) + ' static' * bool(m['static']), m['id']]
              for m in r.get('ms', ()) if not m['imp'] and m['n'].isidentifier() and m['n'] != q.split('::')[-1].split('<')[0]]
        if xs:
            out[q] = xs
    for f in sorted(P.fn.values(), key=lambda f: (f['file'], f['l'])):
        if f['kind'] == 'func' and f['file'].startswith(os.path.join(REPO, 'src')) and f['n'].isidentifier():
            out.setdefault('file:' + os.path.relpath(f['file'], REPO), []).append([f['n'], ' '.join([f['ret']] + [p['t'] for p in f['ps']]), f['id']])
    return out


def renamed(P):
    """a function of the implementation that was only renamed goes by the name the rules know: in a class where functions of
    one signature are gone and as many new ones have it, they are the same in order"""
    try:
        known = json.load(open(ROLES))
    except OSError:
        return
    now, alias = signatures(P), {}
    for q, old in known.items():
        new = now.get(q, [])
        have, names = {(n, s) for n, s, _ in new}, {n for n, _ in old}
        gone, came = {}, {}
        for n, s in old:
            if (n, s) not in have:
                gone.setdefault(s, []).append(n)
        for n, s, i in new:
            if n not in names:
                came.setdefault(s, []).append((n, i))
        for s, ns in gone.items():
            if len(came.get(s, ())) == len(ns):
                for n, (m, i) in zip(ns, came[s]):
                    alias[i] = (m, n)
    if not alias:
        return
    P.renamed = {m: n for m, n in alias.values()}

    def turn(o, i):
        m, n = alias[i]
        if o.get('n') == m:
            o['n'] = n
        if o.get('qn', '').endswith('::' + m):
            o['qn'] = o['qn'][:-len(m)] + n
    for r in P.rec.values():
        for m in r.get('ms', ()):
            if m['id'] in alias:
                turn(m, m['id'])
    for f in P.fn.values():
        if f['id'] in alias:
            turn(f, f['id'])
        for root in [f['body']] + [i.get('e') for i in f.get('inits', [])]:
            if root is not None:
                for x in walk(root):
                    if x.get('id') in alias:
                        turn(x, x['id'])
    P.byqn = {}
    for f in P.fn.values():
        P.byqn.setdefault(f['qn'], []).append(f)


def load(level=2):
    exe = build_tool()
    key = tree_key(level)
    tus = export_units(exe, key, level)
    P = Program()
    P.level = level
    nid = 0
    for p in tus:
        P.units += 1
        for line in open(p):
            o = json.loads(line)
            k = o['k']
            if k == 'fn':
                if o['id'] in P.fn:
                    continue
                P.fn[o['id']] = o
                P.byqn.setdefault(o['qn'], []).append(o)
                for b in o.get('ov', ()):
                    P.over.setdefault(b, []).append(o['id'])
            elif k == 'rec':
                if o['qn'] not in P.rec:
                    P.rec[o['qn']] = o
            elif k == 'enum':
                P.enum[o['qn']] = o
            elif k == 'gvar':
                P.gvar[o['qn']] = o
    renamed(P)
    for fid in sorted(P.fn):
        f = P.fn[fid]
        c = 0
        for root in [f['body']] + [i.get('e') for i in f.get('inits', [])]:
            if root is None:
                continue
            for n in walk(root):
                n['nid'] = (f['n'], f['l'], c)
                n['fid'] = fid
                c += 1
    if len(P.fn) < 300:
        raise Broken('only %d functions found' % len(P.fn))
    return P
