"""P36: images are independent of one another; P37: queries change nothing"""
import re

from vlib.tools import *

RANDOM = re.compile(r'^R:std::(random_device|\w*_engine|\w*_distribution|mt19937|independent_bits)')
SETTERS = {'setlocale', 'std::setlocale', 'std::locale::global', 'chdir', 'fchdir', 'chroot', 'setenv', 'putenv', 'unsetenv',
           'clearenv', 'signal', 'std::signal', 'sigaction', 'umask', 'dup2', 'srand', 'std::srand', 'srandom', 'setrlimit',
           'std::ios_base::sync_with_stdio', 'std::set_terminate', 'std::set_new_handler', 'std::set_unexpected', 'fesetround',
           'std::fesetround', 'feenableexcept', 'fedisableexcept', 'tzset', 'setuid', 'setgid', 'exit', 'std::exit', '_exit',
           'quick_exit', 'std::quick_exit', 'abort', 'std::abort', 'std::terminate', 'raise', 'kill', 'atexit', 'std::atexit'}
STREAMS = re.compile(r'^std::(cout|cerr|clog|cin)$')
SETTINGS = {'imbue', 'precision', 'width', 'fill', 'setf', 'unsetf', 'flags', 'rdbuf', 'exceptions', 'tie'}
REARRANGE = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'rotate', 'shuffle', 'random_shuffle', 'unique', 'remove',
             'remove_if', 'replace', 'replace_if', 'fill', 'fill_n', 'generate', 'iter_swap', 'swap_ranges', 'partition',
             'stable_partition', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'inplace_merge', 'transform', 'iota', 'memset',
             'memcpy', 'memmove'}
READ_ONLY = {'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'at', 'c_str', 'data', 'length', 'front', 'back'}


def statics(P):
    """-> [(name, type, const, where, key)] of everything that outlives the objects of the library"""
    out = []
    for q, g in sorted(P.gvar.items()):
        out.append((q, g['t'], g.get('const'), '%s:%d' % (g['file'].split('/repo/')[-1], g['l']), ('g', q)))
    for f in P.project_fns(True):
        for n in fn_nodes(f):
            if n['k'] == 'decl':
                for v in n['vs']:
                    if v.get('static'):
                        out.append(('%s::%s' % (f['qn'], v['n']), v['t'], v.get('const'), node_where(P, dict(n, fid=f['id'])), ('l', f['id'], v['id'])))
    return out


def parents(root):
    """node id -> (parent, role) below root"""
    up = {}
    todo = [root]
    while todo:
        n = todo.pop()
        for role, x in n.items():
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict):
                    if 'k' in y:
                        up[id(y)] = (n, role)
                        todo.append(y)
                    else:
                        for z in y.values():
                            if isinstance(z, dict) and 'k' in z:
                                up[id(z)] = (n, 'i')
                                todo.append(z)
    return up


def changing(n, up):
    """how the variable read by the reference n may be changed there (None: it is only read)"""
    cur = n
    while True:
        p = up.get(id(cur))
        if p is None:
            return None
        p, role = p
        k = p['k']
        if k == 'cast' and not p.get('lv'):
            return None
        if k in ('asg', 'casg'):
            return 'assigned' if role == 'a' else None
        if k == 'un':
            return {'++': 'changed', '--': 'changed', '&': 'its address is taken'}.get(p.get('op'))
        if k == 'mcall':
            if role == 'o':
                if p.get('n') in ('at', 'front', 'back') and not p.get('cm'):
                    cur = p
                    continue
                if p.get('n') == 'data' and not p.get('cm'):
                    return 'handed out for change'
                return None if p.get('cm') or p.get('n') in READ_ONLY else 'changed by %s' % p.get('n')
            i = p['as'].index(cur) if cur in p['as'] else -1
            return 'handed to %s' % p.get('n') if i in p.get('mr', ()) else None
        if k == 'opcall':
            i = p['as'].index(cur) if cur in p['as'] else -1
            if p.get('op') == '[]' and i == 0 and not p.get('cm'):
                cur = p
                continue
            if p.get('meth') and i == 0:
                return None if p.get('cm') or p.get('op') in ('->', '*') else 'changed by operator%s' % p.get('op')
            return 'changed by operator%s' % p.get('op') if i in p.get('mr', ()) else None
        if k in ('call', 'ctor', 'new'):
            i = p['as'].index(cur) if cur in p.get('as', ()) else -1
            return 'handed to %s' % p.get('qn', '?').split('::')[-1] if i in p.get('mr', ()) else None
        if k == 'delete':
            return 'deleted'
        if k in ('mem', 'idx', 'cast', 'paren', 'cond', 'sub'):
            cur = p
            continue
        return None


def p36(c):
    """Every variable that outlives the library's objects (globals, static members, static locals) is listed; one that some
    function of the project assigns, changes through a member function or hands out for change is state shared by all images
    and is reported, the generator of random identifiers excepted.  Calls that change a setting of the whole process are
    looked for in every function.  The XML platform must be shut down exactly as often as it was started, on every way
    through the functions that use the parser."""
    P = c.P
    st = statics(P)
    byg = {k[1]: (n, t, con, w) for n, t, con, w, k in st if k[0] == 'g'}
    byl = {(k[1], k[2]): (n, t, con, w) for n, t, con, w, k in st if k[0] == 'l'}
    for n, t, con, w, k in st:
        c.instance('shared', '%s (%s)' % (n, w))
    for f in P.project_fns(True):
        if f.get('imp'):
            continue
        roots = [f['body']] + [i.get('e') for i in f.get('inits', [])]
        ups = None
        for n in fn_nodes(f):
            if n['k'] == 'ref':
                v = byg.get(n.get('qn')) if n.get('g') else byl.get((f['id'], n.get('id')))
                if v and not v[2] and not RANDOM.match(v[1]):
                    if ups is None:
                        ups = {}
                        for r in roots:
                            if r is not None:
                                ups.update(parents(r))
                    how = changing(n, ups)
                    if how:
                        c.report('shared', v[0], node_where(P, n), 'state shared by all images, %s (%s), is %s in %s' % (v[0], v[3], how, f['qn']))
            if n['k'] in ('call', 'mcall'):
                q = strip_tmpl(n.get('qn') or '')
                if q in SETTERS or (n['k'] == 'mcall' and n.get('n') in SETTINGS and (n.get('as') or n.get('n') == 'imbue') and
                                    any(y['k'] == 'ref' and STREAMS.match(y.get('qn') or '') for y in walk(n.get('o') or {'k': '?'}))):
                    c.report('process', '%s:%s' % (f['qn'], q), node_where(P, n), '%s changes the whole process by calling %s' % (f['qn'], q))
        c.used(f)
        c.instance('process', f['qn'])
    platform(P, c)
    c.floor('shared', 1)
    c.floor('process', 100)


class Platform(Focus):
    """counts how often the XML platform was started and shut down"""
    KEY = ('gvar', '#xml')

    def __init__(self, P, wanted):
        Focus.__init__(self, P)
        self.ids = wanted

    def inline(self, I, fn, node):
        return fn['id'] in self.ids

    def on_call(self, I, st, n, qn, obj, vs):
        if qn.endswith('XMLPlatformUtils::Initialize') or qn.endswith('XMLPlatformUtils::Terminate'):
            d = 1 if qn.endswith('Initialize') else -1
            now = next((t[1] for t in st.tags if isinstance(t, tuple) and t[0] == 'xml'), 0) + d
            st = st.untag_if(lambda t: isinstance(t, tuple) and t[0] == 'xml').tag(('xml', now))
            return [(st, None)]
        return None


def platform(P, c):
    reach = set()
    for f in P.fn.values():
        for n in fn_nodes(f):
            if n['k'] == 'call' and re.search(r'XMLPlatformUtils::(Initialize|Terminate)$', n.get('qn') or ''):
                reach.add(f['id'])
    if not reach:
        return
    # the classes whose objects start and shut down, and the functions in which such an object lives
    cls = {P.fn[x].get('cls') for x in reach} - {None}
    wanted = set(reach)
    for f in P.fn.values():
        if f.get('cls') in cls and (f['kind'] in ('ctor', 'dtor') or any(n['k'] in ('call', 'mcall') and n.get('id') in reach for n in fn_nodes(f))):
            wanted.add(f['id'])
    holders = [f for f in P.project_fns(True) if f.get('cls') not in cls and not f.get('imp') and
               any(n['k'] in ('ctor', 'mcall', 'call') and n.get('id') in wanted for n in fn_nodes(f))]
    for f in holders:
        c.used(f)
        c.instance('platform', f['qn'])
        I, outs = outcomes(P, Platform(P, wanted), f, maxdepth=12)
        for o in outs:
            k = next((t[1] for t in o.st.tags if isinstance(t, tuple) and t[0] == 'xml'), 0)
            if k:
                c.report('platform', f['qn'], P.where(f), '%s can end (%s) with the XML platform %s' % (
                    f['qn'], 'normally' if o.kind == 'return' else 'with an error',
                    'started and not shut down' if k > 0 else 'shut down more often than started'))
                break


# ---------------------------------------------------------------------------------------------------------------- P37

class Effects:
    """which fields a function may change, and of whose object: its own, one given by reference, or some other"""

    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.why = {}
        self.fns = {f['id']: f for f in P.project_fns(True) if f.get('body')}
        for fid in self.fns:
            self.sum[fid] = set()
        self.body = {fid: self.scan(f) for fid, f in self.fns.items()}
        todo = True
        while todo:
            todo = False
            for fid, (own, calls) in self.body.items():
                new = set(own)
                for n, targets, recv, args in calls:
                    for t in targets:
                        for root, q in self.sum.get(t, ()):
                            r = recv if root == 'this' else (args[root] if isinstance(root, int) and root < len(args) else
                                                             ('other' if root == 'other' else None))
                            if r is not None and r != 'local':
                                new.add((r, q))
                                self.why.setdefault((fid, q), (n, t))
                if not new <= self.sum[fid]:
                    self.sum[fid] |= new
                    todo = True

    def root(self, f, n, locs, depth=0):
        """whose object an expression is part of"""
        while True:
            k = n['k']
            if k == 'this':
                return 'this'
            if k == 'ref':
                if n.get('g'):
                    return 'other'
                i = locs['ps'].get(n.get('id'))
                if i is not None:
                    return i
                v = locs['vs'].get(n.get('id'))
                if v is None:
                    return 'other'
                if v['t'][0] in '&*':
                    if v.get('i') is not None and depth < 4:
                        return self.root(f, v['i'], locs, depth + 1)
                    return 'other'
                return 'local'
            if k == 'mem':
                if n['b']['t'].startswith('*') and n['b']['k'] != 'this':
                    r = self.root(f, n['b'], locs, depth)
                    return r if isinstance(r, int) else ('other' if r != 'local' else 'other')
                n = n['b']
                continue
            if k in ('idx', 'sub'):
                n = n.get('a') or n.get('b') or n.get('o')
                if n is None:
                    return 'other'
                continue
            if k == 'opcall' and n.get('op') in ('[]', '->', '*') and n['as']:
                r = self.root(f, n['as'][0], locs, depth)
                if n['op'] in ('->', '*'):
                    return 'other'
                n = n['as'][0]
                continue
            if k == 'un' and n.get('op') == '*':
                return 'this' if n['a']['k'] == 'this' else self.root(f, n['a'], locs, depth) if n['a']['k'] == 'ref' else 'other'
            if k == 'un' and n.get('op') == '&':
                n = n['a']
                continue
            if k in ('cast', 'paren'):
                n = n['a']
                continue
            if k == 'mcall' and n.get('n') in ('at', 'front', 'back', 'operator[]', 'begin', 'end', 'data', 'get') and n.get('o'):
                n = n['o']
                continue
            if k in ('ctor', 'tmp', 'mat', 'ilist'):
                return 'local'
            return 'other'

    def field(self, n):
        """the outermost field an expression names"""
        while n is not None:
            if n['k'] == 'mem':
                return n.get('qn')
            if n['k'] in ('idx', 'sub'):
                n = n.get('a') or n.get('b') or n.get('o')
            elif n['k'] == 'opcall' and n.get('op') == '[]' and n['as']:
                n = n['as'][0]
            elif n['k'] in ('cast', 'paren'):
                n = n.get('a')
            elif n['k'] == 'mcall' and n.get('n') in ('at', 'front', 'back') and n.get('o'):
                n = n['o']
            else:
                return None
        return None

    def scan(self, f):
        P = self.P
        locs = {'ps': {p['id']: i for i, p in enumerate(f['ps']) if p['t'][0] in '&*'}, 'vs': {}}
        for p in f['ps']:
            if p['t'][0] not in '&*':
                locs['vs'][p['id']] = {'t': p['t']}
        for n in fn_nodes(f):
            if n['k'] == 'decl':
                for v in n['vs']:
                    locs['vs'][v['id']] = v if not v.get('static') else {'t': '*', 'i': None}
        own, calls = set(), []

        def change(x):
            q = self.field(x)
            if q:
                r = self.root(f, x, locs)
                if r != 'local' and not (r == 'this' and f['kind'] in ('ctor', 'dtor')):
                    own.add((r, q))
                    self.why.setdefault((f['id'], q), (x, None))

        for n in fn_nodes(f):
            k = n['k']
            if k in ('asg', 'casg'):
                change(n['a'])
            elif k == 'un' and n.get('op') in ('++', '--'):
                change(n['a'])
            elif k in ('call', 'mcall', 'opcall', 'ctor'):
                cid = n.get('id')
                if cid in self.fns or any(x in self.fns for x in self.over(cid)):
                    if k == 'mcall':
                        recv, args = self.root(f, n['o'], locs) if n.get('o') else 'this', n['as']
                        if n.get('o') and n['o']['t'].startswith('*') and n['o']['k'] not in ('this',) and recv in ('this', 'local'):
                            recv = 'other'
                    elif k == 'opcall' and n.get('meth'):
                        recv, args = self.root(f, n['as'][0], locs), n['as'][1:]
                    elif k == 'ctor':
                        recv, args = 'local', n['as']
                    else:
                        recv, args = 'other', n['as']
                    calls.append((n, [x for x in [cid] + self.over(cid) if x in self.fns], recv,
                                  [self.root(f, a, locs) if a.get('lv') or a['t'].startswith('*') else 'local' for a in args]))
                else:
                    if k == 'mcall' and not n.get('cm') and n.get('o') and n.get('n') not in READ_ONLY | {'get', 'lock', 'str', 'rbegin', 'rend'}:
                        change(n['o'])
                    if k == 'opcall' and n.get('meth') and not n.get('cm') and n['as'] and n.get('op') not in ('[]', '->', '*', '()'):
                        change(n['as'][0])
                    for i in n.get('mr', ()):
                        if i < len(n['as']):
                            change(n['as'][i])
                    if k == 'call' and strip_tmpl(n.get('qn') or '').split('::')[-1] in REARRANGE:
                        for a in n['as']:
                            for y in walk(a):
                                if y['k'] == 'mcall' and y.get('n') in ('begin', 'end', 'rbegin', 'rend', 'data') and y.get('o'):
                                    change(y['o'])
        return own, calls

    def over(self, cid):
        if not hasattr(self, '_ov'):
            self._ov = {}
        if cid not in self._ov:
            try:
                self._ov[cid] = [x['id'] if isinstance(x, dict) else x for x in self.P.overriders(cid)]
            except Exception:
                self._ov[cid] = []
        return self._ov[cid]


def lasting(P):
    """the classes whose objects stand behind the handles of the public interface and outlive a call"""
    out = set()
    for r in P.rec.values():
        if '/include/' in (r.get('file') or ''):
            for x in r.get('fs', ()):
                m = re.match(r'R:std::shared_ptr<(e57::\w+)>$', x['t']) or re.match(r'R:std::unique_ptr<(e57::\w+)', x['t'])
                if m:
                    out.add(m.group(1))
    more = True
    while more:
        more = False
        for q, r in P.rec.items():
            if q not in out and any(b in out for b in P.bases(q)):
                out.add(q)
                more = True
    return out


def p37(c):
    """An effect analysis: for every query of the public interface (a const member function, or one documented to modify no
    visible state), the fields that it or anything it calls may change in an object it did not create and was not given to
    fill.  The objects behind handles, the nodes and the image must not be among them, nor may a query write to the file."""
    P = c.P
    E = Effects(P)
    keep = lasting(P)
    # of a transfer that a reading function of the simple interface opens for itself only the image and the tree outlast it
    nodes = {q for q in keep if q == 'e57::NodeImpl' or 'e57::NodeImpl' in P.bases(q) or
             any('e57::NodeImpl' in P.bases(b) for b in P.bases(q))}
    stable = nodes | {q for q in keep if q.split('::')[-1] in ('ImageFileImpl', 'ReaderImpl', 'WriterImpl')}
    writing = writers(P, E)
    for f in sorted(P.project_fns(True), key=lambda f: f['qn']):
        r = P.rec.get(f.get('cls') or '')
        if not r or '/include/' not in (r.get('file') or '') or f.get('imp') or f['kind'] != 'method' or f['id'] not in E.sum:
            continue
        if not f.get('cm') and 'No visible state is modified' not in str(P.doc(f) or ''):
            continue
        c.used(f)
        simple = 'Simple' in (r.get('file') or '')
        c.instance('effect', short(f))
        for root, q in sorted(E.sum[f['id']], key=str):
            if isinstance(root, int):
                continue
            k, name = q.rsplit('::', 1)
            if simple and (k not in stable or name.strip('_').lower().endswith('readercount')):
                continue
            if not simple and k not in keep and k != f['cls']:
                continue
            c.report('effect', '%s:%s' % (short(f), q), P.where(f), '%s is a query and can change %s' % (f['qn'], q), trail(P, E, f['id'], q))
        if f['id'] in writing and not simple:
            c.report('write', short(f), P.where(f), '%s is a query and can write to the file (through %s)' % (f['qn'], writing[f['id']]))
    c.floor('effect', 30)


def trail(P, E, fid, q):
    out = []
    while fid is not None and len(out) < 12:
        n, t = E.why.get((fid, q), (None, None))
        if n is None:
            break
        out.append('%s in %s' % (node_where(P, n), P.fn[fid]['qn']))
        fid = t
    return out


def writers(P, E):
    """function -> the callee through which it can write to, cut or remove a file"""
    out = {}
    for fid, f in E.fns.items():
        for n in fn_nodes(f):
            if n['k'] == 'call' and (n.get('qn') or '') in ('write', '_write', 'pwrite', 'pwrite64', 'ftruncate', 'ftruncate64', 'truncate',
                                                            'unlink', '_unlink', 'remove', 'std::remove', 'rename', 'std::rename'):
                out[fid] = n['qn']
    more = True
    while more:
        more = False
        for fid, (own, calls) in E.body.items():
            if fid not in out:
                for n, targets, recv, args in calls:
                    t = next((t for t in targets if t in out), None)
                    if t:
                        out[fid] = P.fn[t]['qn']
                        more = True
                        break
    return out
