"""Ownership: what a call acquires is released, once, or belongs to an object that survives the call."""
import re

from vlib.tools import *

# library functions that hand out something the caller must give back, and how
ACQUIRE = {
    'open': 'handle', 'open64': 'handle', 'openat': 'handle', 'creat': 'handle', 'dup': 'handle', 'mkstemp': 'handle', '_open': 'handle',
    'fopen': 'FILE', 'fdopen': 'FILE', 'tmpfile': 'FILE',
    'malloc': 'malloc', 'calloc': 'malloc', 'strdup': 'malloc', 'aligned_alloc': 'malloc',
    'XMLString::transcode': 'xmlstring', 'XMLString::replicate': 'xmlstring',
    'XMLReaderFactory::createXMLReader': 'new',
}
RELEASE = {'close': 'handle', '_close': 'handle', 'fclose': 'FILE', 'free': 'malloc', 'XMLString::release': 'xmlstring'}
SAY = {'handle': 'file handle', 'FILE': 'stdio file', 'malloc': 'memory block', 'xmlstring': 'string', 'new': 'object', 'new[]': 'array'}


def lib(P, n, table):
    """the table entry of a call to a library function"""
    if n['k'] not in ('call', 'mcall') or n.get('id') in P.fn:
        return None
    q = strip_tmpl(n.get('qn') or '').replace('std::', '')
    for name, kind in table.items():
        if q == name or '::' in name and q.endswith('::' + name):
            if name == 'XMLString::transcode' and not n['t'].startswith('*'):
                return None                     # the form that fills a buffer
            return kind
    return None


def sites(P):
    """syntax nodes that acquire something no smart pointer takes over at once: (function, node, kind)"""
    out = []
    for f in P.project_fns(True):
        owned = set()
        for n in fn_nodes(f):
            if n['k'] == 'ctor' and n['t'].startswith(('R:std::shared_ptr', 'R:std::unique_ptr', 'R:std::__shared_ptr')) and n['as']:
                owned.add(n['as'][0].get('nid'))
        for n in fn_nodes(f):
            k = ('new[]' if n.get('arr') else 'new') if n['k'] == 'new' else lib(P, n, ACQUIRE)
            if k and n.get('nid') not in owned:
                out.append((f, n, k))
    return out


def small(f):
    """worth following even where nothing is acquired or released: a few statements without a loop"""
    if '_small' not in f:
        ns = list(fn_nodes(f))
        f['_small'] = f['body'] is not None and len(ns) <= 150 and not any(n['k'] in ('for', 'while', 'do', 'rfor', 'try') for n in ns)
    return f['_small']


def strip(v):
    while v is not None and v[0] == 'cast':
        v = v[3]
    return v


class Owned(Focus):
    """follows one acquired value: tags raw (nobody releases it by itself), dead (released), gone (given to code outside the library)"""

    def __init__(self, P, site, kind, entry, relevant):
        super().__init__(P)
        self.site, self.kind = site, kind
        self.entry = entry
        self.relevant = relevant
        self.bad = []
        self.acquired = 0

    def inline(self, I, fn, node):
        return fn['id'] in self.relevant or small(fn)

    def opaque_throws(self, I, st, n, qn):
        i = n.get('id')
        if i and i in ModSets.of(self.P).known:
            return self.throws.call(i)
        return 'xercesc' in (qn or '') and n['k'] in ('call', 'mcall') and n.get('n') in ('parse', 'Initialize', 'setFeature', 'createXMLReader')

    def tok(self, st, v):
        v = strip(v)
        return v if v is not None and (('raw', v) in st.tags or ('dead', v) in st.tags or ('kept', v) in st.tags) else None

    def acquire(self, I, st, n, v):
        if (n.get('fid'), n.get('nid')) != self.site:
            return st
        self.acquired += 1
        return st.untag_if(lambda t: t[0] == 'dead' and t[1] == v).tag(('raw', v))

    def release(self, I, st, n, v, kind):
        t = self.tok(st, v)
        if t is None:
            return st
        if kind.replace('[]', '') != self.kind.replace('[]', '') or ('[]' in kind) != ('[]' in self.kind):
            self.bad.append(('kind', n, 'the %s is released as if it were a %s' % (SAY[self.kind], SAY[kind]), I.path()))
        if ('dead', t) in st.tags:
            if not I.silent:
                self.bad.append(('twice', n, 'the %s is released a second time' % SAY[self.kind], I.path()))
            return st
        return st.untag(('raw', t), ('kept', t)).tag(('dead', t))

    def on_new(self, I, st, n, v):
        return self.acquire(I, st, n, v) if n['k'] == 'new' else st

    def on_own(self, I, st, n, v):
        t = self.tok(st, v)
        if t is not None and ('raw', t) in st.tags:
            return st.untag(('raw', t)).tag(('kept', t))
        return st

    def on_disown(self, I, st, n, v):
        t = self.tok(st, v)
        if t is not None and ('kept', t) in st.tags:
            return st.untag(('kept', t)).tag(('raw', t))
        return st

    def on_delete(self, I, st, n, v):
        t = self.tok(st, v)
        if t is None:
            return st
        if n['k'] != 'delete':              # a smart pointer lets go
            return st if ('kept', t) in st.tags or ('raw', t) not in st.tags else st.untag(('raw', t)).tag(('dead', t))
        return self.release(I, st, n, v, 'new[]' if n.get('arr') else 'new')

    def on_call(self, I, st, n, qn, obj, vs):
        if n['k'] == 'call' or n['k'] == 'mcall':
            if (n.get('fid'), n.get('nid')) == self.site:
                v = ('new', n['t'].lstrip('*') if n['t'].startswith('*') else 'R:' + self.kind, I.site(n))
                ok = self.acquire(I, st, n, v)
                if self.kind == 'handle':
                    return [(ok.assume(('le', C0, v, 0)), v), (st, C(-1))]
                return [(ok, v)] + ([(st, C0)] if self.kind != 'xmlstring' else [])
            k = lib(I.P, n, RELEASE)
            if k:
                for x in vs:
                    v = strip(I.val_of(st, x))
                    if k == 'xmlstring' and v is not None and v[0] == 'addr':
                        v = strip(I.load(st, v[1]))
                    st = self.release(I, st, n, v, k)
                if k == 'handle':
                    st, r = I.fresh(st, n, ty='i32')
                    return [(st, r)]
                return [(st, None)]
        if n.get('id') not in I.P.fn and n['k'] == 'mcall' and not strip_tmpl(qn or '').startswith('std::basic_string'):
            # given to an object that is not of this library
            for x in vs:
                v = strip(I.val_of(st, x))
                t = self.tok(st, v)
                if t is not None and t != strip(obj):
                    st = st.untag(('raw', t))
        return None


def holders(o, t):
    return [l for l, v in o.st.heap.items() if strip(v) == t]


def base(loc):
    while loc[0] in ('fld', 'idx'):
        loc = loc[1]
    return loc


def constants(o, this):
    """fields of the object with a known value"""
    return {l[2]: v for l, v in o.st.heap.items() if l[0] == 'fld' and l[1] == ('at', this) and v is not None and v[0] == 'c'}


def settled(P, cls, name):
    """is the field set by constructors only"""
    return not any(n['k'] in ('asg', 'casg') and n['a']['k'] == 'mem' and n['a']['n'] == name
                   for f in P.project_fns(True) if f['kind'] not in ('ctor', 'dtor') and not f['imp'] for n in fn_nodes(f))


def judge(f, outs, kind, own, this, survives=lambda o: True):
    """at each exit: what is still held, and by whom"""
    found = []
    for o in outs:
        if o.kind not in ('return', 'throw') or (o.kind == 'throw' and (o.info or {}).get('cls') == 'abort'):
            continue
        for t in [x for x in o.st.tags if x[0] in ('raw', 'dead')]:
            tok = t[1]
            hs = holders(o, tok)
            if t[0] == 'dead':
                for l in hs:
                    if f['kind'] != 'dtor' and base(l) == ('at', this) and l[0] == 'fld' and l[1] == ('at', this) and survives(o):
                        found.append(('dangling', o, l, 'field %s still holds the %s that was released' % (l[2], SAY[kind])))
                continue
            if o.kind == 'return' and o.value is not None and (strip(o.value) == tok or tok in list(subterms(o.value))):
                continue
            ok = False
            for l in hs:
                b = base(l)
                if b == ('at', this):
                    if l[0] == 'fld' and l[1] == b:
                        if survives(o):
                            ok = True
                            own.setdefault((f.get('cls'), l[2], kind), []).append(constants(o, this))
                    else:
                        ok = True           # inside a member or an array: its own destructor looks after it
                elif b[0] == 'at' and b[1] is not None and b[1][0] == 'new':
                    if ('dead', b[1]) not in o.st.tags:
                        ok = True
                elif b[0] in ('at', 'gvar'):
                    ok = True
            if not ok:
                found.append(('leak', o, None, 'the %s is not released when %s ends %s' % (SAY[kind], f['qn'], 'normally' if o.kind == 'return' else 'with an error')))
    return found


def p07(c):
    """Each acquisition (new, open, strings and readers of the XML library) that no smart pointer takes over at once is followed on every
    path of its function and of the callers it is returned to: at each normal or exceptional exit it has been released, is held by an object
    that survives, or is returned. Each field found to hold such a thing is released by the destructor exactly once, and the methods that
    change it neither lose it nor leave it released in place. Owning pointers form no cycle through objects that own each other."""
    P = c.P
    S = sites(P)
    own = {}
    released = [f['id'] for f in P.project_fns(True) if any(n['k'] == 'delete' or lib(P, n, RELEASE) for n in fn_nodes(f))]
    jobs = []
    for f, n, k in S:
        rel = reaching(P, [f['id']] + released)
        entries, todo = [], [(f['id'], 0)]
        while todo:
            e, d = todo.pop()
            if e in entries or d > 3:
                continue
            entries.append(e)
            g = P.fn[e]
            rets = g['ret'].startswith('*') or k == 'handle' and g['ret'] in ('i32', 'i64')
            for x in callers(P).get(e, ()):
                h = P.fn[x]
                if rets or (h['kind'] == 'ctor' and h.get('cls') == g.get('cls')):
                    todo.append((x, d + 1))
        for e in sorted(set(entries)):
            jobs.append((f, n, k, e, rel))

    def one(c, job):
        f, n, k, e, rel = job
        g = P.fn[e]
        w = node_where(P, n)
        r = Owned(P, (n['fid'], n['nid']), k, g, rel)
        this = ('this', g['cls'], True) if g.get('cls') and not g.get('static') else None
        I, outs = outcomes(P, r, g, this=this, cls=g.get('cls')) if this else outcomes(P, r, g)
        c.used(*[P.fn[x] for x in I.stats['fns'] if x in P.fn])
        mine = {}
        res = []
        for kind, o, l, text in judge(g, outs, k, mine, this, lambda o: not (g['kind'] == 'ctor' and o.kind == 'throw')):
            c.report('acquired', '%s:%s:%s' % (kind, g['qn'], f['qn']), w, text, path(P, o))
        for kind, x, text, pth in r.bad:
            c.report('acquired', '%s:%s:%s' % (kind, g['qn'], f['qn']), node_where(P, x), text, pth)
        if r.acquired:
            c.instance('acquired', '%s acquired at %s, in %s' % (SAY[k], w, g['qn']))
        return [(k, v) for k, v in sorted(mine.items())]
    for r in c.each(jobs, one):
        for k, v in r:
            own.setdefault(k, []).extend(v)
    c.floor('acquired', 1)
    fields = sorted(own)
    owning = {}
    for cls, name, _ in fields:
        owning.setdefault(cls, set()).add(name)

    def field(c, fk):
        cls, name, kind = fk
        for f in sorted(P.project_fns(True), key=lambda f: f['id']):
            if f.get('cls') != cls or f['body'] is None or f.get('static') or f['kind'] == 'ctor' or f['imp']:
                continue
            if f['kind'] != 'dtor' and not any(changes(P, n, name) for n in fn_nodes(f)):
                continue
            if any(x[0]['id'] == f['id'] for x in S):
                continue
            rel = reaching(P, released + [x[0]['id'] for x in S])
            r = Owned(P, None, kind, f, rel)
            this = ('this', cls, True)
            tok = ('new', 'R:' + kind, 'held')
            st = State(heap={('fld', ('at', this), name): tok}).tag(('raw', tok))
            for x, v in own[fk][0].items():
                if x != name and all(o.get(x) == v for o in own[fk]) and (x in owning[cls] or settled(P, cls, x)):
                    st.heap[('fld', ('at', this), x)] = v
            if kind == 'handle':
                st = st.assume(('le', C0, tok, 0))
            I, outs = outcomes(P, r, f, this=this, st=st, cls=cls)
            c.used(*[P.fn[x] for x in I.stats['fns'] if x in P.fn])
            rule = 'destructor' if f['kind'] == 'dtor' else 'method'
            c.instance(rule, '%s of %s in %s' % (name, cls, f['qn']))
            for x, n, text, pth in r.bad:
                c.report(rule, '%s:%s.%s' % (x, f['qn'], name), node_where(P, n), text + ' (field %s)' % name, pth)
            for x, o, l, text in judge(f, outs, kind, {}, this):
                c.report(rule, '%s:%s.%s' % (x, f['qn'], name), P.where(f), text + ' (field %s)' % name, path(P, o))
            if f['kind'] == 'dtor':
                for o in outs:
                    if o.kind == 'return' and ('raw', tok) in o.st.tags:
                        c.report(rule, 'kept:%s.%s' % (f['qn'], name), P.where(f), 'the destructor does not release the %s in field %s' % (SAY[kind], name), path(P, o))
                        break
        if not any(f['kind'] == 'dtor' and f.get('cls') == cls and f['body'] is not None for f in P.project_fns(True)):
            c.report('destructor', 'none:%s.%s' % (cls, name), cls, 'class %s keeps a %s in field %s and has no destructor that releases it' % (cls, SAY[kind], name))
        return []
    c.each(fields, field)
    if fields:
        c.floor('destructor', 1)
    cycles(c)
    copies(c, owning)


def path(P, o):
    i = o.info or {}
    n = i.get('node')
    return ['error raised at %s' % node_where(P, n)] if o.kind == 'throw' and n else []


def changes(P, n, name):
    """does this syntax assign or delete the field, or release it"""
    def isf(x):
        while isinstance(x, dict) and x['k'] in ('cast', 'paren', 'un') and isinstance(x.get('e') or x.get('a'), dict):
            x = x.get('e') or x.get('a')
        return isinstance(x, dict) and x['k'] == 'mem' and x.get('n') == name
    if n['k'] == 'asg':
        return isf(n['a'])
    if n['k'] == 'delete':
        return isf(n['a'])
    if n['k'] == 'call' and lib(P, n, RELEASE):
        return any(isf(a) for a in n.get('as', []))
    return False


# ---------------------------------------------------------------- objects that own each other
OWNS = re.compile(r'std::(?:shared_ptr|unique_ptr)<([\w:]+(?:<[\w: ,]*>)?)')
VALUE = re.compile(r'(?<![\w:])(e57::[\w:]+)')


def ownership(P):
    """class -> classes of the objects it keeps alive, by smart pointers and by value, through any number of steps"""
    subs = {}
    for c in P.rec:
        for b in P.bases(c):
            subs.setdefault(b, set()).add(c)
    edge = {}
    for c, r in P.rec.items():
        out = set()
        for k in [c] + list(P.bases(c)):
            for f in (P.rec.get(k) or {'fs': []})['fs']:
                t = re.sub(r'std::weak_ptr<[^<>]*(<[^<>]*>)?[^<>]*>', '', f['t'])
                if t.startswith(('*', '&')):
                    continue
                for x in set(OWNS.findall(t)) | set(VALUE.findall(t)):
                    out |= {x} | subs.get(x, set())
        edge[c] = out
    return edge


def closure(edge, c):
    out, todo = set(), [c]
    while todo:
        for x in edge.get(todo.pop(), ()):
            if x not in out:
                out.add(x)
                todo.append(x)
    return out


def calls_in(n):
    return [x for x in walk(n) if x['k'] in ('call', 'mcall', 'ctor')]


def keeps(P):
    """function id -> {parameter index: field} of the shared pointers it is given and keeps in a field that owns"""
    out = {}

    def param(f, e):
        while e is not None and e['k'] in ('ctor', 'cast', 'call') and (e.get('as') or isinstance(e.get('e'), dict)):
            if e['k'] == 'ctor' and not e['t'].startswith('R:std::'):
                return None
            e = e['as'][0] if e.get('as') else e['e']
        if e is None or e['k'] != 'ref':
            return None
        for i, p in enumerate(f['ps']):
            if p['id'] == e.get('id'):
                return i
        return None

    def owning(t):
        return t is not None and OWNS.search(t) is not None
    changed = True
    while changed:
        changed = False
        for fid, f in P.fn.items():
            if not f.get('cls') or f['body'] is None:
                continue
            got = dict(out.get(fid, {}))
            for i in f.get('inits', []):
                e = i.get('e')
                if e is None:
                    continue
                if i.get('f') and owning(i.get('ft')):
                    p = param(f, e)
                    if p is not None:
                        got.setdefault(p, i['qn'])
                if e['k'] == 'ctor' and e.get('id') in out:
                    for j, q in out[e['id']].items():
                        p = param(f, e['as'][j]) if j < len(e['as']) else None
                        if p is not None:
                            got.setdefault(p, q)
            for n in fn_nodes(f):
                if n['k'] == 'opcall' and n.get('op') == '=' and len(n['as']) == 2 and n['as'][0]['k'] == 'mem' and owning(n['as'][0]['t']):
                    p = param(f, n['as'][1])
                    if p is not None:
                        got.setdefault(p, n['as'][0]['qn'])
                elif n['k'] == 'mcall' and n.get('n') in ('push_back', 'emplace_back') and n.get('o') is not None and n['o']['k'] == 'mem' and owning(n['o']['t']) and n['as']:
                    p = param(f, n['as'][0])
                    if p is not None:
                        got.setdefault(p, n['o']['qn'])
                elif n['k'] == 'mcall' and n.get('id') in out and (n.get('o') is None or n['o']['k'] == 'this'):
                    for j, q in out[n['id']].items():
                        p = param(f, n['as'][j]) if j < len(n['as']) else None
                        if p is not None:
                            got.setdefault(p, q)
            if got != out.get(fid, {}):
                out[fid] = got
                changed = True
    return out


def cycles(c):
    """an object hands itself to an object it keeps alive, which keeps it alive in turn: neither is ever destroyed"""
    P = c.P
    edge = ownership(P)
    K = keeps(P)
    n_self = 0
    for f in P.project_fns(True):
        if not f.get('cls') or f['body'] is None:
            continue
        me = {v['id'] for n in fn_nodes(f) if n['k'] == 'decl' for v in n['vs']
              if v.get('i') is not None and any(x.get('n') == 'shared_from_this' for x in calls_in(v['i']))}

        def myself(a):
            return any(x.get('n') == 'shared_from_this' for x in calls_in(a)) or any(x['k'] == 'ref' and x.get('id') in me for x in walk(a))
        for n in fn_nodes(f):
            if n['k'] not in ('call', 'mcall', 'ctor') or n.get('id') not in P.fn:
                continue
            g = P.fn[n['id']]
            for j, a in enumerate(n['as']):
                if not a['t'].lstrip('&').startswith('R:std::') or not myself(a):
                    continue
                n_self += 1
                for h in [g] + [P.fn[x] for x in P.overriders(g['id']) if x in P.fn]:
                    q = K.get(h['id'], {}).get(j)
                    if q is None or not h.get('cls'):
                        continue
                    if f['cls'] not in P.rec:
                        continue
                    owned = closure(edge, f['cls'])
                    k = q.rsplit('::', 1)[0]
                    if h['cls'] in owned or any(h['cls'] in P.bases(x) for x in owned):
                        c.report('cycle', '%s:%s' % (f['cls'], q), node_where(P, n),
                                 '%s hands itself to %s, which keeps it alive in %s while it keeps that object alive: neither is ever destroyed' % (f['cls'], h['qn'], q))
    c.instance('cycle', '%d places where an object hands itself on; %d functions keep what they are given' % (n_self, len(K)))


def copies(c, owning):
    """an object that releases what its fields point to must not be copied"""
    P = c.P
    for cls in sorted(owning):
        r = P.rec[cls]
        name = strip_tmpl(cls).split('::')[-1]
        made = [m for m in r['ms'] if m['n'] in (name, 'operator=') and len(m['ps']) == 1 and m['ps'][0].lstrip('&') == 'R:' + cls]
        c.instance('copy', cls)
        if '/include/' in r['file'] and not any(m['n'] == name for m in made):
            c.report('copy', cls, '%s:%d' % (r['file'].replace('/repo/', ''), r['l']),
                     'a copy of a %s would release the same memory again' % cls)
        for f in P.project_fns(True):
            if f['imp'] or f['kind'] == 'dtor' and f.get('cls') == cls:
                continue
            for n in fn_nodes(f):
                if (n['k'] == 'ctor' and n.get('copy') and n['t'] == 'R:' + cls and n['as'] and n['as'][0].get('lv') or
                        n['k'] == 'opcall' and n.get('op') == '=' and n['as'][0]['t'].lstrip('&') == 'R:' + cls) and not made:
                    c.report('copy', '%s:%s' % (cls, f['qn']), node_where(P, n), 'a %s is copied in %s; both copies release what it owns' % (cls, f['qn']))
