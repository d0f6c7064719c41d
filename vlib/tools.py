"""Helpers shared by the rules."""
from .interp import *


def ld(base, *names):
    """initial value of base->a.b.c"""
    loc = ('at', base)
    for n in names:
        loc = ('fld', loc, n)
    return ('ld', loc, None)


def fl(base, *names):
    loc = ('at', base)
    for n in names:
        loc = ('fld', loc, n)
    return loc


def external(loc):
    """does a location outlive the call (not a local, temporary or fresh object)?"""
    r = root(loc)
    if r[0] in ('var', 'tmp', 'new'):
        return False
    if r[0] == 'at' and r[1][0] == 'new':
        return False
    return True


def sig(f):
    return '%s(%s)' % (f['qn'], ', '.join(p['t'] for p in f['ps']))


def short(f):
    """a stable name for an overload"""
    same = f.get('_ovl')
    return f['qn'].replace('e57::', '') + '(' + ','.join(p['t'].replace('e57::', '').replace('std::', '') for p in f['ps']) + ')'


class Outcome:
    __slots__ = ('kind', 'code', 'value', 'st', 'info')

    def __init__(self, kind, code, value, st, info):
        self.kind, self.code, self.value, self.st, self.info = kind, code, value, st, info


def outcomes(P, rule, f, this=None, args=None, st=None, cls=None, **kw):
    I = Interp(P, rule, **kw)
    outs, ex = I.run(f, this=this, args=args, st=st, cls=cls)
    res = [Outcome('return', None, v, s, None) for s, v in outs]
    res += [Outcome('throw', i.get('code'), None, s, i) for s, i in ex if i.get('cls') != 'abort']
    return I, res


def throw_line(P, o):
    n = o.info.get('node')
    if n is None:
        return '?'
    f = P.fn.get(n.get('fid'))
    return '%s:%d' % (P.rel(f), n['l']) if f else '?'


def node_where(P, n):
    f = P.fn.get(n.get('fid'))
    return '%s:%d' % (P.rel(f), n['l']) if f else '?:%d' % n['l']


def fn_nodes(f):
    """every syntax node of a function, constructor initialisers included"""
    for r in [f['body']] + [i.get('e') for i in f.get('inits', [])]:
        if r is not None:
            yield from walk(r)


STD_THROWING = {'at', 'substr', 'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'stold', 'shared_from_this'}


def std_throws(n):
    """library operations that report misuse by throwing (allocation failure aside)"""
    if n['k'] in ('mcall', 'call') and n.get('n') in STD_THROWING:
        return n['k'] == 'mcall' or strip_tmpl(n.get('qn', '')).startswith('std::')
    if n['k'] == 'ctor' and n.get('as') and 'shared_ptr<' in n.get('t', '') and 'weak_ptr<' in n['as'][0].get('t', ''):
        return True
    return False


class Throws:
    """which project functions may let an exception out (allocation failure aside)"""
    _cache = {}

    @staticmethod
    def of(P, std=False):
        k = (id(P), std)
        if k not in Throws._cache:
            Throws._cache[k] = Throws(P, std)
        return Throws._cache[k]

    def __init__(self, P, std):
        self.P = P
        self.may = set()
        self.std = std
        changed = True
        while changed:
            changed = False
            for fid, f in P.fn.items():
                if fid not in self.may and f['kind'] != 'dtor' and \
                        any(self.node(r) for r in [f['body']] + [i.get('e') for i in f.get('inits', [])] if r is not None):
                    self.may.add(fid)
                    changed = True

    def call(self, fid):
        return fid in self.may or any(x in self.may for x in self.P.overriders(fid))

    def node(self, n):
        """may evaluating this syntax throw?"""
        if not isinstance(n, dict):
            return False
        k = n.get('k')
        if k == 'throw':
            return True
        if k == 'lambda':
            return False
        if k == 'try':
            if any(self.node(h['a']) for h in n['hs']):
                return True
            if any(h.get('ct') is None or (not self.std and h['ct'].lstrip('&').replace('c:', '') in ('R:e57::E57Exception', 'R:std::exception'))
                   for h in n['hs']):
                return False
            return self.node(n['a'])
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            if n.get('id') and self.call(n['id']):
                return True
            if self.std and n.get('id') not in self.P.fn and std_throws(n):
                return True
        return any(self.node(x) for x in children(n))


class Focus(Rule):
    """analyses in place only functions that matter to `self.wanted(fn)`; the others are summarised"""
    std = False

    def __init__(self, P):
        self.P = P
        self.throws = Throws.of(P, self.std)
        self._in = {}

    def wanted(self, f):
        return True

    def inline(self, I, fn, node):
        k = fn['id']
        if k not in self._in:
            self._in[k] = any(self.wanted(self.P.fn[x]) for x in ModSets.of(self.P).closure(k) if x in self.P.fn)
        return self._in[k]

    def opaque_throws(self, I, st, n, qn):
        if n.get('id') and n['id'] in ModSets.of(self.P).known:
            return self.throws.call(n['id'])
        return self.std and std_throws(n)


def callers(P):
    """project function id -> ids of the project functions that call it"""
    if not hasattr(P, '_callers'):
        out = {}
        for f in P.project_fns(True):
            for n in fn_nodes(f):
                i = n.get('id')
                if n['k'] in ('call', 'mcall', 'opcall', 'ctor', 'fref', 'new') and i:
                    for x in [i] + list(P.overriders(i)):
                        out.setdefault(x, set()).add(f['id'])
        P._callers = out
    return P._callers


def reaching(P, ids):
    """ids of the functions from which one of the given functions can be reached, those included"""
    out, todo = set(ids), list(ids)
    while todo:
        for y in callers(P).get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def is_public(P, f):
    """does a user of the library call this function?"""
    r = P.rec.get(f.get('cls'))
    return bool(r) and '/include/' in r.get('file', '') and f.get('acc') == 0 and not any('Impl' in p['t'] for p in f['ps'])


def in_context(P, fid, run, depth=3, seen=()):
    """run(fid) gives the failures of the sites of interest reached when function fid is analysed on its own, or None when they are
    not reached. When it has some, the function may rely on its callers: each of them is then analysed instead, to the given depth."""
    bad = run(fid)
    if not bad or depth == 0 or P.doc_throws(P.fn[fid]) or is_public(P, P.fn[fid]):
        return bad                  # documented functions are the public interface: nothing may be left to their callers
    cs = [x for x in callers(P).get(fid, ()) if x != fid and x not in seen]
    if not cs:
        return [] if P.fn[fid].get('static') and not P.fn[fid].get('cls') else bad      # an unused helper does nothing
    out = []
    for x in sorted(cs):
        r = in_context(P, x, run, depth - 1, seen + (fid,))
        if r is None:
            return bad              # the analysis of that caller does not get here (a virtual call, say)
        out += r
    return out


def concrete(P, f):
    """the exact classes a method may run on (None: leave it open)"""
    if f['kind'] == 'ctor' or f.get('static') or not f.get('cls'):
        return [None]
    subs = [c for c in P.rec if c == f['cls'] or f['cls'] in P.bases(c)]
    if len(subs) <= 1:
        return [f['cls']]
    out = []
    for c in subs:
        if P.rec[c].get('abs'):
            continue
        ids = {f['id']} | set(P.overriders(f['id']))
        for k in [c] + P.bases(c):
            m = [x for x in ids if x in P.fn and P.fn[x].get('cls') == k]
            if m:
                if m[0] == f['id']:
                    out.append(c)
                break
    return out or [None]


def resolve(st, t):
    """a term with the conditional parts decided by what is known"""
    if t is None or t[0] != 'ite':
        return t
    if st.ent(t[1]):
        return resolve(st, t[2])
    if st.ent(neg(t[1])):
        return resolve(st, t[3])
    return ('ite', t[1], resolve(st, t[2]), resolve(st, t[3]))
