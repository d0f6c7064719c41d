"""Error codes, exceptions and handlers."""
import os, re
from vlib.tools import *

EXC = 'e57::E57Exception'
ENUM = 'e57::ErrorCode'
CONVERSIONS = {'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'stold'}


def literal(v):
    """the text a value is known to be, or None"""
    if v is None:
        return None
    if v[0] == 's':
        return v[1]
    return None


def lead(v):
    """the constant text a value begins with"""
    while v is not None and v[0] in ('cat', 'op', 'ctor') and len(v) > 1:
        v = next((x for x in v[1:] if isinstance(x, tuple)), None)
    return literal(v)


def pairs_in(P, f):
    """(code, text) pairs written together in one initialiser: a table"""
    todo = [f]
    out = {}
    roots = [f['body']]
    for g in (P.gvar.values() if hasattr(P, 'gvar') else ()):
        if g.get('i') is not None:
            roots.append(g['i'])
    for r in roots:
        for n in walk(r):
            if n['k'] in ('ctor', 'il', 'init', 'ilist'):
                xs = [x for x in children(n)]
                cs = [x for x in xs for y in walk(x) if y['k'] == 'enum' and y.get('t') == 'E:' + ENUM]
                ts = [y for x in xs for y in walk(x) if y['k'] == 'str']
                es = [y for x in xs for y in walk(x) if y['k'] == 'enum' and y.get('t') == 'E:' + ENUM]
                if len(es) == 1 and len(ts) == 1:
                    out[int(es[0]['cv'])] = ts[0]['v']
    return out


def p29(c):
    """The function that describes an error code is evaluated for every code of the enumeration: each must give a constant text that
    is not empty, not the one for unknown codes and not that of another code. The exception's constructor must keep each argument in
    the member its accessor returns, and every place that builds one passes its own file, line and function (or passes on those it
    was given) and a code other than success."""
    P = c.P
    codes = [(x['n'], int(x['v'])) for x in P.enum.get(ENUM, {'es': []})['es']]
    if len(codes) < 20:
        raise Broken('the enumeration of error codes was not found')
    by = {}
    for n, v in codes:
        by.setdefault(v, n)                 # later names of a value are its old spellings
    codes = [(n, v) for v, n in by.items()]
    for f in P.some('e57::Utilities::errorCodeToString'):
        def text(code):
            I, outs = outcomes(P, Rule(), f, args=[C(code)])
            c.used(I.stats['fns'])
            return [o for o in outs if o.kind == 'return']
        unknown = {lead(o.value) for o in text(max(by) + 1000)} - {None}
        seen = {}
        table = None
        for n, v in codes:
            c.instance('description', n)
            rs = text(v)
            ts = {literal(o.value) for o in rs}
            if None in ts:
                if any(lead(o.value) in unknown and lead(o.value) is not None for o in rs):
                    c.report('description', n, P.where(f), 'the error code %s has no description of its own' % n)
                    continue
                if table is None:
                    table = pairs_in(P, f)
                if not table:
                    continue                    # computed in a way that is not followed
                if v not in table:
                    c.report('description', n, P.where(f), 'the error code %s has no description of its own' % n)
                    continue
                ts = {table[v]}
            if not ts or not all(ts):
                c.report('description', n, P.where(f), 'the error code %s has no description' % n)
            for t in ts:
                if t in unknown:
                    c.report('description', n, P.where(f), 'the error code %s has no description of its own' % n)
                elif t in seen and seen[t] != n:
                    c.report('description', n, P.where(f), 'the error codes %s and %s have the same description "%s"' % (seen[t], n, t))
                seen.setdefault(t, n)
    c.floor('description', 40)

    ctors = [f for f in P.fn.values() if f.get('cls') == EXC and f['kind'] == 'ctor' and not f['imp'] and f['body'] is not None and len(f['ps']) >= 2]
    if not ctors:
        raise Broken('constructor of E57Exception not found')
    this = ('this', EXC, True)
    for f in ctors:
        args = []
        st = State()
        want = {}
        for p in f['ps']:
            s = ('sym', 'arg:' + p['n'])
            args.append(s)
            key = 'errorCode' if p['t'] == 'E:' + ENUM else 'sourceLineNumber' if p['t'] in ('i32', 'u32') else \
                'context' if 'basic_string' in p['t'] else 'sourceFunctionName' if 'unction' in p['n'] else 'sourceFileName'
            want[key] = s
        I, outs = outcomes(P, Rule(), f, this=this, args=args, cls=EXC)
        for key, s in sorted(want.items()):
            for g in P.some('%s::%s' % (EXC, key)):
                c.instance('carried', key)
                for o in outs:
                    if o.kind != 'return':
                        continue
                    I2, got = outcomes(P, Rule(), g, this=this, st=o.st, cls=EXC)
                    for q in got:
                        v = q.value
                        if v is not None and v[0] == 'refto':
                            v = I2.load(q.st, v[1])
                        if v == s or (key in ('sourceFileName', 'context') and v is not None and s in set(subterms(v))):
                            continue
                        if key == 'sourceFileName' and v is not None and v[0] not in ('c', 's', 'sym'):
                            continue
                        c.report('carried', key, P.where(g), '%s does not give what the error was raised with' % g['qn'])
        for g in P.some(EXC + '::errorStr'):
            c.instance('carried', 'errorStr')
            hit = []

            class Asked(Rule):
                def on_call(self, I, st, n, qn, obj, vs):
                    if qn.endswith('errorCodeToString'):
                        hit.append(I.val_of(st, vs[0]))
                        return [(st, ('s', 'text'))]
                    return None
            for o in outs:
                if o.kind == 'return':
                    I2, got = outcomes(P, Asked(), g, this=this, st=o.st, cls=EXC)
            if not hit or any(h != want['errorCode'] for h in hit):
                c.report('carried', 'errorStr', P.where(g), '%s does not describe the code the error was raised with' % g['qn'])
    ok = by.get(0)
    for f in P.project_fns(True):
        for n in fn_nodes(f):
            if n['k'] != 'ctor' or n.get('cls') != EXC or n.get('copy') or len(n.get('as', ())) < 2:
                continue
            c.used(f['id'])
            w = node_where(P, n)
            c.instance('raised', '%s' % w)
            g = P.fn.get(n.get('id'))
            for a, p in zip(n['as'], g['ps'] if g else ()):
                if p['t'] == 'E:' + ENUM and a.get('cv') is not None and int(a['cv']) == 0 and ok == 'Success':
                    c.report('raised', w, w, 'an error is raised with the code for success')
                lits = [x for x in walk(a) if x['k'] == 'str']
                if p['t'].endswith('*i8') or p['t'] in ('*i8', '*c:i8'):
                    pass
                if 'ine' in p['n'] and p['t'] in ('i32', 'u32') and a.get('cv') is not None and a['k'] == 'int':
                    if not -2 <= int(a['cv']) - a['l'] <= 0 and abs(int(a['cv']) - n['l']) > 12:
                        c.report('raised', w, w, 'an error raised here states line %s' % a['cv'])
                if 'ile' in p['n'] and a['k'] == 'str':
                    if os.path.basename(a['v']) != os.path.basename(f['file']):
                        c.report('raised', w, w, 'an error raised here states the file %s' % os.path.basename(a['v']))
    c.floor('raised', 100)


class Thrown(Rule):
    """every call in a protected block throws; handlers are followed, with what they call"""

    def __init__(self, P, code):
        self.P = P
        self.code = code
        self.throws = Throws.of(P, True)

    def inline(self, I, fn, node):
        return bool(I.excinfo)

    def opaque_throws(self, I, st, n, qn):
        if I.excinfo:
            return False
        if self.code is not None:
            fid = n.get('id')
            if fid in ModSets.of(self.P).known and self.throws.call(fid):
                return {'code': self.code, 'cls': 'R:' + EXC}
            return False
        return True

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == EXC + '::errorCode' and I.excinfo and self.code is not None:
            return [(st, C(self.code))]
        return None

    def on_catch(self, I, st, h, info):
        return st.tag(('caught', h['a'].get('l', 0) if isinstance(h['a'], dict) else 0))


def quiet_query(f):
    n = f['n']
    return f['ret'] == 'b' and n[:2].lower() == 'is' or n[:3].lower() in ('has', 'can')


def in_dtor(P, f, depth=3):
    """a destructor, or a helper used by destructors only"""
    if f['kind'] == 'dtor':
        return True
    cs = callers(P).get(f['id'], ())
    return bool(cs) and depth > 0 and all(in_dtor(P, P.fn[x], depth - 1) for x in cs)


def documented(P, f):
    """the codes a function is documented to raise: its own, or those of the documented functions it implements"""
    own = P.doc_throws(f)
    if own or '@throw' in P.doc(f):
        return set(own)
    out = set()
    for x in callers(P).get(f['id'], ()):
        g = P.fn[x]
        if g['n'] == f['n']:
            out |= set(P.doc_throws(g))
    return out


def p30(c):
    """Every throw expression raises a library exception or passes on a caught one. Each handler is analysed with the error it
    caught: every way out of it has to raise an error again, except in destructors and in queries (is..., has...) that answer no,
    and those may not hide an error they are documented to raise. Functions documented to raise nothing and functions declared
    noexcept let no error out. Library calls that report errors with exceptions of their own are enclosed by a handler."""
    P = c.P
    codes = {x['n']: int(x['v']) for x in P.enum.get(ENUM, {'es': []})['es']}
    T = Throws.of(P)
    for f in P.project_fns(True):
        if os.path.basename(f['file']) == 'catch.hpp':
            continue
        for n in fn_nodes(f):
            if n['k'] == 'throw':
                w = node_where(P, n)
                c.instance('thrown', w)
                t = (n.get('a') or {}).get('t', '').lstrip('&')
                if n.get('a') is not None and t.replace('c:', '') != 'R:' + EXC:
                    c.report('thrown', w, w, '%s raises something that is not a library error (%s)' % (f['qn'], t))
    c.floor('thrown', 200)

    for f in sorted(P.project_fns(True), key=lambda f: f['id']):
        trys = [n for n in fn_nodes(f) if n['k'] == 'try']
        if not trys:
            continue
        docs = documented(P, f)
        for code in [None] + sorted(codes[x] for x in docs if x in codes and x != 'ErrorInternal'):
            name = f['qn'] + (' (%s)' % P.enum_name(ENUM, code) if code is not None else '')
            c.instance('handler', name)
            for k in concrete(P, f)[:1]:
                I, outs = outcomes(P, Thrown(P, code), f, cls=k)
                c.used(I.stats['fns'])
                for o in outs:
                    caught = [t for t in o.st.tags if t[0] == 'caught']
                    if not caught:
                        continue
                    if o.kind == 'throw':
                        if o.info.get('cls') not in ('R:' + EXC, 'unknown', None) and o.info.get('cls') != 'abort' and code is not None:
                            c.report('handler', name, P.where(f), '%s turns an error into something else (%s)' % (f['qn'], o.info.get('cls')))
                        continue
                    if in_dtor(P, f):
                        continue
                    if code is None and quiet_query(f) and o.value == C0:
                        continue
                    c.report('handler', name, '%s:%d' % (P.rel(f), max(t[1] for t in caught)), '%s can catch an error%s and continue as if nothing '
                             'had happened' % (f['qn'], ' (%s)' % P.enum_name(ENUM, code) if code is not None else ''))
    c.floor('handler', 10)

    def enclosed(f, want, types):
        """(node, protected?) for the nodes of interest"""
        out = []

        def go(n, safe):
            if not isinstance(n, dict):
                return
            if 'k' in n and want(n):
                out.append((n, safe))
            if n.get('k') == 'try':
                ok = any(h.get('ct') is None or any(t in (h.get('ct') or '') for t in types) for h in n['hs'])
                go(n['a'], safe or ok)
                for h in n['hs']:
                    go(h['a'], safe)
                return
            for x in children(n):
                go(x, safe)
        for r in [f['body']] + [i.get('e') for i in f.get('inits', [])]:
            if r is not None:
                go(r, False)
        return out
    nothing = 0
    for f in sorted(P.project_fns(True), key=lambda f: f['id']):
        d = P.doc(f) if f['kind'] != 'dtor' else ''
        none = re.search(r'@throw\s+No E57Exceptions', d)
        if (none or f.get('nx')) and f['kind'] != 'dtor' and not f['imp']:          # destructors: P10
            c.instance('no-error-out', f['qn'])
            nothing += 1
            for k in concrete(P, f)[:1]:
                if f['id'] not in T.may:
                    break
                bad = enclosed(f, lambda n: n['k'] == 'throw' or (n['k'] in ('call', 'mcall', 'opcall', 'ctor') and n.get('id') and T.call(n['id'])),
                               ('std::exception', EXC))
                for n, safe in bad:
                    if not safe:
                        c.report('no-error-out', f['qn'], node_where(P, n), '%s can let an error out although %s' %
                                 (f['qn'], 'it is documented to raise none' if none else 'it must not throw'))
        for n, safe in enclosed(f, lambda n: n['k'] in ('call', 'mcall') and strip_tmpl(n.get('qn', '')).endswith('XMLPlatformUtils::Initialize'),
                                ('XMLException',)):
            c.instance('foreign', 'XMLPlatformUtils::Initialize')
            if not safe:
                c.report('foreign', 'Initialize', node_where(P, n), 'an XMLException can leave %s' % f['qn'])
        for n, safe in enclosed(f, lambda n: n['k'] == 'call' and strip_tmpl(n.get('qn', '')).startswith('std::') and n.get('n') in CONVERSIONS,
                                ('std::exception', 'logic_error', 'invalid_argument')):
            c.instance('foreign', n['n'])
            if not safe:
                c.report('foreign', '%s/%s' % (f['qn'], n['n']), node_where(P, n), 'text that is not a number makes std::%s throw an exception that '
                         'leaves %s and is not a library error' % (n['n'], f['qn']))
    c.floor('no-error-out', 10)
    c.floor('foreign', 1)
