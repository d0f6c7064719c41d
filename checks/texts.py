"""Numbers as text: which conversions can depend on the locale of the process."""
import re

from vlib.tools import *

STREAM = ('basic_stringstream', 'basic_ostringstream', 'basic_istringstream', 'basic_ofstream', 'basic_ifstream', 'basic_fstream')
ANY_STREAM = STREAM + ('basic_ostream', 'basic_istream', 'basic_iostream', 'basic_ios')
REAL = {'strtod', 'strtof', 'strtold', 'atof', 'wcstod', 'stod', 'stof', 'stold', 'setlocale'}
FORMAT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vsnprintf': 2, 'sscanf': 1, 'scanf': 0, 'fscanf': 1, 'asprintf': 1, 'swprintf': 2}
NUMERIC = re.compile(r'[iu](8|16|32|64|128)$|f(32|64|80|128)$')
CHARS = ('i8', 'u8')            # characters, which streams do not format as numbers


def is_stream(t, kinds=ANY_STREAM):
    t = t.lstrip('&*')
    return t.startswith('R:std::') and any(k in t.split('<')[0] for k in kinds)


def is_number(t):
    t = t.lstrip('&')
    return (bool(NUMERIC.match(t)) and t not in CHARS) or t.startswith('E:')


def classic(n, names=()):
    """is this expression the classic locale; names: variables that are"""
    while n['k'] == 'ctor' and n.get('copy') and n['as']:
        n = n['as'][0]
    if n['k'] == 'ref' and n.get('id') in names:
        return True
    if n['k'] == 'call' and n.get('qn') == 'std::locale::classic':
        return True
    if n['k'] == 'ctor' and n['t'].lstrip('&') == 'R:std::locale' and n['as']:
        a = n['as'][0]
        return a['k'] == 'str' and a.get('v') in ('C', 'POSIX') or classic(a, names)
    return n['k'] in ('cast', 'paren', 'tmp') and 'e' in n and isinstance(n['e'], dict) and classic(n['e'], names)


def kids(n):
    for k, v in n.items():
        if k in ('nid', 'fid'):
            continue
        if isinstance(v, dict) and 'k' in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield x
                elif isinstance(x, dict):
                    yield from kids(x)


class Streams:
    """For each function, which formatted insertions and extractions of numbers happen on a stream of the function's own that has not
    been given the classic locale on every path to it; and for stream parameters, whether numbers go through them or they are made classic."""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of(self, fid):
        if fid not in self.memo:
            self.memo[fid] = {'bad': [], 'uses': {}, 'makes': set(), 'ops': 0}
            f = self.P.fn.get(fid)
            if f is not None and f['body'] is not None:
                self.memo[fid] = self.run(f)
        return self.memo[fid]

    def run(self, f):
        self_ = {'bad': [], 'uses': {}, 'makes': set(), 'ops': 0}
        params = {p['id']: i for i, p in enumerate(f['ps']) if is_stream(p['t'])}
        locals_ = {}
        alias = {}
        plain = set()

        def var(n):
            """the variable a stream expression is rooted in"""
            while True:
                if n['k'] == 'ref':
                    v = n.get('id')
                    return alias.get(v, v) if not n.get('g') else None
                if n['k'] in ('opcall', 'mcall') and is_stream(n['t']):
                    if n['k'] == 'mcall' and n.get('o') is not None:
                        n = n['o']
                    elif n.get('as'):
                        n = n['as'][0]
                    else:
                        return None
                    continue
                if n['k'] == 'call' and is_stream(n['t']) and n.get('as') and is_stream(n['as'][0]['t']):
                    n = n['as'][0]
                    continue
                if n['k'] in ('cast', 'un', 'paren') and isinstance(n.get('e'), dict):
                    n = n['e']
                    continue
                if n['k'] == 'ctor' and is_stream(n['t'], STREAM):
                    return 'temporary'
                return None

        def use(n, s, C):
            v = var(s)
            self_['ops'] += 1
            if v == 'temporary' or v in locals_ and v not in C:
                self_['bad'].append(n)
            elif v in params and v not in C:
                self_['uses'].setdefault(params[v], n)

        def expr(n, C):
            """effects in order; C: streams that are classic; gives the streams that are classic afterwards"""
            if n['k'] == 'lambda':
                return C
            if n['k'] == 'mcall' and n.get('n') == 'imbue' and n.get('o') is not None:
                v = var(n['o'])
                for x in n['as']:
                    C = expr(x, C)
                if v is not None and n['as']:
                    C = C | {v} if classic(n['as'][0], plain) else C - {v}
                    if v in params and classic(n['as'][0], plain):
                        self_['makes'].add(params[v])
                return C
            if n['k'] == 'bin' and n.get('op') in ('&&', '||') or n['k'] == 'cond':
                ks = list(kids(n))
                C = expr(ks[0], C)
                outs = [expr(x, C) for x in ks[1:]]
                r = C
                for o in outs:
                    r = r & o
                return r
            for x in kids(n):
                C = expr(x, C)
            if n['k'] == 'opcall' and n.get('op') in ('<<', '>>') and len(n['as']) == 2 and is_stream(n['as'][0]['t']):
                if is_number(n['as'][1]['t']):
                    use(n, n['as'][0], C)
            elif n['k'] == 'mcall' and n.get('n') in ('operator<<', 'operator>>') and n.get('o') is not None and is_stream(n['o']['t']) and n['as'] and is_number(n['as'][0]['t']):
                use(n, n['o'], C)
            elif n['k'] in ('call', 'mcall') and n.get('id') in self.P.fn:
                s = self.of(n['id'])
                for i, a in enumerate(n['as']):
                    if is_stream(a['t']):
                        if i in s['uses']:
                            use(n, a, C)
                        if i in s['makes']:
                            v = var(a)
                            if v is not None:
                                C = C | {v}
            return C

        def stmt(n, C):
            k = n['k']
            if k == 'blk':
                for x in n['s']:
                    C = stmt(x, C)
                    if C is None:
                        return None
                return C
            if k == 'decl':
                for v in n['vs']:
                    if v.get('i') is not None:
                        C = expr(v['i'], C)
                    if v['t'].lstrip('&') == 'R:std::locale' and v.get('i') is not None and classic(v['i'], plain):
                        plain.add(v['id'])
                    if is_stream(v['t'], STREAM) and not v['t'].startswith('&'):
                        locals_[v['id']] = v
                    elif v['t'].startswith('&') and is_stream(v['t']) and v.get('i') is not None:
                        r = var(v['i'])
                        if r is not None:
                            alias[v['id']] = r
                return C
            if k == 'if':
                C = expr(n['c'], C)
                a = stmt(n['a'], C) if n.get('a') else C
                b = stmt(n['b'], C) if n.get('b') else C
                if a is None or b is None:
                    return b if a is None else a
                return a & b
            if k in ('for', 'while', 'do', 'rfor'):
                D = C
                if isinstance(n.get('i'), dict):
                    D = stmt(n['i'], D)
                for x in kids(n):
                    if x is not n.get('i'):
                        r = stmt(x, D)
                        D = D if r is None or k != 'do' else r
                return D if k == 'do' else C
            if k in ('ret', 'throw', 'expr', 'break', 'cont', 'continue'):
                for x in kids(n):
                    if not (x['k'] == 'throw'):
                        C = expr(x, C)
                return None if k == 'ret' else C
            if k in ('switch', 'case', 'default', 'label', 'try', 'catch'):
                outs = []
                for x in kids(n):
                    r = stmt(x, C)
                    if r is not None:
                        outs.append(r)
                return C
            return expr(n, C)
        stmt(f['body'], frozenset())
        return self_


def relevant(P):
    """functions that take part in writing or reading the XML section: reached from there without going through the text of an error"""
    start = [f for f in P.fn.values() if f['body'] is not None and (
        f['n'] == 'writeXml' or f.get('cls') == 'e57::E57XmlParser' and f['n'] in ('startElement', 'endElement', 'characters', 'parse') or
        f['qn'].startswith('e57::CheckedFile::operator<<'))]
    if len(start) < 6:
        raise Broken('only %d functions that write or read XML found' % len(start))
    seen, todo = {}, [(f['id'], None) for f in start]
    while todo:
        fid, frm = todo.pop()
        if fid in seen:
            continue
        f = P.fn.get(fid)
        if f is None or f['body'] is None:
            continue
        seen[fid] = frm
        stack = [f['body']] + [i['e'] for i in f.get('inits', []) if i.get('e')]
        while stack:
            n = stack.pop()
            if n['k'] == 'throw' or n['k'] == 'ctor' and 'Exception' in n['t']:
                continue
            if n['k'] in ('call', 'mcall', 'opcall', 'ctor') and n.get('id'):
                todo += [(x, fid) for x in [n['id']] + list(P.overriders(n['id']))]
            stack += list(kids(n))
    return seen


def p17(c):
    """Call-graph closure of everything that writes XML text or handles XML events, without the texts of errors. In it, a number may be
    inserted in or extracted from a stream only after the stream was given the classic locale on every path, and the C functions whose
    result depends on the locale for numbers with a fraction may not be used; no function of the library changes the process locale."""
    P = c.P
    S = Streams(P)
    R = relevant(P)
    n = 0

    def chain(fid):
        out = []
        while fid is not None and len(out) < 12:
            out.append(P.fn[fid]['qn'])
            fid = R.get(fid)
        return [' <- '.join(out)]
    for fid in sorted(R):
        f = P.fn[fid]
        c.used(f)
        s = S.of(fid)
        if s['ops']:
            c.instance('stream', f['qn'])
        for x in s['bad']:
            c.report('stream', '%s:%s' % (f['qn'], x['as'][-1]['t'] if x.get('as') else ''), node_where(P, x),
                     'a number goes through a stream that follows the locale of the process, in %s' % f['qn'], chain(fid))
        for x in fn_nodes(f):
            if x['k'] != 'call':
                continue
            q = strip_tmpl(x.get('qn') or '').replace('std::', '')
            if q in REAL:
                c.report('function', '%s:%s' % (f['qn'], q), node_where(P, x), '%s depends on the locale of the process, in %s' % (q, f['qn']), chain(fid))
            elif q == 'to_string' and x['as'] and x['as'][0]['t'].lstrip('&') in ('f32', 'f64', 'f80'):
                c.report('function', '%s:%s' % (f['qn'], q), node_where(P, x), 'std::to_string of a number with a fraction depends on the locale of the process, in %s' % f['qn'], chain(fid))
            elif q in FORMAT:
                a = x['as'][FORMAT[q]] if len(x['as']) > FORMAT[q] else None
                fmt = a.get('v') if a is not None and a['k'] == 'str' else None
                if fmt is None and any(y['t'] in ('f32', 'f64') for y in x['as']) or fmt is not None and re.search(r"%[-+ #0\d.*hlLqjzt]*('|[aAeEfFgG])", fmt):
                    c.report('function', '%s:%s' % (f['qn'], q), node_where(P, x), '%s with "%s" depends on the locale of the process, in %s' % (q, fmt, f['qn']), chain(fid))
                c.instance('function', '%s calls %s' % (f['qn'], q))
            elif q in ('strtoll', 'strtol', 'strtoull', 'atoll', 'atol', 'atoi', 'stoll', 'stol', 'stoi', 'to_string', 'to_chars', 'from_chars', 'stoull'):
                c.instance('function', '%s calls %s' % (f['qn'], q))
    for f in P.fn.values():
        if f['body'] is None or P.rel(f).startswith('/'):
            continue
        for x in fn_nodes(f):
            if x['k'] == 'call' and strip_tmpl(x.get('qn') or '') in ('setlocale', 'std::setlocale', 'std::locale::global'):
                c.report('process', f['qn'], node_where(P, x), 'the library changes the locale of the whole process, in %s' % f['qn'])
        n += 1
    c.instance('process', '%d functions' % n)
    c.floor('stream', 1)
