"""P04: logical and physical file positions are never confused"""
import re

from vlib.tools import *

CF = 'e57::CheckedFile'
INT = re.compile(r'^[&]?[ui](8|16|32|64)$')
WORD = {'L': 'logical', 'P': 'physical'}
PAGE, DATA = 1024, 1020
CMP = ('lt', 'le', 'eq', 'ne', 'gt', 'ge')


def named(name):
    """the coordinate system a name declares: one letter for the system, one for position or length"""
    s = (name or '').lower()
    l, p = 'logical' in s, 'physical' in s
    if 'pagesize' in s or 'pagemask' in s or (l and p):
        return None
    if not l and not p:
        if s.replace('_', '').endswith('fileoffset'):
            p = True
        else:
            return None
    # the length of the file is the position of its end, that of a section is not
    whole = s.startswith('file') or s.strip('_') in ('logicallength', 'physicallength')
    kind = 'l' if ('length' in s or 'size' in s or 'count' in s) and not whole else 'p'
    return ('L' if l else 'P') + kind


def coords(us):
    return {u[0] for u in us}


class Units(Rule):
    """follows, through one function at a time, which coordinate system each position is in"""

    def __init__(self, K, f, mode=None):
        self.K, self.P, self.f, self.mode = K, K.P, f, mode
        self.alarms, self.sinks, self.demands, self.stores = {}, set(), {}, {}
        self.vars = {p['id']: p['n'] for p in f['ps']}
        for n in fn_nodes(f):
            if n.get('k') == 'decl':
                for d in n.get('vs', ()):
                    if 'id' in d and 'n' in d:
                        self.vars.setdefault(d['id'], d['n'])
        self.memo = {}

    def inline(self, I, fn, node):
        return fn['id'] == self.f['id'] or bool(fn.get('lambda')) or '(lambda' in fn['qn'] or '::operator()' in fn['qn']

    # ---------------------------------------------------------------- units
    def of_loc(self, loc):
        if loc[0] == 'fld':
            u = named(loc[2])
            if u:
                return {u}
            key = self.K.field(loc)
            return set(self.K.fields.get(key, ())) if key else set()
        if loc[0] == 'var':
            u = named(self.vars.get(loc[2])) if loc[1] == 1 else None
            return {u} if u else set()
        if loc[0] == 'idx':
            return self.of_loc(loc[1])
        if loc[0] == 'at' and loc[1][0] == 'sym':
            return self.of_sym(loc[1][1])
        return set()

    def of_sym(self, s):
        if not isinstance(s, str) or ':' not in s:
            return set()
        name = s.split(':', 1)[1]
        for i, p in enumerate(self.f['ps']):
            if p['n'] == name:
                return self.K.param(self.f, i, self.mode)
        return set()

    def units(self, t):
        """the coordinate systems a value may be in; empty where it has none or is not known"""
        if not isinstance(t, tuple) or not t:
            return set()
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._units(t)
        return r

    def _units(self, t):
        k = t[0]
        if k == 'unit':
            return {t[1]} if t[1] else set()
        if k == 'sym':
            return self.of_sym(t[1])
        if k == 'ld':
            return self.of_loc(t[1])
        if k == 'phi':
            for x in t[1:]:
                if isinstance(x, tuple) and x and x[0] in ('fld', 'var', 'idx', 'at'):
                    return self.of_loc(x)
            return set()
        if k == 'cast':
            return self.units(t[-1])
        if k in ('min', 'max', 'ite'):
            r = set()
            for x in t[1 if k != 'ite' else 2:]:
                r |= self.units(x)
            return r
        if k == 'op' and t[1] in ('+', '-') and len(t) == 4:
            a, b = self.units(t[2]), self.units(t[3])
            if not a or not b:
                # a length taken from a plain number is no position
                return a or (b if t[1] == '+' else {u[0] + 'l' for u in b})
            cs = coords(a) & coords(b)
            ka, kb = {u[1] for u in a}, {u[1] for u in b}
            if t[1] == '-':
                kind = 'l' if ka == kb else 'p'
            else:
                kind = 'p' if 'p' in ka | kb else 'l'
            return {c + kind for c in cs}
        if k == 'op' and t[1] in ('&', '|') and len(t) == 4:
            return set()
        return set()

    # ---------------------------------------------------------------- reports
    def alarm(self, I, node, text):
        if not I.silent:
            self.alarms.setdefault((node_where(self.P, node) if node else self.P.where(self.f), text), I.path())

    def sink(self, I, node, val, want, what):
        """a value is handed to something that expects the coordinate system `want`"""
        if val is None or not want:
            return
        if not I.silent:
            self.sinks.add((node.get('fid'), node.get('nid'), what))
        us = self.units(val)
        wrong = coords(us) - coords(want)
        if wrong and len(coords(want)) == 1:
            c, w = wrong.pop(), next(iter(coords(want)))
            self.alarm(I, node, f'{what} takes a {WORD[w]} file position or length and is given a {WORD[c]} one')
        if not us and val[0] == 'sym' and len(want) == 1:
            self.demands.setdefault(val[1], set()).update(want)

    # ---------------------------------------------------------------- hooks
    def call_mode(self, I, st, fn, vs):
        for p, v in zip(fn['ps'], vs):
            if p['t'].startswith('E:') and 'OffsetMode' in p['t']:
                return self.K.modeof.get(I.val_of(st, v), '?')
        return None

    def on_call(self, I, st, n, qn, obj, vs):
        K = self.K
        if qn in K.conv:
            x, y = K.conv[qn]
            v = I.val_of(st, vs[0])
            self.sink(I, n, v, {x + 'p'}, qn.split("::")[-1])
            kinds = {u[1] for u in self.units(v)} or {'p'}
            st, r = I.fresh(st, n, ty='u64')
            return [(st, ('unit', y + ('l' if kinds == {'l'} else 'p'), ('l2p' if y == 'P' else 'p2l', v)))]
        base = qn.split('::')[-1]
        if base in ('lseek64', 'lseek', '_lseeki64', 'pread', 'pwrite', 'ftruncate', 'ftruncate64', 'pread64', 'pwrite64'):
            i = {'lseek64': 0, 'lseek': 0}.get(base) if qn.startswith('e57::') else \
                (3 if base.startswith('p') else 1)
            if i is not None and i < len(vs):
                v = I.val_of(st, vs[i])
                if base.startswith('p') or 'trunc' in base or v[0] != 'c':
                    self.sink(I, n, v, {'Pp'}, base)
            if 'seek' in base:
                st, r = I.fresh(st, n, ty='u64')
                return [(st, ('unit', 'Pp', r))]
            return None
        f = self.P.fn.get(n.get('id'))
        if f is None or not (f.get('file') or '').startswith(('src/', 'include/')) and not K.mine(f):
            return None
        if self.inline(I, f, n):
            return None
        if K.text(f):
            st = self.text(I, st, n, f, vs)
        m = self.call_mode(I, st, f, vs)
        for i, (p, v) in enumerate(zip(f['ps'], vs)):
            if INT.match(p['t']) and m != '?':
                self.sink(I, n, I.val_of(st, v) if not p['t'].startswith('&') else None,
                          K.param(f, i, m), f'parameter "{p["n"]}" of {short(f)}')
        return None

    def text(self, I, st, n, f, vs):
        """a number written right behind the name of an attribute that holds a file position"""
        key = ('gvar', '#text')
        v = I.val_of(st, vs[0]) if vs else None
        t = f['ps'][0]['t'] if f['ps'] else ''
        st = st.cp()
        if INT.match(t):
            last = st.heap.get(key)
            if last is not None and last[0] == 's':
                w = re.search(r'(\w+)="$', last[1])
                u = named(w.group(1)) if w else None
                if u:
                    self.sink(I, n, v, {u}, f'attribute "{w.group(1)}" of the XML section')
            st.heap[key] = ('s', '')
        else:
            s = [x for x in subterms(v) if x[0] == 's'] if isinstance(v, tuple) else []
            st.heap[key] = ('s', s[-1][1]) if s else ('s', '')
        return st

    def after_call(self, I, st, n, qn, obj, args, val):
        return st

    def result(self, I, st, n, vs):
        f = self.P.fn.get(n.get('id'))
        if f is None or not INT.match(f['ret'] or ''):
            return None
        return self.K.ret(f, self.call_mode(I, st, f, vs))

    def on_store(self, I, st, loc, val, node):
        if not isinstance(val, tuple) or node is None:
            return st
        if loc[0] in ('fld', 'idx') or (loc[0] == 'at' and loc[1][0] == 'sym'):
            us = self.of_loc(loc)
            name = loc[2] if loc[0] == 'fld' else (loc[1][1].split(':')[-1] if loc[0] == 'at' else 'element')
            if us:
                self.sink(I, node, val, us, f'"{name}"')
                v = val
                while v[0] == 'cast':
                    v = v[-1]
                if not self.units(v) and v[0] in ('v', 'pc', 'm'):
                    # what was read from outside is what it is kept as
                    self.memo[v] = set(us)
                    self.memo.pop(val, None) if v is not val else None
            elif loc[0] == 'fld':
                key = self.K.field(loc)
                if key:
                    self.stores.setdefault(key, []).append(frozenset(self.units(val)) if val[0] not in ('c',) else None)
        return st

    def on_arith(self, I, st, node, op, a, b):
        if op.rstrip('=') in ('+', '-'):
            x, y = self.units(a), self.units(b)
            if x and y and not coords(x) & coords(y):
                self.alarm(I, node, 'a logical and a physical file position or length are added or subtracted')
        return None

    def on_branch(self, I, st, node, cond):
        for t in subterms(cond):
            if t[0] in CMP and len(t) >= 3 and isinstance(t[1], tuple) and isinstance(t[2], tuple):
                x, y = self.units(t[1]), self.units(t[2])
                if x and y:
                    if not I.silent:
                        self.sinks.add((node.get('fid'), node.get('nid'), 'comparison'))
                    if not coords(x) & coords(y) and {u[1] for u in x | y} == {'p'}:
                        self.alarm(I, node, 'a logical and a physical file position are compared')
        return None

    def on_return(self, I, st, node, fn, val):
        return st


class Kinds:
    """what is known, for the whole program, of the coordinate systems of parameters, results and fields"""

    def __init__(self, P):
        self.P = P
        es = P.enum.get(CF + '::OffsetMode', {'es': []})['es']
        modes = {x['n']: int(x['v']) for x in es}
        if not {'Logical', 'Physical'} <= set(modes):
            raise Broken('CheckedFile::OffsetMode not found')
        self.modes = modes
        self.modeof = {C(modes['Logical']): 'L', C(modes['Physical']): 'P'}
        self.params, self.rets, self.fields = {}, {}, {}
        self.conv = conversions(P)
        owners = {}
        for r in P.rec.values():
            if r['qn'].startswith('e57::'):
                for x in r.get('fs', ()):
                    if INT.match(x['t']):
                        owners.setdefault(x['n'], set()).add(r['qn'])
        self.owner = {n: next(iter(q)) for n, q in owners.items() if len(q) == 1}

    def mine(self, f):
        return f['qn'].startswith('e57::') and bool(f.get('body'))

    def moded(self, f):
        return any(p['t'].startswith('E:') and 'OffsetMode' in p['t'] for p in f['ps'])

    def field(self, loc):
        o = self.owner.get(loc[2])
        return (o, loc[2]) if o else None

    def param(self, f, i, mode=None):
        p = f['ps'][i]
        if not INT.match(p['t']):
            return set()
        u = named(p['n'])
        if u:
            return {u}
        if mode in ('L', 'P') and not p['t'].startswith('&') and f.get('cls') == CF and self.moded(f):
            return {mode + 'p'}
        return self.params.get((f['id'], p['n']), set())

    def ret(self, f, mode=None):
        if mode in ('L', 'P') and f.get('cls') == CF and self.moded(f):
            return mode + 'p'
        return self.rets.get(f['id'])

    def text(self, f):
        return f.get('cls') == CF and f['n'] == 'operator<<'


class Run(Units):
    """gives results of calls their coordinate system"""

    def on_call(self, I, st, n, qn, obj, vs):
        r = Units.on_call(self, I, st, n, qn, obj, vs)
        if r is not None:
            return r
        f = self.P.fn.get(n.get('id'))
        if f is None or not self.K.mine(f) or self.inline(I, f, n):
            return None
        if self.K.text(f):
            return [(self.text(I, st, n, f, vs), obj)]
        return None

    def after_call(self, I, st, n, qn, obj, args, val):
        u = self.result(I, st, n, args)
        if u and isinstance(val, tuple):
            self.memo[val] = {u}
        return st


def scope(P, K):
    """the functions in which a position occurs"""
    out = []
    for f in P.project_fns(True):
        if f.get('imp') or not f.get('body') or f['qn'] in K.conv:
            continue
        names = [p['n'] for p in f['ps']]
        hit = any(named(x) for x in names) or K.moded(f)
        if not hit:
            for n in fn_nodes(f):
                if n.get('k') in ('call', 'mcall', 'ctor', 'opcall'):
                    g = P.fn.get(n.get('id'))
                    if g is not None and (any(INT.match(p['t']) and (named(p['n']) or (g['id'], p['n']) in K.params)
                                              for p in g['ps']) or
                                          K.moded(g) or g['id'] in K.rets or 'lseek' in g['qn'] or
                                          g['qn'] in K.conv):
                        hit = True
                        break
                if n.get('k') == 'mem' and named(n.get('n')):
                    hit = True
                    break
        if hit:
            out.append(f)
    return out


def analyse(P, K, f):
    """-> (alarms, sinks, demands on parameters, stores into fields, results)"""
    al, sinks, dem, stores, rets, nfn, err = {}, set(), {}, [], [], 0, None
    for mode in (('L', 'P') if f.get('cls') == CF and K.moded(f) else (None,)):
        R = Run(K, f, mode)
        I = Interp(P, R, maxdepth=6)
        args = None
        if mode:
            args = []
            for p in f['ps']:
                if p['t'].startswith('E:') and 'OffsetMode' in p['t']:
                    args.append(C(K.modes['Logical' if mode == 'L' else 'Physical']))
                elif p['t'].startswith('&'):
                    args.append(('refto', ('at', ('sym', 'ref:' + p['n']))))
                else:
                    args.append(('sym', 'arg:' + p['n']))
                    TYPES[args[-1]] = p['t']
        outs, ex = I.run(f, args=args)
        if INT.match(f['ret'] or ''):
            for s, v in outs:
                v = I.val_of(s, v) if isinstance(v, tuple) else v
                us = R.units(v) if isinstance(v, tuple) else set()
                if mode:
                    if coords(us) - {mode}:
                        R.alarms.setdefault((P.where(f), f'{short(f)} is asked for a {WORD[mode]} file position or length '
                                             f'and returns a {WORD["LP".replace(mode, "")]} one'), ())
                    R.sinks.add((f['id'], 0, 'result ' + mode))
                elif v is not None and v[0] != 'c':
                    rets.append(frozenset(us))
        al.update(R.alarms)
        sinks |= R.sinks
        for k, v in R.demands.items():
            dem.setdefault(k, set()).update(v)
        stores += [(k, x) for k, xs in R.stores.items() for x in xs]
    return al, sinks, dem, stores, rets


def learn(P, K, fs, results):
    """what the functions show of parameters, fields and results that carry no telling name"""
    changed = False
    by = {}
    for f, (al, sinks, dem, stores, rets) in zip(fs, results):
        for s, us in dem.items():
            name = s.split(':', 1)[-1]
            if s.startswith('arg:') and len(coords(us)) == 1 and not K.moded(f):
                key = (f['id'], name)
                if key not in K.params:
                    K.params[key] = {next(iter(us))}
                    changed = True
        for k, u in stores:
            by.setdefault(k, []).append(u)
        if rets and all(len(coords(u)) == 1 for u in rets) and len(set().union(*map(coords, rets))) == 1 and \
                f['id'] not in K.rets and f['qn'] != CF + '::lseek64':
            K.rets[f['id']] = sorted(rets[0])[0]
            changed = True
    for k, xs in by.items():
        xs = [x for x in xs if x is not None]
        if xs and all(x for x in xs) and len(set().union(*map(coords, xs))) == 1 and k not in K.fields:
            K.fields[k] = set(sorted(xs[0])[:1])
            changed = True
    return changed


def points():
    for q in (0, 1, 2, 3, 7, 1000, (1 << 32) // PAGE, (1 << 40) + 5):
        for r in (0, 1, 2, 3, 4, 5, 255, 256, 509, 510, 511, 512, 764, 1000, 1015, 1016, 1017, 1018, 1019):
            yield q, r


class Plain(Rule):
    unroll = 64


def value(P, f, x):
    I, outs = outcomes(P, Plain(), f, args=[C(x)])
    got = [o.value for o in outs if o.kind == 'return']
    if any(o.kind == 'throw' for o in outs):
        return None
    if len(got) != 1 or got[0] is None or got[0][0] != 'c':
        return '?'
    return int(got[0][1])


def conversions(P):
    """the functions that convert one coordinate system into the other -> (from, to)"""
    out = {}
    for f in P.fn.values():
        if f.get('cls') != CF or len(f['ps']) != 1 or not INT.match(f['ps'][0]['t']) or not INT.match(f['ret'] or '') or not f.get('body'):
            continue
        n = f['n'].lower()
        u = named(f['ps'][0]['n'])
        if n.endswith('logicaltophysical') or n.endswith('physicaltological'):
            out[f['qn']] = 'LP' if n.endswith('physical') else 'PL'
        elif f.get('static') or u:
            a, b = value(P, f, 3 * DATA + 7), value(P, f, 3 * PAGE + 7)
            if a == 3 * PAGE + 7:
                out[f['qn']] = 'LP'
            elif b == 3 * DATA + 7:
                out[f['qn']] = 'PL'
            elif u and isinstance(a, int):
                out[f['qn']] = 'LP' if u[0] == 'L' else 'PL'
    if set(out.values()) != {'LP', 'PL'}:
        raise Broken('the conversions between logical and physical positions were not found')
    return out


def exact(P, c, conv):
    """the two conversions, value by value through the function's arithmetic"""
    for qn, way in sorted(conv.items()):
        name = qn.split('::')[-1]
        for f in P.fns(qn):
            c.used(f)
            bad = None
            for q, r in points():
                x, want = (q * DATA + r, q * PAGE + r)
                if way == 'PL':
                    x, want = want, x
                got = value(P, f, x)
                if got == '?':
                    continue
                c.instance('conversion', '%s(%d)' % (name, x))
                if got != want and not bad:
                    bad = '%s(%d) is %s and not %d' % (name, x, 'refused' if got is None else got, want)
            if bad:
                c.report('conversion', name, P.where(f),
                         f'{bad}: a page has {PAGE} bytes, the last {PAGE - DATA} of them its checksum')


def p04(c):
    """Every position and length is given a coordinate system (logical or physical) from its declaration, from the
    conversion functions, from CheckedFile's offset modes and from the system calls, and followed through each function;
    parameters, fields and results without a telling name get theirs from how they are used.  Reported are a value that
    reaches a parameter, field, file operation or XML attribute of the other system, a comparison or sum of the two, and
    a conversion that does not skip exactly the four checksum bytes of each page."""
    P = c.P
    K = Kinds(P)
    for rounds in range(4):
        fs = scope(P, K)
        results = [r or ({}, set(), {}, [], []) for r in c.each(fs, lambda c, f: analyse(P, K, f))]
        if not learn(P, K, fs, results):
            break
    for f, (al, sinks, dem, stores, rets) in zip(fs, results):
        c.used(f)
        for s in sorted(sinks, key=repr):
            c.instance('coordinates', '%s in %s (%s)' % (s[2], f['qn'], s[1]))
        for (where, text), path in al.items():
            c.report('coordinates', '%s:%s' % (f['qn'], text.replace(' ', '-')), where, f'{text} (in {short(f)})', path)
    exact(P, c, K.conv)
    c.floor('coordinates', 20)
    c.floor('conversion', 40)
