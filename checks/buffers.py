"""Transfers between user buffers and the library."""
import math
import struct

from vlib.tools import *
from .nodes import accessor

SDB = 'e57::SourceDestBufferImpl'
BASE, STRINGS = ('sym', 'base'), ('sym', 'strings')
NEXT, CAP, STRIDE = ('sym', 'next'), ('sym', 'capacity'), ('sym', 'stride')
TYPES[NEXT], TYPES[CAP], TYPES[STRIDE] = 'u32', 'u64', 'u64'
TYPES[BASE], TYPES[STRINGS] = '*i8', '*R:std::vector<std::string>'
INTS = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1),
        'i64': (-2 ** 63, 2 ** 63 - 1)}
SIZE = {'i8': 1, 'u8': 1, 'b': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}
REPS = {'Int8': 'i8', 'UInt8': 'u8', 'Int16': 'i16', 'UInt16': 'u16', 'Int32': 'i32', 'UInt32': 'u32', 'Int64': 'i64', 'Bool': 'b', 'Real32': 'f32',
        'Real64': 'f64', 'UString': 's'}
FLT_MAX = struct.unpack('<f', b'\xff\xff\x7f\x7f')[0]


def reps(P):
    """representation -> (enumerator value, element type)"""
    out = {}
    for e in P.enum['e57::MemoryRepresentation']['es']:
        if e['n'] in REPS:
            out[e['n']] = (int(e['v']), REPS[e['n']])
    if len(out) != len(REPS):
        raise Broken('the memory representations are not those of the documentation')
    return out


def members(P):
    m = {k: accessor(P, SDB + '::' + k) for k in ('nextIndex', 'capacity', 'stride', 'doConversion', 'doScaling', 'memoryRepresentation', 'base', 'ustrings')}
    if None in m.values() or len(set(m.values())) != len(m):
        raise Broken('the accessors of a buffer do not return its members')
    return m


def clean(t):
    return t.lstrip('&').replace('c:', '')


def transfers(P, m):
    """the operations of a buffer that move one value: (function, 'get' or 'set', type, scaled?)"""
    out = []
    for f in P.fn.values():
        if f.get('cls') != SDB or f['kind'] != 'method' or f['body'] is None or f.get('static'):
            continue
        if not any(P.fn[x].get('cls') != SDB for x in callers(P).get(f['id'], ()) if x in P.fn):
            continue
        if not any(x == m['nextIndex'] for x in written(P, f)):
            continue
        ts = [clean(p['t']) for p in f['ps']]
        ret = clean(f['ret'])
        if ret != 'v' and len(ts) in (0, 2):
            out.append((f, 'get', ret, len(ts) == 2))
        elif ret == 'v' and len(ts) in (1, 3):
            out.append((f, 'set', ts[0], len(ts) == 3))
    return out


def written(P, f):
    """names of the members of a buffer a function may assign, directly or in the functions it calls"""
    out = set()
    for g in ModSets.of(P).closure(f['id']):
        if g in P.fn and P.fn[g].get('cls') == SDB:
            for n in fn_nodes(P.fn[g]):
                if n['k'] in ('un', 'bin', 'asg', 'inc', 'assign') or 'op' in n:
                    for x in walk(n):
                        if x['k'] in ('mem', 'member', 'fld') and x.get('n'):
                            out.add(x['n'])
    return out


def kind(t):
    return 'int' if t in INTS else 'bool' if t == 'b' else 'real' if t in ('f32', 'f64') else 'text'


def offset_of(loc):
    """distance of a location from the start of the user's memory: ('base'|'strings', term), or None when it lies elsewhere"""
    if loc[0] == 'idx':
        r = offset_of(loc[1])
        return r and (r[0], loc[2] if r[1] == C0 else arith('+', r[1], loc[2]))
    if loc[0] == 'fld':
        return None
    if loc[0] == 'at':
        return pointer(loc[1])
    return None


def pointer(v):
    if v == BASE:
        return ('base', C0)
    if v == STRINGS:
        return ('strings', C0)
    if v[0] == 'addr':
        return offset_of(v[1])
    if v[0] == 'cast' and v[3] is not None:
        return pointer(v[3])
    if v[0] == 'op' and v[1] == '+':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            r = pointer(a)
            if r:
                return (r[0], b if r[1] == C0 else arith('+', r[1], b))
    if v[0] == 'it' and v[1] == ('at', STRINGS):
        return ('strings', v[2])
    return None


class Access(Rule):
    """notes every access to the user's memory"""

    def __init__(self, P, m, rep, conv, scaling, mem=None, nxt=NEXT, cap=CAP):
        self.P, self.mem = P, mem
        this = ('at', ('this', SDB, True))
        self.fixed = {('fld', this, m['memoryRepresentation']): C(rep), ('fld', this, m['nextIndex']): nxt, ('fld', this, m['capacity']): cap,
                      ('fld', this, m['stride']): STRIDE, ('fld', this, m['base']): BASE if rep != 11 else C0,
                      ('fld', this, m['ustrings']): STRINGS if rep == 11 else C0}
        if conv is not None:
            self.fixed[('fld', this, m['doConversion'])] = C(int(conv))
        if scaling is not None:
            self.fixed[('fld', this, m['doScaling'])] = C(int(scaling))
        self.hits = []          # (node, 'load'|'store', state, base, offset, type, value, path)

    def initial(self, I, loc, ep):
        v = self.fixed.get(loc)
        if v is None and self.mem is not None and offset_of(loc):
            v = self.mem
        return v

    def note(self, I, st, n, what, loc, t, val):
        r = offset_of(loc)
        if r and not I.silent:
            self.hits.append((n, what, st, r[0], r[1], t, val, I.path()))
        return st.tag(('user', what)) if r else st

    def on_load(self, I, st, loc, n):
        return self.note(I, st, n, 'load', loc, clean(n.get('t', '')), None)

    def on_store(self, I, st, loc, val, n):
        return self.note(I, st, n, 'store', loc, clean(n.get('t', '')), val)

    def on_call(self, I, st, n, qn, obj, vs):
        if strip_tmpl(qn).split('::')[-1] in ('memcpy', 'memmove', '__builtin_memcpy') and len(vs) == 3:
            d, s, k = [I.val_of(st, v) for v in vs]
            size = k[1] if k[0] == 'c' else None
            t = {1: 'w1', 2: 'w2', 4: 'w4', 8: 'w8'}.get(size, 'w?')
            if pointer(s):
                st = self.note(I, st, n, 'load', ('at', s), t, None)
                if d[0] == 'addr':
                    st = I.store(st, d[1], self.mem if self.mem is not None else ('ld', ('at', s), None), n)
                    st = st[0] if isinstance(st, list) else st
                return [(st, d)]
            if pointer(d):
                v = I.load(st, s[1]) if s[0] == 'addr' else None
                return [(self.note(I, st, n, 'store', ('at', d), t, v), d)]
        return None


def width_ok(t, elem):
    if t.startswith('w'):
        return t == 'w%d' % SIZE[elem]
    if elem == 's':
        return True
    return t == elem or {t, elem} <= {'i8', 'ch'} or t not in SIZE


def p20(c):
    """Every operation that moves a value between a buffer and the library is analysed for every memory representation: with the position at
    or beyond the capacity it must raise an error without touching the user's memory; below it, the only memory touched is the element
    at position times stride, accessed as the declared type, and the position advances by one exactly when the operation succeeds.
    The public constructors pass pointer, capacity, stride and flags on unchanged and register the type of the pointer. A writer refuses
    to take more records than the buffers hold. Encoders and decoders never ask for more values than they were told to."""
    P = c.P
    m = members(P)
    R = reps(P)
    ops = transfers(P, m)
    todo = [(f['id'], how, t, sc, r) for f, how, t, sc in ops for r in R]

    def one(c, item):
        fid, how, t, sc, rep = item
        f = P.fn[fid]
        ev, elem = R[rep]
        name = '%s %s' % (short(f), rep)
        args = arguments(f, sc)
        w = P.where(f)
        c.instance('beyond', name)
        r = Access(P, m, ev, None, None)
        st = State().assume(cmp_('>=', NEXT, CAP))
        I, outs = outcomes(P, r, f, this=('this', SDB, True), args=args, st=st, cls=SDB)
        c.used(I.stats['fns'])
        if any(o.kind == 'return' for o in outs):
            c.report('beyond', name, w, '%s can complete although the buffer (%s) has no room or value left' % (f['qn'], rep))
        if r.hits:
            c.report('beyond', name + '/access', node_where(P, r.hits[0][0]), '%s accesses the user\'s memory (%s) beyond the capacity' % (f['qn'], rep),
                     r.hits[0][7])
        c.instance('inside', name)
        r = Access(P, m, ev, True, None)
        st = State().assume(cmp_('<', NEXT, CAP))
        if sc:
            st = st.assume(('ne', args[-2], ('fc', 0.0)))
        I, outs = outcomes(P, r, f, this=('this', SDB, True), args=args, st=st, cls=SDB)
        pos = ('fld', ('at', ('this', SDB, True)), m['nextIndex'])
        for n, what, s, base, off, at, val, path in r.hits:
            want = NEXT if base == 'strings' else arith('*', NEXT, STRIDE)
            if not same(s, off, want):
                c.report('inside', name + '/position', node_where(P, n), '%s (%s) accesses another place than the element at the current position' % (f['qn'], rep), path)
            if (base == 'strings') != (elem == 's') or elem != 's' and not width_ok(at, elem):
                c.report('inside', name + '/type', node_where(P, n), '%s accesses memory declared as %s as a different type' % (f['qn'], rep), path)
            if what == 'store' and how == 'get':
                c.report('inside', name + '/direction', node_where(P, n), '%s %ss the user\'s memory' % (f['qn'], what), path)
        for o in outs:
            p = I.load(o.st, pos)
            if o.kind == 'return':
                if not same(o.st, p, arith('+', NEXT, C1)):
                    c.report('inside', name + '/advance', w, '%s (%s) can complete without advancing to exactly the next element' % (f['qn'], rep))
                if ('user', 'store' if how == 'set' else 'load') not in o.st.tags:
                    c.report('inside', name + '/idle', w, '%s (%s) can complete without accessing the element' % (f['qn'], rep))
            elif not same(o.st, p, NEXT):
                c.report('inside', name + '/failed', w, '%s (%s) advances the position although it fails' % (f['qn'], rep))
    c.each(todo, one)
    c.floor('beyond', 100)
    c.floor('inside', 100)
    registration(c, P, m, R)
    counts(c, P, m)


def same(st, a, b):
    return a == b or a is not None and st.ent(cmp_('==', a, b))


def arguments(f, scaled):
    out = []
    for p in f['ps']:
        t = clean(p['t'])
        if t in SIZE:
            v = ('sym', 'arg:' + p['n'])
            TYPES[v] = t
            out.append(v)
        else:
            out.append(('refto', ('at', ('sym', 'ref:' + p['n']))) if p['t'].startswith('&') else ('rec', ('at', ('sym', 'val:' + p['n']))))
    return out


def registration(c, P, m, R):
    """what the public constructors of a buffer record"""
    back = {v[1]: k for k, v in R.items()}
    ctors = [f for f in P.fn.values() if f.get('cls') == 'e57::SourceDestBuffer' and f['kind'] == 'ctor' and f['body'] is not None and not f['imp'] and len(f['ps']) >= 3]

    class Open(Rule):
        def on_call(self, I, st, n, qn, obj, vs):
            if qn.endswith('pathNameCheckWellFormed') or qn.endswith('::isOpen'):
                return [(st, C1)]

    for f in sorted(ctors, key=short):
        ptr = [p for p in f['ps'] if clean(p['t']).startswith('*')]
        if len(ptr) != 1:
            continue
        elem = clean(ptr[0]['t'])[1:]
        elem = elem if elem in SIZE else 's'
        name = short(f)
        c.instance('registration', name)
        if elem not in back:
            c.report('registration', name, P.where(f), 'a buffer of %s has no representation' % elem)
            continue
        args, b = [], {}
        for p in f['ps']:
            t = clean(p['t'])
            if t in SIZE or t.startswith('*'):
                v = ('sym', 'arg:' + p['n'])
                TYPES[v] = t
                args.append(v)
                b[p['n']] = (v, t)
            else:
                args.append(('refto', ('at', ('sym', 'ref:' + p['n']))) if p['t'].startswith('&') else ('rec', ('at', ('sym', 'val:' + p['n']))))
        this = ('this', 'e57::SourceDestBuffer', True)
        I, outs = outcomes(P, Open(), f, this=this, args=args, st=State(), cls='e57::SourceDestBuffer')
        c.used(I.stats['fns'])
        done = [o for o in outs if o.kind == 'return']
        if not done:
            c.report('registration', name, P.where(f), 'a buffer of %s cannot be made' % elem)
        bools = [v for v, t in b.values() if t == 'b']
        sizes = [v for v, t in b.values() if t == 'u64']
        p0 = ('sym', 'arg:' + ptr[0]['n'])
        for o in done:
            impl = None
            for loc, v in o.st.heap.items():
                if loc[0] == 'fld' and loc[2] == m['memoryRepresentation']:
                    impl = loc[1]
            if impl is None:
                continue

            def get(k):
                return I.load(o.st, ('fld', impl, m[k]))
            want = {'memoryRepresentation': C(R[back[elem]][0]), ('ustrings' if elem == 's' else 'base'): p0}
            if len(bools) == 2:
                want['doConversion'], want['doScaling'] = bools
            if len(sizes) == 2:
                want['capacity'], want['stride'] = sizes
            want['nextIndex'] = C0
            for k, v in want.items():
                x = get(k)
                if x is not None and x[0] == 'cast' and k == 'base':
                    x = x[3]
                if x is not None and not same(o.st, x, v):
                    c.report('registration', '%s/%s' % (name, k), P.where(f), 'the %s of a buffer of %s is not what the constructor was given' % (k, elem if elem != 's' else 'strings'))
    c.floor('registration', 11)


def counts(c, P, m):
    """how many values are moved"""
    W = 'e57::CompressedVectorWriterImpl'
    ops = {f['id'] for f, how, t, sc in transfers(P, m)}
    # ---- a writer told to take more records than the buffers hold
    wr = [f for f in P.fns(W + '::write') if len(f['ps']) == 1 and clean(f['ps'][0]['t']) == 'u64' and f['body'] is not None]
    if not wr:
        raise Broken('the write function of the record writer was not found')
    for f in wr:
        c.instance('request', short(f))

        class Ask(Rule):
            used = False

            def inline(self, I, fn, node):
                return fn.get('cls') in (W, 'e57::SourceDestBuffer', SDB)

            def initial(self, I, loc, ep):
                if loc[0] == 'fld' and loc[2] == m['capacity']:
                    return CAP

            def on_call(self, I, st, n, qn, obj, vs):
                if qn.endswith('Encoder::processRecords'):
                    Ask.used = True
                if n.get('n') == 'size' and n['k'] == 'mcall':
                    return [(st, C1)]
        x = ('sym', 'arg:' + f['ps'][0]['n'])
        TYPES[x] = 'u64'
        I, outs = outcomes(P, Ask(), f, this=('this', W, True), args=[x], st=State().assume(cmp_('>', x, CAP)), cls=W)
        c.used(I.stats['fns'])
        if any(o.kind == 'return' for o in outs) or Ask.used:
            c.report('request', 'writer', P.where(f), '%s does not refuse to write more records than the buffers hold' % f['qn'])
        elif not any(o.code == 'ErrorBadAPIArgument' for o in outs):
            c.report('request', 'writer', P.where(f), '%s does not raise the bad-argument error for more records than the buffers hold' % f['qn'])

    # ---- encoders take, and decoders give, at most what they were told
    class Count(Rule):
        def __init__(self, fixed):
            self.fixed = fixed
            self.most = 0

        unroll = 6
        fork = True

        def initial(self, I, loc, ep):
            if loc[0] == 'fld':
                return self.fixed.get(loc[2])

        def inline(self, I, fn, node):
            return fn['id'] not in ops

        def on_call(self, I, st, n, qn, obj, vs):
            if n.get('id') in ops:
                k = max([t[1] for t in st.tags if t[0] == 'moved'], default=0)
                if not I.silent:
                    self.most = max(self.most, k + 1)
                st = st.untag(('moved', k)).tag(('moved', min(k + 1, 9)))
                return [(st, I.fresh(st, n, ty=n.get('t')))]
    for cls in sorted(x for x in P.rec if 'e57::Encoder' in P.bases(x) and not P.rec[x].get('abs')):
        for f in P.fns(cls + '::processRecords'):
            if f['body'] is None:
                continue
            for k in (0, 1, 2):
                name = '%s %d' % (short(f), k)
                c.instance('encoder', name)
                r = Count({})
                I, outs = outcomes(P, r, f, this=('this', cls, True), args=[C(k)], cls=cls)
                c.used(I.stats['fns'])
                if k < r.most < 9:          # (9: the number of rounds of the loop was not decided)
                    c.report('encoder', name, P.where(f), '%s can take %d values from the buffer when told to take %d' % (f['qn'], r.most, k))
    c.floor('encoder', 18)


NARROW = {'ErrorValueNotRepresentable', 'ErrorScaledValueNotRepresentable', 'ErrorReal64TooLarge'}


def number(v):
    """the value of a constant term, or None"""
    if v is None:
        return None
    k = v[0]
    if k == 'c':
        return v[1]
    if k == 'fc':
        return v[1]
    if k in ('t', 'f') or v in (True, False):
        return None
    if k == 'f2i':
        x = number(v[2])
        return None if x is None or not math.isfinite(x) else int(x)
    if k in ('i2f', 'f2f'):
        x = number(v[2])
        if x is None:
            return None
        return to_f32(float(x)) if v[1] == 'f32' else float(x)
    if k == 'cast':
        x = number(v[3])
        return None if x is None else wrap(int(x), v[1]) if v[1] in INTS or v[1] == 'u64' else int(bool(x)) if v[1] == 'b' else x
    if k == 'ite':
        x = number(v[1])
        return None if x is None else number(v[2] if x else v[3])
    if k == 'ne':
        a, b = number(v[1]), number(v[2])
        return None if a is None or b is None else int(a != b)
    if k == 'm' and v[1] == 'floor' and len(v) > 2:
        x = number(v[2])
        return None if x is None else math.floor(x)
    if k == 'fop':
        a, b = number(v[2]), number(v[3])
        if a is None or b is None:
            return None
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[v[1]]()
        except (KeyError, ZeroDivisionError, OverflowError):
            return None
    return None


def to_f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def samples(src, dst, scaled):
    """(value, fits) pairs for moving a value of type src into type dst; values exact in src, and in f64 when scaled"""
    out = []
    if dst == 'b':
        return [(0, True), (1, True)] + ([(5, True)] if src != 'b' else [])
    if src == 'b':
        return [(0, True), (1, True)]
    if dst in INTS:
        lo, hi = INTS[dst]
        xs = [lo, hi, lo - 1, hi + 1, 0, 1, min(100, hi), max(lo, -3)]
        if src in ('f32', 'f64'):
            xs += [2.0 ** 63, -2.0 ** 63, -(2.0 ** 63 + 2 ** 11 if src == 'f64' else 2.0 ** 63 + 2 ** 40), 1e30, -1e30, 2.0 ** 31, 2.0 ** 32, 2.0 ** 40]
        else:
            xs += [INTS['i64'][0], INTS['i64'][1], 2 ** 40, 2 ** 31, 2 ** 32, 2 ** 32 + 5]
        for x in xs:
            if src in INTS:
                if not INTS[src][0] <= x <= INTS[src][1] or scaled and abs(x) > 2 ** 53:
                    continue
            else:
                y = float(x)
                y = to_f32(y) if src == 'f32' else y
                if y != x:
                    continue
            if (x, lo <= x <= hi) not in out:
                out.append((x, lo <= x <= hi))
        return out
    if dst == 'f32' and src == 'f64':
        return [(1e39, False), (-1e39, False), (1e300, False), (-1e300, False), (0.0, True), (1.5, True), (-2.0, True), (3e38, True), (-3e38, True)]
    if src in INTS:
        lo, hi = INTS[src]
        return [(x, True) for x in (0, 1, lo, hi) if lo <= x <= hi]
    return [(0.0, True), (1.5, True), (-2.0, True)]


def const(x, t):
    return ('fc', float(x)) if t in ('f32', 'f64') else C(int(x))


def p21(c):
    """Every operation that moves a value between a buffer and the library is analysed for every memory representation and both settings of
    the conversion flag. Text and numbers never mix: the operation must raise the documented error and touch nothing. Without conversion,
    an integer and a floating representation must not mix: the conversion-required error, and it must not be raised otherwise. With
    conversion, boundary values of every type just inside and just outside the range of the destination are followed through the operation:
    those outside must be refused and nothing stored, those inside must arrive with the same value; ranges as a whole are followed
    symbolically."""
    P = c.P
    m = members(P)
    R = reps(P)
    ops = transfers(P, m)
    todo = [(f['id'], how, t if t in SIZE else 's', sc, r) for f, how, t, sc in ops for r in R]
    this = ('this', SDB, True)
    free = State().assume(cmp_('<', NEXT, CAP))

    def run(f, st, args, *a, **kw):
        r = Access(P, m, *a, **kw)
        I, outs = outcomes(P, r, f, this=this, args=args, st=st, cls=SDB)
        return I, outs, r

    def one(c, item):
        fid, how, t, sc, rep = item
        f = P.fn[fid]
        ev, elem = R[rep]
        name = '%s %s' % (short(f), rep)
        w = P.where(f)
        args = arguments(f, sc)
        one_ = [('fc', 1.0), ('fc', 0.0)]
        if sc:
            args[-2:] = one_
        verb = 'reads' if how == 'get' else 'stores'
        # ---- text and numbers
        if (t == 's') != (elem == 's'):
            c.instance('text', name)
            I, outs, r = run(f, free, args, ev, None, None)
            c.used(I.stats['fns'])
            want = 'ErrorExpectingUString' if t == 's' else 'ErrorExpectingNumeric'
            if any(o.kind == 'return' for o in outs) or r.hits:
                c.report('text', name, w, '%s %s a %s value in a buffer of %s' % (f['qn'], verb, 'text' if t == 's' else 'numeric', rep))
            elif {o.code for o in outs} != {want}:
                c.report('text', name, w, '%s raises %s for a buffer of %s, not %s' % (f['qn'], sorted({str(o.code) for o in outs}), rep, want))
            return
        if t == 's':
            return
        for scaling in ((False, True) if sc else (None,)):
            tag = '' if scaling is None else ' scaled' if scaling else ' unscaled'
            # ---- conversion flag
            c.instance('flag', name + tag)
            kt, ke = kind(t), kind(elem)
            mixed = 'real' in (kt, ke) and kt != ke
            for conv in (False, True):
                I, outs, r = run(f, free, args, ev, conv, scaling)
                c.used(I.stats['fns'])
                req = any(o.code == 'ErrorConversionRequired' for o in outs)
                if mixed and not conv:
                    if any(o.kind == 'return' for o in outs) or any(h[1] == 'store' for h in r.hits):
                        c.report('flag', name + tag, w, '%s converts between %s and %s although conversion was not requested' % (f['qn'], t, rep))
                    elif not req:
                        c.report('flag', name + tag, w, '%s does not raise the conversion-required error (%s)' % (f['qn'], rep))
                elif req and (conv or ke != 'bool'):
                    c.report('flag', name + tag + '/needless', w, '%s raises the conversion-required error although %s (%s)' %
                             (f['qn'], 'conversion was requested' if conv else 'no conversion is needed', rep))
                if (conv or not mixed and ke != 'bool') and not any(o.kind == 'return' for o in outs):
                    c.report('flag', name + tag + '/impossible', w, '%s can never complete for a buffer of %s' % (f['qn'], rep))
            # ---- representable values
            src, dst = (elem, t) if how == 'get' else (t, elem)
            for x, fits in samples(src, dst, bool(scaling)):
                what = '%s%s %r' % (name, tag, x)
                c.instance('range', what)
                a = list(args)
                mem = None
                if how == 'get':
                    mem = const(x, src)
                else:
                    a[0] = const(x, src)
                I, outs, r = run(f, free, a, ev, True, scaling, mem=mem)
                rets = [o for o in outs if o.kind == 'return']
                if not fits:
                    if rets or any(h[1] == 'store' for h in r.hits):
                        c.report('range', what, w, '%s %s %r as %s although it does not fit' % (f['qn'], 'returns' if how == 'get' else verb, x, dst if how == 'get' else rep))
                    elif not any(o.code in NARROW for o in outs):
                        c.report('range', what, w, '%s raises %s for a value that does not fit' % (f['qn'], sorted({str(o.code) for o in outs})))
                    continue
                if not rets or any(o.kind == 'throw' for o in outs):
                    if decided(outs):
                        c.report('range', what, w, '%s refuses %r, which is representable' % (f['qn'], x))
                    continue
                got = [o.value for o in rets] if how == 'get' else [h[6] for h in r.hits if h[1] == 'store']
                for v in got:
                    y = number(v)
                    want = int(bool(x)) if dst == 'b' else to_f32(float(x)) if dst == 'f32' else x
                    y = to_f32(float(y)) if dst == 'f32' and y is not None else y
                    if y is not None and y != want and not (dst == 'f64' and src == 'i64'):
                        c.report('range', what + '/value', w, '%s turns %r into %r' % (f['qn'], x, y))
            # ---- whole ranges
            if how == 'set' and dst in INTS and dst != 'i64' and not scaling:
                lo, hi = INTS[dst]
                for side in ('above', 'below'):
                    c.instance('range', '%s%s %s' % (name, tag, side))
                    k = const(hi if side == 'above' else lo, src)
                    real = src not in INTS
                    fact = ('lt', k, args[0], real) if side == 'above' else ('lt', args[0], k, real)
                    if not real:
                        fact = cmp_('>', args[0], k) if side == 'above' else cmp_('<', args[0], k)
                    I, outs, r = run(f, free.assume(fact), args, ev, True, scaling)
                    if src == 'f32' and dst in ('i32', 'u32'):
                        continue        # the bounds are not exact in the source type
                    if any(o.kind == 'return' for o in outs):
                        c.report('range', '%s%s %s' % (name, tag, side), w, '%s can store a value %s the range of %s' % (f['qn'], side, rep))
    c.each(todo, one)
    c.floor('text', 18)
    c.floor('flag', 60)
    c.floor('range', 500)


def decided(outs):
    return len(outs) == 1
