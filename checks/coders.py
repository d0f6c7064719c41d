"""Encoders and decoders of record fields: bounds, agreement of the two sides, record counts."""
from vlib.tools import *
from .buffers import SDB, members, transfers, clean
from .trees import World, image_open, getters
from .nodes import accessor

M64 = (1 << 64) - 1
ENC, DEC = 'e57::Encoder', 'e57::Decoder'
WIDTH = {'i8': 8, 'u8': 8, 'c8': 8, 'b': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'f32': 32, 'f64': 64}
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


def roots(P):
    """the two functions that choose a coder for a field: static, returning a shared pointer to the base class"""
    out = []
    for cls in (ENC, DEC):
        fs = [f for f in P.fn.values() if f.get('cls') == cls and f.get('static') and 'shared_ptr<%s>' % cls in f['ret'] and f['body'] is not None]
        if len(fs) != 1:
            raise Broken('the factory of %s was not found' % cls)
        out.append(fs[0])
    return out


def implementation(P, cls, name):
    """the body a call of the virtual function `name` on an object of class cls runs"""
    for k in [cls] + list(P.bases(cls)):
        for f in P.fn.values():
            if f.get('cls') == k and f['n'] == name and f['body'] is not None and f['kind'] == 'method':
                return f
    raise Broken('%s has no %s' % (cls, name))


class Field(World):
    """one field of a prototype, with its constraints, seen by the factories and the coders they make"""
    unroll = 90
    fork = True

    def __init__(self, P, kind, attrs, values=(), room=0, stored=0):
        super().__init__()
        self.P = P
        self.fields, self.start = image_open(P)
        self.node = ('new', 'R:e57::%sNodeImpl' % kind, 'field')
        have = getters(P, 'e57::%sNodeImpl' % kind, list(attrs))
        for k, v in attrs.items():
            if k not in have:
                raise Broken('%sNodeImpl has no accessor %s' % (kind, k))
            self.vals[('fld', ('at', self.node), have[k][0])] = v
        m = members(P)
        self.ops = {f['id']: (d, t, s) for f, d, t, s in transfers(P, m)}
        self.next = m['nextIndex']
        self.fields[m['nextIndex']] = C0
        self.fields[m['capacity']] = C(room)
        self.fields[accessor(P, 'e57::CompressedVectorNodeImpl::getRecordCount') or 'recordCount_'] = C(stored)
        self.values = values        # what the source buffer delivers, in turn
        self.words = {}             # number of the word -> (value, type): the encoded stream
        self.mode = None
        self.gets, self.sets = [], []

    START = ('gvar', '#start')      # which byte of the stream is at the start of the input buffer
    lost = False

    def byte(self, v):
        """offset in the coder's buffer of the byte v points to"""
        if v is not None and v[0] == 'op' and v[1] == '+' and v[3][0] == 'c':
            k = self.byte(v[2])
            return C(k[1] + v[3][1]) if k and k[0] == 'c' else k
        if v is not None and v[0] in ('addr', 'refto'):
            return self.word(v[1])
        if v is not None and v[0] == 'it':
            return self.word(('idx', v[1], v[2]))
        return None

    def word(self, loc):
        """number of the word of the coder's byte buffer that loc is (None: something else)"""
        k = C0
        if loc[0] == 'idx':
            loc, k = loc[1], loc[2]
        if loc[0] == 'fld' and loc[1] == ('at', self.coder) and loc in self.sizes:
            return k
        return None

    def on_call(self, I, st, n, qn, obj, args):
        nm = n.get('n')
        if nm == 'get' and obj is not None and 'shared_ptr<e57::NodeImpl>' in n.get('t', ''):
            return [(st, self.node)]
        if nm in ('static_pointer_cast', 'dynamic_pointer_cast'):
            return [(st, I.val_of(st, args[0]))]
        if nm == 'isDefined':
            return [(st, C1)]
        op = self.ops.get(n.get('id'))
        if op:
            d, t, scaled = op
            vs = [I.val_of(st, a) for a in args]
            if d == 'get':
                i = st.heap.get(('gvar', '#taken'), C0)
                if i[0] != 'c' or i[1] >= len(self.values):
                    return []
                if not I.silent:
                    self.gets.append((i[1], t, tuple(vs), n))
                return [(I.store(st, ('gvar', '#taken'), C(i[1] + 1), n), self.values[i[1]])]
            i = st.heap.get(('gvar', '#given'), C0)
            k = i[1] if i[0] == 'c' else None
            if not I.silent:
                self.sets.append((k, vs[0], t, tuple(vs[1:]), n))
            self.buffer = obj
            at = ('fld', ('at', obj), self.next)
            now = I.load(st, at)
            st = I.store(st, at, C(now[1] + 1) if now[0] == 'c' else I.fresh(st, n), n)
            return [(I.store(st, ('gvar', '#given'), C(k + 1) if k is not None else I.fresh(st, n), n), None)]
        if self.mode == 'in' and not I.silent and n['k'] in ('call', 'mcall'):
            # pieces of the stream come into the buffer, or what is left over moves to its start
            at = [self.byte(I.val_of(st, a)) for a in args]
            if any(x is not None for x in at) and not (qn or '').startswith('e57::'):
                if nm == 'memmove' and at[0] == C0 and at[1] is not None and at[1][0] == 'c':
                    s = st.heap.get(self.START, C0)
                    return [(I.store(st, self.START, C(s[1] + at[1][1]), n), args[0])]
                if nm == 'copy' and at[2] == C0 and at[0] is not None and at[0][0] == 'c':
                    s = st.heap.get(self.START, C0)
                    return [(I.store(st, self.START, C(s[1] + at[0][1]), n), args[2])]
                if nm in ('memcpy', 'memmove', 'copy', 'copy_n') and at.count(None) == 2:
                    e = [x for x in at if x is not None][0]
                    if e == C0:
                        # nothing is left over: the piece starts the buffer
                        st = I.store(st, self.START, C(self.piece), n)
                        self.first = self.piece // self.size
                        self.lost |= self.piece % self.size != 0
                    return [(st, args[0])]
                if nm not in ('size', 'begin', 'data', 'empty', 'at', 'operator[]') and '::toString' not in (qn or ''):
                    self.lost = True
        return super().on_call(I, st, n, qn, obj, args)

    def on_store(self, I, st, loc, val, node):
        if self.mode in ('out', 'flush') and not I.silent:
            k = self.word(loc)
            if k is not None:
                if self.mode == 'flush':
                    k = C(len(self.words))
                self.words[k[1] if k[0] == 'c' else k] = (val, node.get('t', '').lstrip('&'))
        return st

    def initial(self, I, loc, ep):
        if self.mode == 'in':
            k = self.word(loc)
            if k is not None and k[0] == 'c':
                w = self.words.get(k[1] + self.first)
                return w[0] if w else ('sym', 'beyond')
        return super().initial(I, loc, ep)

    def on_load(self, I, st, loc, node):
        if self.mode == 'in' and self.word(loc) is not None:
            self.read.add(node.get('t', '').lstrip('&'))
        return st

    read = frozenset()

    # -- steps
    def make(self, which):
        """run a factory -> the coder made, and the state in which it is"""
        f = roots(self.P)[which]
        I, outs = outcomes(self.P, self, f, st=self.start)
        done = [o for o in outs if o.kind == 'return' and o.value is not None and o.value[0] == 'new']
        if len(done) != 1 or any(o.kind == 'return' for o in outs if o not in done):
            return f, None, outs
        self.coder = done[0].value
        st = done[0].st
        for k, v in list(st.heap.items()):
            if k[0] == 'fld' and k[1] == ('at', self.coder) and v[0] == 'ctor' and 'vector<char>' in v[1] and len(v) > 3 and v[3][0] == 'c':
                self.sizes[k] = v[3][1]
                st = st.cp()
                del st.heap[k]
        done[0].st = st
        return f, done[0], outs

    def call(self, o, name, args):
        f = implementation(self.P, self.coder[1][2:], name)
        I, outs = outcomes(self.P, self, f, this=self.coder, args=args, st=o.st)
        return f, outs

    def encode(self, o, n):
        self.mode = 'out'
        f, outs = self.call(o, 'processRecords', [C(n)])
        done = [x for x in outs if x.kind == 'return']
        return f, outs, done

    def flush(self, o):
        self.mode = 'flush'
        return self.call(o, 'registerFlushToOutput', [])

    def decode(self, o, sizes, word=1, piece=0):
        """run the decoder on the stream, in pieces of the given sizes"""
        self.mode, self.read = 'in', set()
        self.size, self.piece = word, piece
        done = [o]
        for i, n in enumerate(sizes):
            start = done[0].st.heap.get(self.START, C0)[1]
            self.first = start // word
            if start % word:
                self.lost = True
            # what is in the buffer is found through `words`, not through what was loaded earlier
            st = I_kill(self, done[0].st)
            f, outs = self.call(Outcome('return', None, None, st, None), 'inputProcess', [('addr', ('gvar', '#stream%d' % i)), C(n)])
            done = [x for x in outs if x.kind == 'return']
            self.piece += n
            if len(done) != 1:
                break
        return f, outs

    first = 0


def I_kill(r, st):
    gone = [k for k in st.heap if k[0] in ('idx', 'fld') and r.word(k) is not None]
    if gone:
        st = st.cp()
        for k in gone:
            del st.heap[k]
    return st


# ---------------------------------------------------------------- bits of a value
def offset(t):
    """t as record value + constant (mod 2^64) -> (number of the record, constant)"""
    if t[0] == 'sym' and str(t[1]).startswith('rec:'):
        return int(t[1][4:]), 0
    if t[0] == 'cast' and WIDTH.get(t[1]) == 64:
        return offset(t[3])
    if t[0] == 'op' and t[1] in '+-':
        a, b = t[2], t[3]
        if b[0] == 'c':
            x = offset(a)
            return x and (x[0], (x[1] + (b[1] if t[1] == '+' else -b[1])) & M64)
        if a[0] == 'c' and t[1] == '+':
            x = offset(b)
            return x and (x[0], (x[1] + a[1]) & M64)
    return None


def bits(t, lo, nbits, memo=None):
    """the 64 bits of a term: 0, 1, (record, bit) of value minus lower bound, or None"""
    if t[0] == 'c':
        return [(t[1] >> i) & 1 for i in range(64)]
    x = offset(t)
    if x:
        if x[1] == (-lo) & M64:
            return [(x[0], i) if i < nbits else 0 for i in range(64)]
        return [('other', x, i) for i in range(64)]
    if t[0] == 'cast':
        b = bits(t[3], lo, nbits)
        w = WIDTH.get(t[1])
        if b is None or w is None:
            return None
        return b[:w] + [(0 if t[1][0] == 'u' else b[w - 1])] * (64 - w)
    if t[0] == 'op':
        a, b = bits(t[2], lo, nbits), bits(t[3], lo, nbits)
        if a is None or b is None:
            return None
        if t[1] in ('<<', '>>'):
            if t[3][0] != 'c':
                return None
            n = t[3][1]
            if not 0 <= n < 64:
                return [('shift', n, i) for i in range(64)]
            return [0] * n + a[:64 - n] if t[1] == '<<' else a[n:] + [0] * n
        if t[1] == '&':
            return [0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else ('and', p, q) for p, q in zip(a, b)]
        if t[1] in ('|', '+', '^') and all(p == 0 or q == 0 for p, q in zip(a, b)):
            return [p or q for p, q in zip(a, b)]
        if t[1] == '|':
            return [1 if 1 in (p, q) else p or q if p == 0 or q == 0 or p == q else ('or', p, q) for p, q in zip(a, b)]
    if t == ('sym', 'beyond'):
        return [('beyond', i) for i in range(64)]
    return None


def strip(t):
    while t and t[0] in ('cast', 'f2f') and (t[0] == 'f2f' or WIDTH.get(t[1]) == 64):
        t = t[-1]
    return t


def record(k, t):
    v = ('sym', 'rec:%d' % k)
    TYPES[v] = t
    return v


def within(st, v, lo, hi):
    return st.assume(cmp_('>=', v, C(lo))).assume(cmp_('<=', v, C(hi)))


def bounds(width):
    """bounds whose distance needs the given number of bits: smallest and largest distance, at several places"""
    if width == 0:
        return [(0, 0), (-7, -7), (I64MIN, I64MIN), (I64MAX, I64MAX)]
    a, b = 1 << (width - 1), (1 << width) - 1
    out = [(0, b)] if b <= I64MAX else []
    out += [(-a, 0) if a <= I64MAX else (I64MIN, 0), (I64MIN, I64MIN + b), (-3, a - 3) if a - 3 <= I64MAX else (I64MIN, I64MAX)]
    return out


def int_cases(tier):
    widths = range(65) if tier == 'all' else (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64)
    out = []
    for w in widths:
        for i, (lo, hi) in enumerate(bounds(w)):
            out.append(('Integer', w, lo, hi))
            if i == 0 or w == 0:
                out.append(('ScaledInteger', w, lo, hi))
    return out


def int_field(P, kind, lo, hi, values=(), n=0):
    attrs = {'minimum': C(lo), 'maximum': C(hi)}
    if kind == 'ScaledInteger':
        attrs.update(scale=('fc', 0.5), offset=('fc', 7.0))
    return Field(P, kind, attrs, values, n, n)


def label(kind, lo, hi):
    return '%s [%s..%s]' % (kind, lo if lo > I64MIN else 'min', hi if hi < I64MAX else 'max')


def made(c, r, which, key):
    f, o, outs = r.make(which)
    c.used(f)
    if o is None and not any(x.kind == 'return' for x in outs):
        c.report('factory', '%s/%s' % (short(f), key), c.P.where(f), 'no coder is made for a field %s' % key)
    return o


def p18(c):
    """For integer and scaled integer fields with bounds of every bit width the encoder that the factory chooses is analysed with a source
    buffer that delivers a value assumed to be below the minimum or above the maximum, as the first or a later record: every way out must be
    the value-out-of-bounds error and nothing that depends on the value may be put into the output. With values assumed to be inside the
    bounds that error must not be raised."""
    P = c.P

    def one(c, case):
        kind, w, lo, hi = case
        for what, first in (('below', True), ('above', True), ('below', False), ('above', False), ('inside', True)):
            if what == 'below' and lo == I64MIN or what == 'above' and hi == I64MAX:
                continue
            n = 1 if first else 2
            vs = [record(k, 'i64') for k in range(n)]
            r = int_field(P, kind, lo, hi, vs, n)
            st = r.start
            for v in vs[:-1]:
                st = within(st, v, lo, hi)
            r.start = within(st, vs[-1], lo, hi) if what == 'inside' else st.assume(cmp_('<', vs[-1], C(lo)) if what == 'below' else cmp_('>', vs[-1], C(hi)))
            key = label(kind, lo, hi)
            o = made(c, r, 0, key)
            if o is None:
                return
            f, outs, done = r.encode(o, n)
            c.used(f)
            name = '%s, %s%s' % (key, what, '' if first else ', second record')
            c.instance('bounds', name)
            cls = r.coder[1][2:]
            bad = 'ErrorValueOutOfBounds'
            if what == 'inside':
                for x in outs:
                    if x.code == bad:
                        c.report('bounds', '%s/%s' % (short(f), kind), throw_line(P, x), 'a value inside the bounds of a field %s is refused' % key)
                if not done:
                    c.report('bounds', '%s/%s' % (short(f), kind), P.where(f), 'no value inside the bounds of a field %s is accepted' % key)
                continue
            if done:
                c.report('bounds', '%s/%s' % (short(f), kind), P.where(f), 'a value %s the bounds of a field %s is accepted by %s' % (what, key, cls.split('::')[-1]))
            elif not any(x.code == bad for x in outs):
                x = outs[0] if outs else None
                c.report('bounds', '%s/%s' % (short(f), kind), throw_line(P, x) if x else P.where(f),
                         'a value %s the bounds of a field %s is refused with %s instead of %s' % (what, key, x.code if x else 'nothing', bad))
            for k, (v, t) in r.words.items():
                if vs[-1] in subterms(v):
                    c.report('bounds', '%s/%s' % (short(f), kind), P.where(f), 'a value %s the bounds of a field %s is put into the output before it is refused' % (what, key))
    c.each(int_cases('quick'), one)
    c.floor('bounds', 20)


def p19(c):
    """For integer and scaled integer fields with bounds of every bit width, for floating fields of both precisions and for text fields, the
    encoder and the decoder that the factories choose are analysed together: the encoder on a list of record values about which only
    their bounds are assumed, the decoder on the words the encoder stores. A bit-level dataflow follows every bit of (value - minimum) through
    shifts, masks, words and registers; each decoded value must consist of exactly the bits of the record at the same position plus the minimum,
    use the scale and offset of the field, and words must have the same width on both sides. Texts must end where they began."""
    P = c.P
    scaled = (('fc', 0.5), ('fc', 7.0))

    def one(c, case):
        for whole in (True, False):
            one_way(c, case, whole)

    def one_way(c, case, whole):
        kind, w, lo, hi = case
        n = 5
        key = label(kind, lo, hi)
        vs = [record(k, 'i64') for k in range(n)]
        r = int_field(P, kind, lo, hi, vs, n)
        for v in vs:
            r.start = within(r.start, v, lo, hi)
        e = made(c, r, 0, key)
        if e is None:
            return
        ecls = r.coder[1][2:]
        f, outs, done = r.encode(e, n)
        c.used(f)
        if len(done) != 1:
            c.instance('integers, not followed', key)
            return
        g, outs = r.flush(done[0])
        c.used(g)
        words = dict(r.words)
        want = scaled if kind == 'ScaledInteger' else ()
        for i, t, extra, node in r.gets:
            if extra != want and extra != (('fc', 1.0), ('fc', 0.0)) + want:
                c.report('scaling', '%s/%s' % (short(f), kind), node_where(P, node), 'the values of a field %s are fetched %s' % (key, 'with another scale or offset' if extra else 'without its scale and offset'))
        if any(not isinstance(k, int) for k in words):
            c.instance('integers, not followed', key)
            return
        types = {t for v, t in words.values()}
        size = {WIDTH.get(t) for t in types}
        d = made(c, r, 1, key)
        if d is None:
            return
        dcls = r.coder[1][2:]
        wb = size.pop() if len(size) == 1 else 8
        if wb is None:
            c.instance('integers, not followed', key)
            return
        total = len(words) * wb // 8
        h, outs = r.decode(d, [total] if whole else [min(total, wb // 8 + 1), max(total - wb // 8 - 1, 0)], wb // 8)
        c.used(h)
        if not whole:
            key += ' in two pieces'
        if len([o for o in outs if o.kind == 'return']) != 1 or any(x[0] is None for x in r.sets) or r.lost:
            if not any(o.kind == 'return' for o in outs) and not r.lost:
                c.report('records', '%s/%s' % (kind, w), throw_line(P, outs[0]), 'the stream of a field %s is refused' % key)
            c.instance('integers, not followed', key)
            return
        c.instance('integers', key)
        names = '%s and %s' % (ecls.split('::')[-1], dcls.split('::')[-1])
        rd = {WIDTH.get(t) for t in r.read if t in WIDTH}
        if words and rd and rd != {wb}:
            c.report('words', '%s/%s' % (kind, w), P.where(h), 'a field %s is written in words of %d bits and read in words of %s bits (%s)' % (key, wb, '/'.join(map(str, sorted(rd))), names))
            return
        if len(r.sets) != n:
            c.report('records', '%s/%s' % (kind, w), P.where(h), '%d records of a field %s are written, %d are decoded from their stream (%s)' % (n, key, len(r.sets), names))
            return
        for k, v, t, extra, node in r.sets:
            if extra != want and extra != (('fc', 1.0), ('fc', 0.0)) + want:
                c.report('scaling', '%s/%s' % (short(h), kind), node_where(P, node), 'the values of a field %s are delivered %s' % (key, 'with another scale or offset' if extra else 'without its scale and offset'))
            x = value_bits(v, lo, w, words, wb)
            if x is None:
                c.instance('integers, value not followed', '%s record %d' % (key, k))
                continue
            if x != [(k, i) if i < w else 0 for i in range(64)]:
                c.report('value', '%s/%s' % (kind, w), node_where(P, node), 'record %d of a field %s is not decoded from the bits it was encoded to (%s): %s' % (k, key, names, differ(x, k, w)))
                break
    c.each(int_cases('all'), one)
    floats(c, P)
    texts(c, P)
    c.floor('integers', 5)


def value_bits(v, lo, w, words, wb):
    """bits of a decoded value minus the lower bound"""
    v = strip(v)
    if v[0] == 'c':
        x = (v[1] - lo) & M64
        return [(x >> i) & 1 for i in range(64)]
    base = 0
    while v[0] == 'op' and v[1] in '+-' and (v[3][0] == 'c' or v[2][0] == 'c' and v[1] == '+'):
        if v[3][0] == 'c':
            base += v[3][1] if v[1] == '+' else -v[3][1]
            v = v[2]
        else:
            base += v[2][1]
            v = v[3]
        v = strip(v)
    x = bits(v, lo, w)
    if x is None:
        return None
    if base & M64 == lo & M64:
        return x
    if any(x):
        return [('plus', (base - lo) & M64, b) for b in x]
    return [((base - lo) >> i) & 1 for i in range(64)]


def differ(x, k, w):
    for i in range(64):
        if x[i] != ((k, i) if i < w else 0):
            b = x[i]
            if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], int):
                b = 'bit %d of record %d' % (b[1], b[0])
            elif isinstance(b, tuple):
                b = {'beyond': 'bits beyond the stream', 'plus': 'a value off by a constant', 'other': 'a value encoded relative to something else than the minimum'}.get(b[0], 'a mixture of bits')
            return 'bit %d is %s' % (i, b)
    return ''


def floats(c, P):
    for name, whole in (('PrecisionSingle', True), ('PrecisionDouble', True), ('PrecisionSingle', False), ('PrecisionDouble', False)):
        n = 3
        prec = P.enum_value('e57::FloatPrecision', name)
        t = 'f32' if name.endswith('Single') else 'f64'
        vs = [record(k, t) for k in range(n)]
        r = Field(P, 'Float', {'precision': C(prec)}, vs, n, n)
        e = made(c, r, 0, name)
        if e is None:
            continue
        f, outs, done = r.encode(e, n)
        c.used(f)
        if len(done) != 1 or any(not isinstance(k, int) for k in r.words):
            c.instance('floats, not followed', name)
            continue
        d = made(c, r, 1, name)
        if d is None:
            continue
        wb = WIDTH[t]
        sizes = {WIDTH.get(x) for v, x in r.words.values()}
        if sizes != {wb}:
            c.report('float', name, P.where(f), 'a %s floating field is encoded in words of %s bits' % (name, '/'.join(map(str, sizes))))
            continue
        total = len(r.words) * wb // 8
        h, outs = r.decode(d, [total] if whole else [wb // 8 + 1, total - wb // 8 - 1], wb // 8)
        c.used(h)
        if not whole:
            name += ' in two pieces'
        if len([o for o in outs if o.kind == 'return']) != 1 or any(x[0] is None for x in r.sets) or r.lost:
            if not any(o.kind == 'return' for o in outs) and not r.lost:
                c.report('float', name, throw_line(P, outs[0]), 'the stream of a %s floating field is refused' % name)
            c.instance('floats, not followed', name)
            continue
        c.instance('floats', name)
        if {x[1] for x in r.gets} - {t}:
            c.report('float', name, P.where(f), 'the values of a %s floating field are fetched as %s' % (name, '/'.join(sorted({x[1] for x in r.gets}))))
        if len(r.sets) != n:
            c.report('float', name, P.where(h), '%d records of a %s floating field are written, %d are decoded from their stream' % (n, name, len(r.sets)))
            continue
        for k, v, ty, extra, node in r.sets:
            if ty != t or strip(v) != vs[k]:
                c.report('float', name, node_where(P, node), 'record %d of a %s floating field is delivered as %s of %s' % (k, name, ty, strip(v)[1] if strip(v)[0] == 'sym' else 'something else'))
                break


def texts(c, P):
    for n in (0, 1, 3, 126, 127, 128, 129, 255, 256, 300):
        key = 'text of %d bytes' % n
        r = Field(P, 'String', {}, [('s', 'x' * n)], 2, 1)
        r.unroll = 400
        e = made(c, r, 0, key)
        if e is None:
            return
        f, outs, done = r.encode(e, 1)
        c.used(f)
        w = r.words
        total = len(w)
        if len(done) != 1 or set(w) != set(range(total)) or any(v[0] != 'c' for v, t in w.values()):
            c.instance('texts, not followed', key)
            continue
        w = r.words = {k: (C(v[1] - 256 if v[1] > 127 else v[1]), t) for k, (v, t) in w.items()}
        d = made(c, r, 1, key)
        if d is None:
            return
        got = []
        for size in (total, total - 1):
            if size <= 0:
                continue
            r.sets = []
            h, outs = r.decode(d, [size])
            c.used(h)
            done = [o for o in outs if o.kind == 'return']
            got.append((size, len(done), len(r.sets)))
        if any(x[1] != 1 for x in got):
            c.instance('texts, not followed', key)
            continue
        c.instance('texts', key)
        if got[0][2] != 1 or len(got) > 1 and got[1][2] != 0:
            c.report('text', 'n=%d' % n, P.where(h), 'a %s is written in %d bytes, but %d texts are decoded from them and %d from one byte less' % (key, total, got[0][2], got[1][2] if len(got) > 1 else 0))


    for n in (0x0123456789abcdef, 0x00fedcba98765432, 1 << 33, 1 << 62):
        key = 'text of 0x%x bytes' % n
        r = Field(P, 'String', {}, [('s', 'x')], 2, 1)
        raw = [(2 * n + 1 >> 8 * i) & 255 for i in range(8)]
        r.words = {i: (C(v - 256 if v > 127 else v), 'i8') for i, v in enumerate(raw)}
        d = made(c, r, 1, key)
        if d is None:
            return
        h, outs = r.decode(d, [8])
        done = [o for o in outs if o.kind == 'return']
        if len(done) != 1 or len(outs) != 1:
            c.instance('texts, not followed', key)
            continue
        c.instance('texts', key)
        held = {v[1] for k, v in done[0].st.heap.items() if k[0] == 'fld' and v[0] == 'c' and isinstance(v[1], int) and v[1] > 1 << 32}
        if held and n not in held:
            c.report('text', 'long prefix', P.where(h), 'the prefix of a %s is decoded as a length of 0x%x' % (key, max(held)))


def delivering(c, P):
    """each decoder delivers as many records as stored, available and fitting"""
    m = members(P)
    cases = [('Integer', {'minimum': C(0), 'maximum': C(31)}, 5), ('ScaledInteger', {'minimum': C(-4), 'maximum': C(1000), 'scale': ('fc', 0.5), 'offset': ('fc', 7.0)}, 5),
             ('Integer', {'minimum': C(4), 'maximum': C(4)}, 5), ('Integer', {'minimum': C(0), 'maximum': C((1 << 40))}, 5), ('Integer', {'minimum': C(0), 'maximum': C((1 << 20))}, 5),
             ('Float', {'precision': C(P.enum_value('e57::FloatPrecision', 'PrecisionSingle'))}, 5), ('Float', {'precision': C(P.enum_value('e57::FloatPrecision', 'PrecisionDouble'))}, 5),
             ('String', {}, 5)]
    # (stored, room of the buffer in each call, records delivered in each call); the stream holds 5 records
    plans = [(5, (5, 5), (5, 0)), (3, (5, 5), (3, 0)), (5, (2, 5), (2, 3)), (4, (2, 5), (2, 2)), (0, (5, 5), (0, 0)), (5, (5,), (5,)), (4, (3, 3), (3, 1)), (5, (0, 1, 9), (0, 1, 4))]

    def one(c, item):
        (kind, attrs, n), (stored, rooms, want) = item
        vs = [('s', 'ab')] * n if kind == 'String' else [record(k, 'i64' if kind != 'Float' else 'f32' if attrs['precision'] == C1 else 'f64') for k in range(n)]
        r = Field(P, kind, attrs, vs, n, stored)
        if 'minimum' in attrs:
            for v in vs:
                r.start = within(r.start, v, attrs['minimum'][1], attrs['maximum'][1])
        key = '%s%s' % (kind, ' [%d..%d]' % (attrs['minimum'][1], attrs['maximum'][1]) if 'minimum' in attrs else '' if kind == 'String' else ' of precision %d' % attrs['precision'][1])
        e = made(c, r, 0, key)
        if e is None:
            return
        f, outs, done = r.encode(e, n)
        if len(done) != 1:
            c.instance('decoders, not followed', key)
            return
        r.flush(done[0])
        if any(not isinstance(k, int) for k in r.words):
            c.instance('decoders, not followed', key)
            return
        wb = max([WIDTH.get(t) or 8 for v, t in r.words.values()] or [8]) // 8
        if kind == 'String':
            r.words = {k: (C(v[1] - 256 if v[1] > 127 else v[1]) if v[0] == 'c' else v, t) for k, (v, t) in r.words.items()}
        d = made(c, r, 1, key)
        if d is None:
            return
        total = len(r.words) * wb
        st = d.st
        got = []
        r.buffer = None
        for i, room in enumerate(rooms):
            r.sets = []
            r.fields[m['capacity']] = C(room)
            if r.buffer is not None:
                st = st.cp()
                st.heap[('fld', ('at', r.buffer), m['nextIndex'])] = C0
            h, outs = r.decode(Outcome('return', None, None, st, None), [total if i == 0 else 0], wb, total if i else 0)
            done = [o for o in outs if o.kind == 'return']
            if len(done) != 1 or r.lost or any(x[0] is None for x in r.sets):
                c.instance('decoders, not followed', key)
                return
            st = done[0].st
            got.append(len(r.sets))
        c.used(h)
        name = '%s: %d stored, room for %s' % (key, stored, ' then '.join(map(str, rooms)))
        c.instance('decoders', name)
        if tuple(got) != want:
            c.report('decoders', '%s/%s' % (short(h), key), P.where(h), 'a decoder with %d records stored and %d in the stream delivers %s records into buffers with room for %s' %
                     (stored, n, ' then '.join(map(str, got)), ' then '.join(map(str, rooms))))
            return
        g, outs = r.call(Outcome('return', None, None, st, None), 'totalRecordsCompleted', [])
        c.used(g)
        for o in outs:
            if o.kind == 'return' and o.value is not None and o.value[0] == 'c' and o.value[1] != sum(want):
                c.report('decoders', '%s/%s' % (short(g), key), P.where(g), 'a decoder that delivered %d records counts %d' % (sum(want), o.value[1]))
    c.each([(a, b) for a in cases for b in plans], one)
    c.floor('decoders', 10)
