"""Binary sections: what is written into packets and headers, what is required of those read, and the packet cache."""
from vlib.tools import *
from .trees import World, image_open
from .transfer import W, R, field_of, only
from .image import Close, FileOps, CF, direction

SIZES = {'u8': 1, 'i8': 1, 'b': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8}
CVH, BLH, FH = 'e57::CompressedVectorSectionHeader', 'e57::BlobSectionHeader', 'e57::E57FileHeader'
HEADER = {'length': (2, 2), 'count': (4, 2)}


class Layout:
    """sizes of types, and where the members of records lie"""
    def __init__(self, P):
        self.P, self.memo = P, {}

    def size(self, t):
        t = t.lstrip('&')
        if t.startswith('const '):
            t = t[6:]
        if t in SIZES:
            return SIZES[t]
        if t.startswith('*'):
            return 8
        if t.startswith('E:'):
            return 4
        if t.startswith('A') and ':' in t:
            k, e = t[1:].split(':', 1)
            return int(k) * self.size(e) if k.isdigit() and self.size(e) else None
        r = self.P.rec.get(t[2:]) if t.startswith('R:') else None
        return r.get('size') if r else None

    def fields(self, cls):
        """name -> (offset, type)"""
        if cls not in self.memo:
            r, out, at = self.P.rec.get(cls), {}, 0
            for x in r['fs'] if r else ():
                k = self.size(x['t'])
                if k is None:
                    out = {}
                    break
                out[x['n']] = (at, x['t'])
                at += k
            if r and at != r.get('size'):       # not packed
                out, at = {}, 0
                for x in r['fs']:
                    k = self.size(x['t'])
                    if k is None:
                        break
                    a = self.align(x['t'])
                    at = (at + a - 1) // a * a
                    out[x['n']] = (at, x['t'])
                    at += k
            self.memo[cls] = out
        return self.memo[cls]

    def align(self, t):
        if t.startswith('A') and ':' in t:
            return self.align(t.split(':', 1)[1])
        if t.startswith('R:'):
            return max([self.align(x['t']) for x in self.P.rec[t[2:]]['fs']] or [1])
        return self.size(t) or 8


class Bytes(World):
    """memory as bytes: an access through converted pointers is found in the object it belongs to"""
    unroll = 80
    hint = None         # class of the function at work

    def __init__(self, P, roots):
        super().__init__()
        self.P, self.lay = P, Layout(P)
        self.fields, self.start = image_open(P)
        self.roots = roots              # location -> record type, of objects whose bytes are followed

    def on_cast(self, I, st, n, v):
        t, ft = n['t'], n['ft']
        if n['ck'] == 'BitCast' and t.startswith('*') and t[1:] in SIZES and v is not None and v[0] == 'addr' and v[1] not in self.roots:
            x = self.of(v[1])
            if x is not None and x[0] in self.roots and x[1] % SIZES[t[1:]] == 0:
                return ('op', '+', ('addr', x[0]), C(x[1] // SIZES[t[1:]])) if x[1] else ('addr', x[0])
        if t.startswith('*') and ft.startswith('*') and v is not None and v[0] == 'op' and v[1] == '+' and len(v) == 4 and v[3][0] == 'c':
            a, b = self.lay.size(ft[1:]), self.lay.size(t[1:])
            if a and b and a != b:
                k = v[3][1] * a
                if k % b == 0:
                    return ('op', '+', v[2], C(k // b))
        return None

    def of(self, loc, unit=None):
        """location -> (object, byte in it, type) or None"""
        if loc in self.roots:
            return loc, 0, 'R:' + self.roots[loc]
        k = loc[0]
        if k in ('var', 'tmp'):
            return loc, 0, None
        if k == 'fld':
            x = self.of(loc[1], None)
            if x is None:
                return None
            cand = ([x[2][2:]] if x[2] and x[2].startswith('R:') else []) + ([self.hint] if self.hint else [])
            for cls in cand + [c for c in sorted(self.P.rec) if c.endswith(('PacketHeader', 'Packet', 'SectionHeader', 'FileHeader'))]:
                f = self.lay.fields(cls).get(loc[2])
                if f is not None:
                    return x[0], x[1] + f[0], f[1]
            return None
        if k == 'idx':
            if loc[2][0] != 'c':
                return None
            x = self.of(loc[1], unit)
            if x is None:
                return None
            if x[2] and x[2].startswith('A') and ':' in x[2]:
                e = x[2].split(':', 1)[1]
                if unit and e in SIZES and SIZES[e] != unit:       # through a converted pointer
                    return x[0], x[1] + loc[2][1] * unit, None
                return x[0], x[1] + loc[2][1] * (self.lay.size(e) or 1), e
            return (x[0], x[1] + loc[2][1] * unit, None) if unit else None
        if k == 'at':
            p = loc[1]
            while p[0] == 'cast':
                p = p[3]
            if p[0] == 'addr':
                x = self.of(p[1], unit)
                return (x[0], x[1], x[2] if p[1] == x[0] else None) if x else None
            if p[0] == 'op' and p[1] == '+' and len(p) == 4 and p[2][0] == 'addr' and p[3][0] == 'c':
                x = self.of(p[2][1], unit)
                return (x[0], x[1] + p[3][1] * unit, None) if x and unit else None
        return None

    def cell(self, root, b):
        return ('gvar', '#byte', root, b)

    def put(self, st, root, at, k, val):
        """k bytes from `at` hold a value"""
        st = st.cp()
        for j in range(k):
            c = self.cell(root, at + j)
            if c in st.heap:
                del st.heap[c]
            st.heap[c] = ('part', val, j, k)
        return st

    def get(self, st, root, at, k):
        """the value of k bytes; None: never set, ('v', …): set, but not known to what"""
        xs = [st.heap.get(self.cell(root, at + j)) for j in range(k)]
        if all(x is None for x in xs):
            return ('v', 'unknown') if ('unclear', root) in st.tags else None
        if all(x is not None and x[0] == 'part' and x[1] == xs[0][1] and x[2] == j and x[3] == k for j, x in enumerate(xs)):
            return xs[0][1]
        if all(x is not None and x[0] == 'part' and x[1][0] == 'c' for x in xs):
            return C(sum(((x[1][1] >> (8 * x[2])) & 255) << (8 * j) for j, x in enumerate(xs)))
        return ('v', 'unknown')

    def at_work(self, node):
        f = self.P.fn.get(node.get('fid'))
        self.hint = f.get('cls') if f else None

    def on_store(self, I, st, loc, val, node):
        self.at_work(node)
        t = node.get('t', '').lstrip('&')
        if node.get('k') in ('un', 'pre', 'post') and t.startswith('*'):
            t = t[1:]
        k = self.lay.size(t) if t else None
        x = self.of(loc, k if k and k <= 8 else None)
        if x is None:
            for r in self.roots:
                if r in subterms(loc):
                    return st.tag(('unclear', r))
            return st
        if x[2] and self.lay.size(x[2]) and self.lay.size(x[2]) <= 8:
            k = self.lay.size(x[2])
        if not k or k > 8 or val is None or val[0] == 'rec':
            return st.tag(('unclear', x[0]))
        return self.put(st, x[0], x[1], k, val)

    def on_load(self, I, st, loc, node):
        self.at_work(node)
        t = node.get('t', '').lstrip('&')
        k = self.lay.size(t) if t else None
        if not k or k > 8 or t[0] in '*RA':
            return st
        x = self.of(loc, k)
        if x is None or x[0] == loc:
            return st
        v = self.get(st, x[0], x[1], k)
        if v is not None and st.heap.get(loc) != v:
            if v[0] == 'v':
                st, v = I.fresh(st, node, ty=t)
            st = st.cp()
            st.heap[loc] = v
        return st

    def on_call(self, I, st, n, qn, obj, vs):
        q = strip_tmpl(qn).split('::')[-1]
        if q == 'memset' and len(vs) == 3:
            d, v, k = [I.val_of(st, x) for x in vs]
            x = self.of(('at', d), 1) if d is not None else None
            if x is not None:
                if v[0] == 'c' and k[0] == 'c' and k[1] <= 70000:
                    for j in range(k[1]):
                        st = st if j else st.cp()
                        st.heap[self.cell(x[0], x[1] + j)] = ('part', C(v[1] & 255), 0, 1)
                    return [(st, d)]
                return [(st.tag(('unclear', x[0])), d)]
        if q in ('memcpy', 'memmove', 'copy', 'copy_n', 'fill', 'fill_n'):
            for v in vs:
                v = I.val_of(st, v)
                for r in self.roots:
                    if v is not None and r in subterms(v):
                        st = st.tag(('unclear', r))
        if q == 'accumulate' and len(vs) == 3:
            a, b, z = [I.val_of(st, x) for x in vs]
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2][0] == 'c' and b[2][0] == 'c' and b[2][1] - a[2][1] < 64:
                for i in range(a[2][1], b[2][1]):
                    z = arith('+', z, I.load(st, ('idx', a[1], C(i))), 'u64')
                return [(st, z)]
        return super().on_call(I, st, n, qn, obj, vs)


class Packing(Bytes):
    """a writer whose encoders hold given numbers of bytes; what reaches the file"""
    START, FREE = 960, 992

    def __init__(self, P, sizes=()):
        super().__init__(P, {})
        here = ('at', ('this', W, True))
        for x in P.rec[W]['fs']:
            if x['t'] == 'b':
                self.fields[x['n']] = C1
            if x['t'] == 'R:e57::DataPacket':
                self.roots[('fld', here, x['n'])] = 'e57::DataPacket'
        ch = field_of(P, W, 'vector<std::shared_ptr<e57::Encoder>>')
        at = ('fld', here, ch)
        self.sizes[at] = len(sizes)
        self.coders = {}
        for i, k in enumerate(sizes):
            s = ('sym', 'coder%d' % i)
            self.vals[('idx', at, C(i))] = s
            self.coders[s] = (i, k)
        self.written = []               # (node, state, position, object, length, position after)

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if obj in self.coders:
            i, k = self.coders[obj]
            g = ('gvar', '#left', i)
            left = st.heap.get(g, C(k))
            if nm == 'outputAvailable':
                return [(st, left)]
            if nm == 'outputRead':
                k = I.val_of(st, vs[1])
                x = self.of(('at', I.val_of(st, vs[0])), 1)
                if k[0] != 'c' or left[0] != 'c' or x is None:
                    for r in self.roots:
                        st = st.tag(('unclear', r))
                    return [(st, None)]
                if k[1] > left[1]:
                    return []
                st = st.cp()
                old = st.heap.get(('gvar', '#reads'), ('reads',))
                st.heap[('gvar', '#reads')] = old + ((i, x[1], k[1]),)
                return [(I.store(st, g, C(left[1] - k[1]), n), None)]
            if nm == 'registerFlushToOutput':
                return [(st, C1)]
        if qn.startswith(CF + '::'):
            if direction(self.P, qn):
                return [(st, ('l2p' if direction(self.P, qn) == 'LP' else 'p2l', I.val_of(st, vs[0])))]
            if nm == 'seek':
                off, mode = I.val_of(st, vs[0]), FileOps.mode(self, I, st, self.P.fn[n['id']], vs)
                if mode == 'P' and off[0] == 'l2p':
                    mode, off = 'L', off[1]
                st = st.cp()
                st.heap[('gvar', '#pos')] = (mode or '?', off)
                return [(st, None)]
            if nm == 'write':
                b, k = I.val_of(st, vs[0]), I.val_of(st, vs[1])
                pos = st.heap.get(('gvar', '#pos'))
                x = self.of(('at', b), 1)
                if not I.silent:
                    self.written.append((n, st, pos, x, k, b))
                st = st.cp()
                done = st.heap.get(('gvar', '#done'), ('done',))
                st.heap[('gvar', '#done')] = done + ((pos, k, n['nid']),)
                st.heap.pop(('gvar', '#reads'), None)
                return [(st, None)]
            return [I.fresh(st, n, ty=n.get('t'))]
        return super().on_call(I, st, n, qn, obj, vs)

    modes = {'Logical': 0, 'Physical': 1}

    def inline(self, I, fn, node):
        return fn.get('cls') != CF


def number(v):
    return v[1] if v is not None and v[0] == 'c' else None


def p22(c):
    """A writer is closed, by abstract interpretation of the code, with encoders that hold given numbers of bytes (below, at and above what fits a
    packet). Memory is followed byte by byte, so whatever way a packet or header is built, the bytes that reach the file are compared
    with the format: size, alignment, declared length, number of streams, stream lengths, and section extents. The same is done for
    writing no records, for a new blob and for the file header."""
    P = c.P
    free = [x['n'] for x in P.rec['e57::ImageFileImpl']['fs'] if 'nused' in x['n']]
    if len(free) != 1:
        raise Broken('the start of the unused space of an image was not found')
    here = ('at', ('this', W, True))
    close = only(P, W, 'close')
    starts = [x['n'] for x in P.rec[W]['fs'] if x['t'] == 'u64' and 'tart' in x['n']]
    if len(starts) != 1:
        raise Broken('the start of the section of a writer was not found')
    loads = [(8,), (3, 5), (1, 0, 7), (65519,), (65527,), (65528,), (65529,), (65530,), (65535,), (70000,), (32760, 32763), (40000, 40000),
             (200000, 9), (30, 70001, 500)]
    if c.tier == 'thorough':
        loads += [(k,) for k in range(65500, 65540)] + [(k, 3) for k in range(65505, 65535)] + [(k, 5, 60000) for k in range(5500, 5540)]

    def one(c, sizes):
        r = Packing(P, sizes)
        r.fields[free[0]] = C(r.FREE)
        r.fields[starts[0]] = C(r.START)
        for x in P.rec[W]['fs']:
            if x['t'] in ('u64', 'u32') and x['n'] != starts[0]:
                r.vals[('fld', here, x['n'])] = C0
        I, outs = outcomes(P, r, close, cls=W, st=r.start)
        key = 'encoders with %s bytes' % '/'.join(map(str, sizes))
        c.used(close, I.stats['fns'])
        c.instance('packets', key)
        rets = [o for o in outs if o.kind == 'return']
        if not rets:
            c.report('packets', 'never', P.where(close), 'a writer cannot be closed (%s)' % key)
            return
        packets(c, P, r, sizes, key, rets)

    c.each(loads, one)
    for f in P.fn.values():
        if f.get('cls') == W and f['n'] == 'write' and len(f['ps']) == 1 and f['body'] is not None:
            c.each([f], empty)
    blobs(c, P, free[0])
    header(c, P)
    c.floor('packets', 5)
    c.floor('header', 3)


def packets(c, P, r, sizes, key, rets):
    """the writes recorded against the format"""
    n = len(sizes)
    data, index, section = [], [], []
    for node, st, pos, x, k, b in r.written:
        w = node_where(P, node)
        if pos is None or pos[0] != 'L' or pos[1][0] != 'c':
            continue
        at = pos[1][1]
        if at == r.START:
            section.append((node, st, at, x, k))
            continue
        if k[0] != 'c':
            c.report('packets', 'length', w, 'a packet is written with a length that does not follow from the data (%s)' % key)
            continue
        k = k[1]
        if k % 4:
            c.report('packets', 'multiple', w, 'a packet of %d bytes is written; packets are multiples of four bytes (%s)' % (k, key))
        if k > 65536:
            c.report('packets', 'size', w, 'a packet of %d bytes is written; the format allows 65536 (%s)' % (k, key))
        if x is None:
            continue
        root = x[0]
        kind = r.get(st, root, 0, 1)
        declared = r.get(st, root, 2, 2)
        if declared is None or number(declared) not in (None, (k - 1) & 0xffff):
            c.report('packets', 'declared', w, 'a packet of %d bytes declares %s (%s)'
                     % (k, 'no length' if declared is None else '%d bytes' % (number(declared) + 1), key))
        count = r.get(st, root, 4, 2)
        if kind == C0 or root[0] == 'var' and kind != C1:
            if kind is None or kind != C0 and number(kind) is not None:
                c.report('packets', 'type', w, 'the packet written is neither a data nor an index packet (%s)' % key)
            index.append((node, st, at, root, k))
            e = number(count)
            if count is None or e is not None and (e < 1 or 16 + 16 * e > k):
                c.report('packets', 'entries', w, 'an index packet of %d bytes declares %s entries (%s)' % (k, 'no' if e is None else e, key))
            continue
        data.append((node, st, at, root, k))
        if count is None or number(count) not in (None, n):
            c.report('packets', 'streams', w, 'a packet with %d streams declares %s (%s)' % (n, 'none' if count is None else number(count), key))
        reads = st.heap.get(('gvar', '#reads'), ('reads',))[1:]
        got = {i: (a, m) for i, a, m in reads}
        if ('unclear', root) in st.tags:
            continue
        at_ = 6 + 2 * n
        for i in range(n):
            a, m = got.get(i, (at_, 0))
            v = r.get(st, root, 6 + 2 * i, 2)
            if v is None or number(v) not in (None, m):
                c.report('packets', 'stream-length', w, 'a packet with %d bytes of stream %d declares %s (%s)'
                         % (m, i, 'no length' if v is None else number(v), key))
            if m and a != at_:
                c.report('packets', 'stream-place', w, 'the bytes of stream %d are put at %d of the packet; the lengths it declares place them at '
                         '%d (%s)' % (i, a, at_, key))
            at_ += m
        if at_ > k or at_ + 3 < k:
            c.report('packets', 'content', w, 'a packet with %d bytes of content has %d bytes (%s)' % (at_, k, key))
        for j in range(at_, min(k, at_ + 8)):
            v = r.get(st, root, j, 1)
            if v is None or number(v) not in (None, 0):
                c.report('packets', 'padding', w, 'the padding of a packet is not zero (%s)' % key)
                break
    close = only(P, W, 'close')
    for node, st, at, root, k in index:
        for j in range(0, (number(r.get(st, root, 4, 2)) or 0)):
            v = r.get(st, root, 16 + 16 * j + 8, 8)
            places = [('l2p', C(d[2])) for d in data]
            if v is None or places and v[0] in ('c', 'l2p', 'op') and v not in places:
                c.report('packets', 'index-place', node_where(P, node), 'the index packet names a place where no data packet is (%s)' % key)
    if not data:
        c.report('packets', 'none', P.where(close), 'the data of the encoders is not written (%s)' % key)
    # one instance of each path: the last state decides what the section extends over
    for node, st, at, x, k in section:
        w = node_where(P, node)
        c.instance('sections', '%s of %s' % (w, key))
        if k != C(32):
            c.report('sections', 'size', w, 'the header of the section is not written as 32 bytes (%s)' % key)
        if x is None or ('unclear', x[0]) in st.tags:
            continue
        done = st.heap.get(('gvar', '#done'), ('done',))[1:]
        ends = [p[1][1] + m[1] for p, m, _ in done if p is not None and p[0] == 'L' and p[1][0] == 'c' and m[0] == 'c']
        length, first, top = (r.get(st, x[0], o, 8) for o in (8, 16, 24))
        if ends and (length is None or number(length) not in (None, max(ends) - r.START)):
            c.report('sections', 'length', w, 'the section takes %d bytes and its header declares %s (%s)'
                     % (max(ends) - r.START, 'nothing' if length is None else number(length), key))
        mine = {nid for _, _, nid in done}
        fd = [d[2] for d in data if (('L', C(d[2])), C(d[4]), d[0]['nid']) in done]
        fi = [d[2] for d in index if (('L', C(d[2])), C(d[4]), d[0]['nid']) in done]
        if fd and (first is None or first[0] in ('c', 'l2p') and first != ('l2p', C(min(fd)))):
            c.report('sections', 'data', w, 'the header of the section does not name the place of its first data packet (%s)' % key)
        if fi and (top is None or top[0] in ('c', 'l2p') and top not in [('l2p', C(i)) for i in fi]):
            c.report('sections', 'index', w, 'the header of the section does not name the place of its index packet (%s)' % key)
        if not fi:
            c.report('sections', 'no-index', w, 'a section is written without an index packet (%s)' % key)
    for o in rets:
        done = o.st.heap.get(('gvar', '#done'), ('done',))[1:]
        if not any(p == ('L', C(r.START)) for p, _, _ in done) and all(p is not None and p[1][0] == 'c' for p, _, _ in done):
            c.report('sections', 'none', P.where(close), 'a writer can be closed without writing the header of its section (%s)' % key)


def empty(c, f):
    """a write of no records"""
    P = c.P
    r = Packing(P, (0, 0))
    for x in P.rec['e57::ImageFileImpl']['fs']:
        if 'nused' in x['n']:
            r.fields[x['n']] = C(r.FREE)
    I, outs = outcomes(P, r, f, cls=W, st=r.start, args=[C0])
    c.used(f, I.stats['fns'])
    c.instance('packets', 'writing no records')
    for node, st, pos, x, k, b in r.written:
        w = node_where(P, node)
        if x is None or k[0] != 'c':
            continue
        declared = number(r.get(st, x[0], 2, 2))
        if k[1] % 4 or k[1] > 65536 or k[1] < 6:
            c.report('packets', 'empty-size', w, 'a packet without records is written with %d bytes' % k[1])
        if declared is not None and declared != k[1] - 1:
            c.report('packets', 'empty-declared', w, 'a packet of %d bytes without records declares %d bytes' % (k[1], declared + 1))
        if number(r.get(st, x[0], 4, 2)) not in (None, 0):
            c.report('packets', 'empty-streams', w, 'a packet without records declares streams')


def blobs(c, P, free):
    """a new blob"""
    cls = 'e57::BlobNodeImpl'
    fs = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'ctor' and f['body'] is not None and len(f['ps']) == 2]
    if len(fs) != 1:
        raise Broken('the constructor of a new blob was not found')
    f = fs[0]
    for size in (0, 1, 2, 3, 4, 5, 1000, 1019, 123457):
        r = Packing(P)
        r.fields[free] = C(992)
        args = [('rec', ('at', ('sym', 'val:' + f['ps'][0]['n']))), C(size)]
        args[0] = ('sym', 'image') if not f['ps'][0]['t'].startswith('R:') else args[0]
        I, outs = outcomes(P, r, f, cls=cls, st=r.start, args=args)
        c.used(f, I.stats['fns'])
        key = 'blob of %d bytes' % size
        c.instance('blobs', key)
        rets = [o for o in outs if o.kind == 'return']
        if not rets:
            c.report('blobs', 'never', P.where(f), 'a blob cannot be made (%s)' % key)
        for node, st, pos, x, k, b in r.written:
            w = node_where(P, node)
            if pos is None or pos[0] != 'L' or pos[1] != C(992):
                if pos is not None and pos[0] in ('L', 'P') and pos[1][0] in ('c', 'l2p'):
                    c.report('blobs', 'place', w, 'the header of a blob is not written at the start of its section (%s)' % key)
                continue
            if k != C(16):
                c.report('blobs', 'size', w, 'the header of a blob is not written as 16 bytes (%s)' % key)
            v = r.get(st, x[0], 8, 8) if x is not None else ('v', '')
            want = (16 + size + 3) // 4 * 4
            if v is None or number(v) not in (None, want):
                c.report('blobs', 'declared', w, 'the section of a blob takes %d bytes and its header declares %s (%s)'
                         % (want, 'nothing' if v is None else number(v), key))
        for o in rets:
            v = [number(v) for l, v in o.st.heap.items() if l[0] == 'fld' and l[2] == free]
            v = v[0] if len(v) == 1 else None if v else 992
            want = 992 + (16 + size + 3) // 4 * 4
            if v is not None and v != want:
                c.report('blobs', 'reserved', P.where(f), 'a blob reserves %d bytes of the file, its section takes %d (%s)' % (v - 992, want - 992, key))


class Sub:
    """passes on one rule of another check"""
    def __init__(self, c, rule):
        self.c, self.rule, self.P, self.tier = c, rule, c.P, c.tier

    def instance(self, rule, key):
        if rule == self.rule:
            self.c.instance('header', key)

    def report(self, rule, key, where, msg, path=None):
        if rule == self.rule:
            self.c.report('header', key, where, msg, path)


def header(c, P):
    from .lifecycle import file_field
    cls = 'e57::ImageFileImpl'
    this = ('this', cls, True)
    heap = {('fld', ('at', this), x['n']): C1 for x in P.rec[cls]['fs'] if x['t'] == 'b' and 'riter' in x['n']}
    heap[('fld', ('at', this), file_field(P))] = ('sym', 'file')
    st = State(heap=heap)
    st = st.assume(cmp_('!=', ('sym', 'file'), C0)) or st
    for f in P.some(cls + '::close'):
        r = Close(Sub(c, 'header-field'))
        I, outs = outcomes(P, r, f, this=this, st=st)
        c.used(f, I.stats['fns'])


# ---------------------------------------------------------------- reading
CACHE, LOCK, VIEW = 'e57::PacketReadCache', 'e57::PacketLock', 'e57::BufferView'


class Reading(Bytes):
    """a file with given contents: what is read from it is followed byte by byte"""
    modes = {'Logical': 0, 'Physical': 1}

    def __init__(self, P, content=None, length=100000):
        super().__init__(P, {})
        self.content = content          # [(offset, size, value)], other bytes are zero
        self.length = length
        self.beyond = []                # (node, byte, bytes read)
        self.reads = []                 # (node, object, length)
        self.later = []                 # other uses of the file after the first read

    def img(self, root):
        return ('gvar', '#img', root)

    def fill(self, I, st, root, n, content):
        st = st.cp()
        for l in [l for l in st.heap if l[0] == 'gvar' and l[1] == '#byte' and l[2] == root]:
            del st.heap[l]
        st.heap[self.img(root)] = ('img', n)
        for at, k, v in content:
            if at + k <= n:
                st = self.put(st, root, at, k, v)
        return st

    def get(self, st, root, at, k):
        im = st.heap.get(self.img(root))
        if im is None:
            return super().get(st, root, at, k)
        if at < 0 or at + k > im[1]:
            return ('v', 'unknown')
        xs = [st.heap.get(self.cell(root, at + j)) for j in range(k)]
        if all(x is None for x in xs):
            return C0
        if any(x is None for x in xs):
            return ('v', 'unknown')
        return super().get(st, root, at, k)

    def on_load(self, I, st, loc, node):
        self.at_work(node)
        t = node.get('t', '').lstrip('&')
        k = self.lay.size(t) if t else None
        if k and k <= 8 and t[0] not in '*RA' and not I.silent:
            x = self.of(loc, k)
            if x is not None and x[0] != loc:
                im = st.heap.get(self.img(x[0]))
                if im is not None and (x[1] < 0 or x[1] + k > max(im[1], 16)):
                    self.beyond.append((node, x[1], im[1]))
        return super().on_load(I, st, loc, node)

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if qn.startswith(CF + '::') and n.get('k') != 'ctor':
            if nm == 'read' and len(vs) >= 2:
                k, b = I.val_of(st, vs[1]), I.val_of(st, vs[0])
                x = self.of(('at', b), 1)
                if not I.silent:
                    self.reads.append((n, x, k))
                st = st.tag(('read',))
                if x is not None and x[1] == 0 and k[0] == 'c':
                    return [(self.fill(I, st, x[0], k[1], self.content), None)]
                return [(st, None)]
            if nm == 'length':
                return [(st, C(self.length))]
            if direction(self.P, qn):
                return [(st, ('l2p' if direction(self.P, qn) == 'LP' else 'p2l', I.val_of(st, vs[0])))]
            if nm not in ('fileName', 'close', 'unlink') and ('read',) in st.tags and not I.silent:
                self.later.append(n)
            return [I.fresh(st, n, ty=n.get('t'))]
        q = strip_tmpl(qn).split('::')[-1]
        if q in ('strncmp', 'memcmp') and len(vs) == 3:
            a, b, k = [I.val_of(st, v) for v in vs]
            if a[0] == 's':
                a, b = b, a
            x = self.of(('at', a), 1) if a is not None else None
            if x is not None and b[0] == 's' and k[0] == 'c' and self.img(x[0]) in st.heap:
                got = [self.get(st, x[0], x[1] + j, 1) for j in range(k[1])]
                want = (b[1] + '\0' * 16)[:k[1]]
                if all(g[0] == 'c' for g in got):
                    return [(st, C(int(bytes(g[1] & 255 for g in got) != want.encode('latin1'))))]
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        return fn.get('cls') != CF


def cache(P, r, labels, ages, locks=0, this=('this', CACHE, True)):
    """a packet cache with given entries -> location of its list of entries, member names"""
    own = P.rec[CACHE]['fs']
    e = CACHE + '::CacheEntry'
    if e not in P.rec:
        raise Broken('the entries of the packet cache were not found')
    fs = {x['n']: x['t'] for x in P.rec[e]['fs']}
    label = [n for n, t in fs.items() if t == 'u64']
    buf = [n for n, t in fs.items() if t.startswith('A')]
    age = [n for n, t in fs.items() if t == 'u32']
    vec = [x['n'] for x in own if 'vector<' in x['t']]
    lock = [x['n'] for x in own if 'ock' in x['n'] and x['t'] == 'u32']
    if not (len(label) == len(buf) == len(vec) == len(lock) == 1):
        raise Broken('the members of the packet cache were not found')
    at = ('fld', ('at', this), vec[0])
    r.sizes[at] = len(labels)
    for i, (l, a) in enumerate(zip(labels, ages)):
        x = ('idx', at, C(i))
        r.vals[('fld', x, label[0])] = C(l)
        for g in age:
            r.vals[('fld', x, g)] = C(a)
        r.roots[('fld', x, buf[0])] = 'buffer'
    for x in own:
        if x['t'] == 'u32':
            r.vals[('fld', ('at', this), x['n'])] = C(locks if x['n'] == lock[0] else 50)
        if 'CheckedFile' in x['t']:
            r.vals[('fld', ('at', this), x['n'])] = ('sym', 'file')
    return at, label[0], buf[0], ('fld', ('at', this), lock[0])


def packet(kind, length, **kw):
    """contents of a packet: type, length, and further bytes name=(offset, size, value)"""
    return [(0, 1, C(kind)), (2, 2, C((length - 1) & 0xffff))] + [(a, k, C(v)) for a, k, v in kw.values()]


def data(length, count, lengths=(), **kw):
    return packet(1, length, count=(4, 2, count), **{'l%d' % i: (6 + 2 * i, 2, v) for i, v in enumerate(lengths)}, **kw)


def index(length, entries, level=0, **kw):
    return packet(0, length, count=(4, 2, entries), level=(6, 1, level), **kw)


GOOD = {
    'data packet': data(32, 2, (12, 10)),
    'data packet with padding': data(32, 2, (10, 10)),
    'largest data packet': data(65536, 1, (65528,)),
    'data packet without records': data(8, 0),
    'index packet': index(32, 1),
    'index packet of level 1': index(48, 2, 1),
    'empty packet': packet(2, 64),
}
BAD = {
    'a packet of unknown type': packet(7, 32),
    'a data packet shorter than its header': data(4, 0),
    'a data packet whose length is not a multiple of four': data(42, 2, (16, 16)),
    'a data packet without streams': data(32, 0),
    'a data packet too short for its stream lengths': data(32, 14),
    'a data packet with far too many streams': data(32, 60000),
    'a data packet whose streams do not fit': data(32, 2, (12, 11)),
    'a data packet whose streams are far too long': data(32, 2, (65000, 65000)),
    'a data packet whose streams do not fill it': data(32, 2, (9, 9)),
    'a data packet with padding that is not zero': data(32, 2, (10, 10), pad=(31, 1, 5)),
    'an index packet shorter than its header': index(12, 1),
    'an index packet whose length is not a multiple of four': index(33, 1),
    'an index packet without entries': index(32, 0),
    'an index packet with too many entries': index(65536, 2049),
    'an index packet whose entries do not fit': index(32, 2),
    'an index packet of too high a level': index(48, 2, 6),
    'an index packet of level 1 with one entry': index(32, 1, 1),
    'an index packet with reserved bytes that are not zero': index(32, 1, 0, reserved=(12, 1, 3)),
    'an empty packet shorter than its header': packet(2, 2),
    'an empty packet whose length is not a multiple of four': packet(2, 30),
}
SIGN = [(i, 1, C(ord(x))) for i, x in enumerate('ASTM-E57')]


def file_header(major=1, minor=0, length=102400, offset=2048, xml=500, page=1024, sign=SIGN):
    return sign + [(8, 4, C(major)), (12, 4, C(minor)), (16, 8, C(length)), (24, 8, C(offset)), (32, 8, C(xml)), (40, 8, C(page))]


GOODH = {'file header': file_header(), 'file header of a draft version': file_header(0, 3)}
BADH = {
    'a file header with another signature': file_header(sign=SIGN[:7] + [(7, 1, C(ord('8')))]),
    'a file header with a spoilt first letter': file_header(sign=[(0, 1, C(ord('a')))] + SIGN[1:]),
    'a file header of a later version': file_header(2),
    'a file header of a later minor version': file_header(1, 1),
    'a file header with a length that is too long': file_header(length=102400 + 1024),
    'a file header with a length that is too short': file_header(length=101376),
    'a file header with another page size': file_header(page=512),
}


def section(ident=1, length=4000, data=3000, index=5000, reserved=0):
    return [(0, 1, C(ident)), (1, 1, C(reserved)), (8, 8, C(length)), (16, 8, C(data)), (24, 8, C(index))]


GOODS = {'section header': section()}
BADS = {
    'a section header of another kind': section(0),
    'a section header with reserved bytes that are not zero': section(reserved=1),
    'a section header with a length that is not a multiple of four': section(length=4002),
    'a section header with a length beyond the file': section(length=102400),
    'a section header with data beyond the file': section(data=102400),
    'a section header with data far beyond the file': section(data=2 ** 63),
    'a section header with an index beyond the file': section(index=102404),
}


def p23(c):
    """Packets, section headers and file headers are read, by abstract interpretation of the code that reads them, from a file with given contents:
    each kind of malformed contents must end in an exception on every path, before anything is looked up in memory outside the bytes
    read, handed to a decoder, or read from a position computed from it; well-formed contents must be accepted on some path. The
    bounds of reading from a file and from memory are checked in the same way."""
    P = c.P
    lock = only(P, CACHE, 'lock')

    def pk(c, item):
        name, content, good = item
        r = Reading(P, content)
        at, label, buf, lk = cache(P, r, (0, 0), (0, 0))
        I, outs = outcomes(P, r, lock, cls=CACHE, st=r.start, args=[C(5000), ('refto', ('var', 0, 'packet'))])
        c.used(lock, I.stats['fns'])
        verdict(c, P, r, 'packet', name, good, lock, outs)

    c.each([(k, v, True) for k, v in GOOD.items()] + [(k, v, False) for k, v in BAD.items()], pk)
    streams(c, P)
    opening(c, P)
    sections(c, P)
    bounds(c, P)
    c.floor('packet', 10)
    c.floor('file-header', 3)
    c.floor('section', 3)


def verdict(c, P, r, rule, name, good, f, outs, used=()):
    c.instance(rule, name)
    rets = [o for o in outs if o.kind == 'return']
    if good:
        if not rets:
            c.report(rule, name, P.where(f), 'a well-formed %s cannot be read' % name)
        return
    for o in rets[:1]:
        c.report(rule, name, P.where(f), '%s is accepted' % name)
    for n, b, k in r.beyond[:1]:
        c.report(rule, name + '/memory', node_where(P, n), 'reading %s looks at byte %d; %d bytes were read' % (name, b, k))
    for n in list(used)[:1]:
        c.report(rule, name + '/use', node_where(P, n), '%s is used before it is refused' % name)
    for o in outs:
        if o.kind == 'throw' and 'E57Exception' not in (o.info.get('cls') or 'E57Exception'):
            c.report(rule, name + '/error', P.where(f), '%s is refused with another exception than the library has' % name)


def streams(c, P):
    """the part of a packet that belongs to one stream"""
    cls = 'e57::DataPacket'
    get = only(P, cls, 'getBytestream')
    root = ('at', ('this', cls, True))
    cases = [('stream 0', data(32, 2, (12, 10)), 0, (10, 12)), ('stream 1', data(32, 2, (12, 10)), 1, (22, 10)),
             ('a stream the packet does not have', data(32, 2, (12, 10)), 2, None),
             ('a stream far beyond those of the packet', data(32, 2, (12, 10)), 4000, None),
             ('a stream that ends beyond the packet', data(32, 2, (12, 40)), 1, None),
             ('a stream of an index packet', index(32, 2), 0, None)]
    for name, content, i, want in cases:
        r = Reading(P, content)
        r.roots[root] = cls
        st = r.fill(None, r.start, root, 32, content)
        out = ('var', 0, 'count')
        I, outs = outcomes(P, r, get, cls=cls, st=st, args=[C(i), ('refto', out)])
        c.used(get, I.stats['fns'])
        verdict(c, P, r, 'stream', name, want is not None, get, outs)
        for o in outs:
            if o.kind == 'return' and want is not None:
                k = number(I.load(o.st, out))
                v = I.val_of(o.st, o.value)
                x = r.of(('at', v), 1) if v is not None else None
                if k is not None and k != want[1] or x is not None and x[1] != want[0]:
                    c.report('stream', name, P.where(get), '%s of a packet is found at %s with %s bytes; it is at %d with %d bytes'
                             % (name, x and x[1], k, *want))


class Opening(Reading):
    """opening a file for reading: nothing is done with a header that is refused"""
    def __init__(self, P, content):
        super().__init__(P, content, 102400)
        self.uses = []

    def on_call(self, I, st, n, qn, obj, vs):
        if ('read',) in st.tags and not I.silent and n.get('k') in ('ctor', 'mcall', 'call', 'new') and \
                (qn.startswith('e57::E57Xml') or 'InputSource' in qn) and '~' not in qn:
            self.uses.append(n)
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        return fn.get('cls') in ('e57::ImageFileImpl', 'e57::E57FileHeader')


def opening(c, P):
    cls = 'e57::ImageFileImpl'
    M = ModSets.of(P)
    readers = {f['id'] for f in P.fn.values() if f.get('cls') == CF and f['n'] == 'read'}
    # functions of the image that take a name or memory, and read
    fs = [f for f in P.fn.values() if f.get('cls') == cls and f['body'] is not None and f['kind'] != 'dtor' and not f['static']
          and readers & set(M.closure(f['id'])) and any(x in P.fn and P.fn[x]['qn'].startswith('e57::E57XmlParser::') for x in M.closure(f['id']))
          and f['n'] not in ('close', 'cancel')]
    if not fs:
        raise Broken('the function that opens an image was not found')

    def one(c, item):
        f, name, content, good = item
        r = Opening(P, content)
        this = ('this', cls, True)
        args = []
        for p in f['ps']:
            if 'ChecksumPolicy' not in p['t'] and p['t'].startswith('&') and 'basic_string' in p['t'] and p['n'].lower().endswith('mode'):
                args.append(('s', 'r'))
            else:
                args.append(None)
        args = [a if a is not None else I_arg(p) for a, p in zip(args, f['ps'])]
        I, outs = outcomes(P, r, f, this=this, st=State(), args=args)
        c.used(f, I.stats['fns'])
        if not r.reads and good:
            return
        reached = [o for o in outs if ('read',) in o.st.tags]
        verdict(c, P, r, 'file-header', '%s (%s)' % (name, '/'.join(p['n'] for p in f['ps'])), good, f, reached, r.uses)

    c.each([(f, k, v, True) for f in fs for k, v in GOODH.items()] + [(f, k, v, False) for f in fs for k, v in BADH.items()], one)


def I_arg(p):
    t = p['t']
    if t.startswith('&'):
        return ('refto', ('at', ('sym', 'ref:' + p['n'])))
    if t.startswith('R:'):
        return ('rec', ('at', ('sym', 'val:' + p['n'])))
    return ('sym', 'arg:' + p['n'])


class Section(Reading):
    """a reader being made: the section header read, and the first packet"""
    def __init__(self, P, content, first):
        super().__init__(P, content, 102400)
        self.first = first
        self.uses = []

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if qn == CACHE + '::lock':
            if not I.silent:
                self.uses.append(n)
            pk = ('new', 'R:e57::DataPacket', 'packet')
            root = ('at', pk)
            self.roots[root] = 'e57::DataPacket'
            st = self.fill(I, st, root, 32, self.first)
            if vs[1] is not None and vs[1][0] == 'refto':
                st = I.store(st, vs[1][1], pk, n)
            return [(st, ('new', 'R:' + LOCK, 'lock'))]
        if nm == 'setBuffers' or qn.startswith(('e57::Decoder::', CACHE + '::')):
            return [I.fresh(st, n, ty=n.get('t'))]
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        return fn.get('cls') in (R, CVH, 'e57::DataPacket', 'e57::DataPacketHeader')


def sections(c, P):
    fs = [f for f in P.fn.values() if f.get('cls') == R and f['kind'] == 'ctor' and f['body'] is not None and len(f['ps']) >= 2]
    if len(fs) != 1:
        raise Broken('the constructor of a reader was not found')
    f = fs[0]
    good = data(32, 2, (12, 10))

    def one(c, item):
        name, content, first, ok = item
        r = Section(P, content, first)
        at = ('fld', ('at', ('this', R, True)), field_of(P, R, 'vector<e57::DecodeChannel>'))
        r.sizes[at] = 1
        I, outs = outcomes(P, r, f, cls=R, st=r.start)
        c.used(f, I.stats['fns'])
        reached = [o for o in outs if ('read',) in o.st.tags]
        verdict(c, P, r, 'section', name, ok, f, reached, r.uses if content is not None and first is good else ())

    c.each([(k, v, good, True) for k, v in GOODS.items()] + [(k, v, good, False) for k, v in BADS.items()] +
           [('a section that starts with an index packet', section(), index(32, 1), False),
            ('a section that starts with an empty packet', section(), packet(2, 32), False)], one)


class Bounded(World):
    """reading past the end"""
    def __init__(self, length=0, pos=0):
        super().__init__()
        self.length, self.pos, self.touched = length, pos, []

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if qn == CF + '::length':
            return [(st, C(self.length))]
        if qn == CF + '::position':
            return [(st, C(self.pos))]
        if qn.startswith(CF + '::read') and nm != 'read':
            if not I.silent:
                self.touched.append(n)
            return [I.fresh(st, n, ty=n.get('t'))]
        return super().on_call(I, st, n, qn, obj, vs)

    def on_load(self, I, st, loc, node):
        if not I.silent and any(x == ('sym', 'memory') for x in subterms(loc)):
            self.touched.append(node)
        return st


def bounds(c, P):
    for pos, n in ((0, 5001), (5000, 1), (4990, 11), (6000, 1), (1000, 70000)):
        for f in P.fn.values():
            if f.get('cls') == CF and f['n'] == 'read' and f['body'] is not None:
                r = Bounded(5000, pos)
                I, outs = outcomes(P, r, f, cls=CF, args=[I_arg(p) if i != 1 else C(n) for i, p in enumerate(f['ps'])])
                c.used(f, I.stats['fns'])
                past(c, P, r, f, outs, '%d bytes at %d of a file of 5000 bytes' % (n, pos))
    memory(c, P, 'bounds')


def memory(c, P, rule, seeks=False):
    """reading (and, if asked, moving) past the end of a file held in memory"""
    v = P.rec.get(VIEW)
    if v is None:
        return
    mem = [x['n'] for x in v['fs'] if x['t'].startswith('*')]
    nums = [x['n'] for x in v['fs'] if x['t'] == 'u64']
    size = [x for x in nums if 'ize' in x or 'en' in x.lower()]
    cur = [x for x in nums if x not in size[:1]]
    if not (len(mem) == len(size[:1]) == len(cur) == 1):
        return
    this = ('at', ('this', VIEW, True))

    def run(f, pos, args):
        r = Bounded()
        r.vals = {('fld', this, mem[0]): ('sym', 'memory'), ('fld', this, size[0]): C(1000), ('fld', this, cur[0]): C(pos)}
        I, outs = outcomes(P, r, f, cls=VIEW, args=args)
        c.used(f, I.stats['fns'])
        return r, outs
    for f in list(P.fn.values()):
        if f.get('cls') != VIEW or f['body'] is None:
            continue
        if f['n'] == 'read':
            for pos, n in ((0, 1001), (1000, 1), (500, 501), (2000, 1), (1, 2 ** 64 - 1), (1000, 2 ** 64 - 500)):
                r, outs = run(f, pos, [('sym', 'arg:out'), C(n)])
                past(c, P, r, f, outs, '%d bytes at %d of 1000 bytes of memory' % (n, pos), rule)
        if seeks and f['n'] == 'seek' and len(f['ps']) == 2 and f['ret'] == 'b':
            for pos, off, whence, to in ((0, 1001, 0, 1001), (500, 2 ** 33, 0, 2 ** 33), (500, 501, 1, 1001)):
                what = 'to %d in 1000 bytes of memory' % to
                c.instance(rule, what)
                r, outs = run(f, pos, [C(off), C(whence)])
                if any(o.kind == 'return' and o.value is not None and o.value[0] == 'c' and o.value[1] for o in outs):
                    c.report(rule, short(f) + '/seek', P.where(f), 'moving %s succeeds' % what)


def past(c, P, r, f, outs, what, rule='bounds'):
    c.instance(rule, what)
    if any(o.kind == 'return' for o in outs):
        c.report(rule, short(f), P.where(f), 'reading %s succeeds' % what)
    elif r.touched:
        c.report(rule, short(f) + '/touch', node_where(P, r.touched[0]), 'reading %s looks at memory or the file before it is refused' % what)


# ---------------------------------------------------------------- the packet cache
class Caching(Reading):
    """a cache at work: which buffers are overwritten from which positions"""
    def __init__(self, P, content, fails=False):
        super().__init__(P, content)
        self.fails = fails
        self.victims = set()

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == CF + '::seek':
            st = st.cp()
            st.heap[('gvar', '#pos')] = ('L', I.val_of(st, vs[0]))
            return [(st, None)]
        if qn == CF + '::read':
            x = self.of(('at', I.val_of(st, vs[0])), 1)
            if x is not None and x[0] in self.roots:
                pos = st.heap.get(('gvar', '#pos'))
                st = st.untag_if(lambda t: t[:2] == ('over', x[0])).tag(('over', x[0], pos))
                if self.fails:
                    self.victims.add(x[0])
                    return None
                return Reading.on_call(self, I, st, n, qn, obj, vs)
        return super().on_call(I, st, n, qn, obj, vs)

    def opaque_throws(self, I, st, n, qn):
        return {'code': 'ErrorReadFailed', 'cls': 'R:e57::E57Exception'} if self.fails and qn == CF + '::read' else False


class Using(World):
    """packets obtained from the cache: only the latest may be looked at"""
    unroll = 0
    MARK = 'R:packet'

    def __init__(self, P):
        super().__init__()
        self.P = P
        self.fields, self.start = image_open(P)
        self.stale, self.seen = [], 0

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == CACHE + '::lock' and len(vs) == 2:
            if not I.silent:
                self.seen += 1
            p = ('new', self.MARK, I.site(n))
            st = st.untag_if(lambda t: t[0] == 'latest').tag(('latest', p))
            if vs[1] is not None and vs[1][0] == 'refto':
                st = I.store(st, vs[1][1], p, n)
            elif vs[1] is not None and vs[1][0] == 'addr':
                st = I.store(st, vs[1][1], p, n)
            return [(st, ('new', 'R:' + LOCK, I.site(n)))]
        self.look(I, st, n, [v for v in list(vs) + [obj] if v is not None])
        return super().on_call(I, st, n, qn, obj, vs)

    def look(self, I, st, n, terms):
        if I.silent:
            return
        latest = {t[1] for t in st.tags if t[0] == 'latest'}
        for t in terms:
            for x in subterms(t):
                if x[0] == 'new' and x[1] == self.MARK and x not in latest:
                    self.stale.append(n)

    def on_load(self, I, st, loc, node):
        if loc[0] != 'var' and not node.get('t', '').startswith(('R:std', '*')):
            self.look(I, st, node, [loc])
        return st

    def inline(self, I, fn, node):
        return fn.get('cls') in (R, 'e57::DataPacket', 'e57::DataPacketHeader') or fn.get('file', '').endswith('CompressedVectorReaderImpl.cpp')


def p24(c):
    """The packet cache is analysed with given entries: a packet that is there is returned from its own entry without reading; one that is not is
    read into one entry, which then carries its position, and no other entry changes; after a failure no overwritten entry carries a
    position; nothing is handed out, read or replaced while a packet is in use; the lock counts up on success only, and its destructor
    counts down. In the reader, memory of a packet is not looked at after another was asked for, and locks are not kept or given away."""
    P = c.P
    lock = only(P, CACHE, 'lock')
    out = ('var', 0, 'packet')

    def run(labels, ages, want, content=None, locks=0, fails=False):
        r = Caching(P, content or GOOD['data packet'], fails)
        at, label, buf, lk = cache(P, r, labels, ages, locks)
        I, outs = outcomes(P, r, lock, cls=CACHE, st=r.start, args=[C(want), ('refto', out)])
        c.used(lock, I.stats['fns'])
        entry = [('idx', at, C(i)) for i in range(len(labels))]
        return r, I, outs, entry, label, buf, lk

    def over(o):
        return {t[1]: t[2] for t in o.st.tags if t[0] == 'over'}

    w = P.where(lock)
    for labels, ages, want in (((100, 200, 300), (5, 3, 9), 200), ((100, 200, 300), (5, 3, 9), 300), ((700, 0, 0), (1, 0, 0), 700),
                               ((100, 200, 300), (5, 3, 9), 400), ((100, 200, 300), (3, 9, 5), 404), ((100, 200, 0), (3, 9, 0), 500), ((100,), (7,), 600),
                               ((100, 200, 300), (5, 3, 9), 150), ((100, 200, 300), (5, 3, 9), 50), ((2 ** 32 + 100, 200), (9, 5), 100)):
        r, I, outs, entry, label, buf, lk = run(labels, ages, want)
        key = 'position %d, cache with %s' % (want, '/'.join(map(str, labels)))
        c.instance('lookup', key)
        rets = [o for o in outs if o.kind == 'return']
        if not rets:
            c.report('lookup', 'never', w, 'a packet cannot be obtained (%s)' % key)
        for o in rets:
            changed = over(o)
            p = I.val_of(o.st, I.load(o.st, out))
            x = r.of(('at', p), 1) if p is not None else None
            here = [i for i, e in enumerate(entry) if x is not None and x[0] == ('fld', e, buf)]
            if not here or x[1] != 0:
                if x is not None or p == C0:
                    c.report('lookup', 'buffer', w, 'the memory handed out is not that of an entry of the cache (%s)' % key)
                continue
            i = here[0]
            if ('fld', entry[i], buf) in changed:
                if changed[('fld', entry[i], buf)] != ('L', C(want)):
                    c.report('lookup', 'place', w, 'the packet handed out was not read from the position asked for (%s)' % key)
            elif labels[i] != want:
                c.report('lookup', 'other', w, 'the packet handed out is the one of position %d (%s)' % (labels[i], key))
            for j, e in enumerate(entry):
                v = number(I.load(o.st, ('fld', e, label)))
                if v is None:
                    continue
                if ('fld', e, buf) in changed and v not in (0, number(changed[('fld', e, buf)][1])):
                    c.report('lookup', 'label', w, 'an entry holds the packet of one position under another (%s)' % key)
                if ('fld', e, buf) not in changed and v not in (0, labels[j]):
                    c.report('lookup', 'relabel', w, 'an entry is labelled with a position its packet was not read from (%s)' % key)
            if number(I.load(o.st, lk)) not in (None, 1):
                c.report('lookup', 'count', w, 'a packet is handed out without counting as in use (%s)' % key)
            v = I.val_of(o.st, o.value)
            back = [x['n'] for x in P.rec[LOCK]['fs'] if CACHE in x['t']]
            if v is not None and v[0] == 'new' and back:
                b = I.load(o.st, ('fld', ('at', v), back[0]))
                if b == C0:
                    c.report('lookup', 'lock', w, 'the lock handed out does not know its cache (%s)' % key)
        for o in outs:
            if o.kind == 'throw':
                failed(c, P, I, o, over(o), entry, label, buf, lk, labels, w, key)
    # failures
    for name, content in list(BAD.items())[:8]:
        r, I, outs, entry, label, buf, lk = run((100, 200), (5, 3), 400, content)
        c.instance('failure', name)
        for o in outs:
            if o.kind == 'throw':
                failed(c, P, I, o, over(o), entry, label, buf, lk, (100, 200), w, name)
    r, I, outs, entry, label, buf, lk = run((100, 200), (5, 3), 400, None, 0, True)
    c.instance('failure', 'the file cannot be read')
    for o in outs:
        if o.kind == 'throw':
            failed(c, P, I, o, dict.fromkeys(r.victims), entry, label, buf, lk, (100, 200), w, 'the file cannot be read')
    # in use
    for want in (100, 400):
        for locks in (1, 2):
            r, I, outs, entry, label, buf, lk = run((100, 200), (5, 3), want, None, locks)
            c.instance('in-use', 'position %d, %d in use' % (want, locks))
            for o in outs:
                if o.kind == 'return':
                    c.report('in-use', 'second', w, 'a second packet is handed out while one is in use')
                if over(o):
                    c.report('in-use', 'replace', w, 'an entry is replaced while a packet is in use')
    # release
    un = only(P, CACHE, 'unlock')
    r = Caching(P, None)
    at, label, buf, lk = cache(P, r, (100,), (5,), 1)
    I, outs = outcomes(P, r, un, cls=CACHE, st=r.start)
    c.used(un, I.stats['fns'])
    c.instance('release', short(un))
    if not any(o.kind == 'return' for o in outs):
        c.report('release', 'unlock', P.where(un), 'a packet in use cannot be released')
    for o in outs:
        if o.kind == 'return' and number(I.load(o.st, lk)) not in (None, 0):
            c.report('release', 'unlock', P.where(un), 'releasing a packet does not count it down')
    dt = [f for f in P.fn.values() if f.get('cls') == LOCK and f['kind'] == 'dtor' and f['body'] is not None]
    if not dt:
        c.report('release', 'lock', P.where(un), 'destroying a lock does not release its packet')
    for f, i in [(f, i) for f in dt for i in (0, 1, 31)]:
        r = Caching(P, None)
        for x in P.rec[LOCK]['fs']:
            if x['t'] == 'u32':
                r.vals[('fld', ('at', ('this', LOCK, True)), x['n'])] = C(i)
        cf = [x['n'] for x in P.rec[LOCK]['fs'] if CACHE in x['t']]
        ca = ('new', 'R:' + CACHE, 'cache')
        at, label, buf, lk = cache(P, r, (100,), (5,), 1, ca)
        r.vals[('fld', ('at', ('this', LOCK, True)), cf[0])] = ca
        I, outs = outcomes(P, r, f, cls=LOCK, st=r.start)
        c.used(f, I.stats['fns'])
        c.instance('release', short(f))
        for o in outs:
            if number(I.load(o.st, lk)) not in (None, 0):
                c.report('release', 'lock', P.where(f), 'destroying a lock does not release its packet')
    using(c, P)
    c.floor('lookup', 4)
    c.floor('uses', 1)


def failed(c, P, I, o, over, entry, label, buf, lk, labels, w, key):
    for j, e in enumerate(entry):
        v = number(I.load(o.st, ('fld', e, label)))
        if ('fld', e, buf) in over and v not in (None, 0):
            c.report('failure', 'label', w, 'after a failure, an entry that was overwritten is still found under position %d (%s)' % (v, key))
        if ('fld', e, buf) not in over and v not in (None, 0, labels[j]):
            c.report('failure', 'relabel', w, 'after a failure, an entry is found under a position its packet was not read from (%s)' % key)
    if number(I.load(o.st, lk)) not in (None, 0):
        c.report('failure', 'count', w, 'after a failure, a packet counts as in use (%s)' % key)


def using(c, P):
    """who asks for packets, and what becomes of the locks"""
    lock = only(P, CACHE, 'lock')
    M = ModSets.of(P)
    fs = [f for f in P.fn.values() if f.get('cls') == R and f['body'] is not None and lock['id'] in M.closure(f['id'])]
    for f in fs:
        r = Using(P)
        at = ('fld', ('at', ('this', R, True)), field_of(P, R, 'vector<e57::DecodeChannel>'))
        I, outs = outcomes(P, r, f, cls=R, st=r.start)
        c.used(f, I.stats['fns'])
        if r.seen:
            c.instance('uses', short(f))
        for n in r.stale[:1]:
            c.report('uses', short(f), node_where(P, n), 'the memory of a packet is looked at after another packet was asked for')
    for rec in P.rec.values():
        for x in rec['fs']:
            if LOCK in x['t'] and rec['qn'].startswith('e57::'):
                c.report('locks', rec['qn'], '%s:%s' % (rec.get('file'), rec.get('l')), 'a lock of the packet cache is kept in %s' % rec['qn'])
    for f in P.fn.values():
        for n in fn_nodes(f):
            if n.get('k') in ('mcall', 'call') and n.get('n') == 'release' and 'PacketLock' in (n.get('qn') or ''):
                c.report('locks', short(f), node_where(P, n), 'a lock of the packet cache is given away and never released')
            if n.get('k') == 'new' and n.get('t') == '*R:' + LOCK:
                c.instance('locks', node_where(P, n))
                if f.get('cls') != CACHE:
                    c.report('locks', short(f), node_where(P, n), 'a lock is made outside the packet cache')
