"""Record readers and writers: the buffers they are given, and how many records they move."""
from vlib.tools import *
from .buffers import SDB, members, clean
from .trees import World, image_open
from .nodes import accessor

W, R = 'e57::CompressedVectorWriterImpl', 'e57::CompressedVectorReaderImpl'
LIST = 'R:std::vector<e57::SourceDestBuffer>'
NEW = ('at', ('sym', 'ref:bufs'))           # the caller's list


def field_of(P, cls, t):
    xs = [x['n'] for x in P.rec[cls]['fs'] if t in x['t']]
    if len(xs) != 1:
        raise Broken('%s has %d members of type %s' % (cls, len(xs), t))
    return xs[0]


class Lists(World):
    """a prototype with the fields `proto`, current buffers `old` and offered buffers `new`: lists of dicts of buffer attributes"""
    SETS = ('std::set<', 'std::unordered_set<')

    def __init__(self, P, cls, m, proto, old, new, streams):
        super().__init__()
        self.P, self.cls = P, cls
        this = ('at', ('this', cls, True))
        self.cur = ('fld', this, field_of(P, cls, 'std::vector<e57::SourceDestBuffer>'))
        impl = P.rec['e57::SourceDestBuffer']['fs'][0]['n']
        path = accessor(P, SDB + '::pathName')
        self.impl = impl
        self.bufs = {}
        self.heap = {}              # contents of the lists (in the state, so that copies of a list have them)
        for where, pre, bs in ((self.cur, 'old', old), (NEW, 'new', new)):
            self.sizes[where] = len(bs)
            for i, b in enumerate(bs):
                s = ('sym', '%s%d' % (pre, i))
                self.heap[('fld', ('idx', where, C(i)), impl)] = s
                self.bufs[s] = b
                for k, v in b.items():
                    if k == 'name':
                        self.vals[('fld', ('at', s), path)] = ('s', v)
                    else:
                        self.vals[('fld', ('at', s), m[k])] = C(v)
        self.root = ('new', 'R:e57::StructureNodeImpl', 'proto')
        self.leaf = {('new', 'R:e57::IntegerNodeImpl', 'leaf%d' % i): x for i, x in enumerate(proto)}
        self.order = list(self.leaf)
        self.vals[('fld', this, field_of(P, cls, 'std::shared_ptr<e57::NodeImpl>'))] = self.root
        kids = field_of(P, 'e57::StructureNodeImpl', 'vector<std::shared_ptr<e57::NodeImpl>>')
        at = ('fld', ('at', self.root), kids)
        self.sizes[at] = len(proto)
        for i, l in enumerate(self.leaf):
            self.vals[('idx', at, C(i))] = l
        self.names = proto
        self.given = {}
        self.effects = []
        ch = [x for x in P.rec[cls]['fs'] if 'vector<std::shared_ptr<e57::Encoder>>' in x['t'] or 'vector<e57::DecodeChannel>' in x['t']]
        if len(ch) != 1:
            raise Broken('the list of streams of %s was not found' % cls)
        at = ('fld', this, ch[0]['n'])
        self.sizes[at] = streams
        self.coders = [('sym', 'coder%d' % i) for i in range(streams)]
        dec = None
        if 'DecodeChannel' in ch[0]['t']:
            dec = field_of(P, 'e57::DecodeChannel', 'shared_ptr<e57::Decoder>')
            self.chan = field_of(P, 'e57::DecodeChannel', 'e57::SourceDestBuffer')
        self.streams = at
        for i, s in enumerate(self.coders):
            loc = ('idx', at, C(i))
            self.vals[('fld', loc, dec) if dec else loc] = s

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        v0 = I.val_of(st, vs[0]) if vs else None
        if nm in ('isDefined', 'lookup') and obj == self.root:
            k = v0[1] if v0 is not None and v0[0] == 's' else None
            if nm == 'isDefined':
                return [(st, C(int(k in self.names)))]
            return [(st, next((l for l, x in self.leaf.items() if x == k), C0))]
        if nm == 'get' and obj == self.root and v0 is not None and v0[0] == 's':
            hit = [l for l, x in self.leaf.items() if x == v0[1]]
            if hit:
                return [(st, hit[0])]
        if nm == 'relativePathName' and obj in self.leaf:
            return [(st, ('s', self.leaf[obj]))]
        if nm in ('pathName', 'imageFileName', 'elementName') and obj is not None and (obj in self.leaf or obj == self.root):
            return [(st, ('sym', 'text'))]
        if nm == 'shared_from_this':
            return [(st, obj)]
        if nm == 'findTerminalPosition' and len(vs) == 2:
            if v0 in self.leaf and vs[1][0] == 'refto':
                return [(I.store(st, vs[1][1], C(self.order.index(v0)), n), C1)]
        if nm == 'bytestreamNumber' and obj in self.coders:
            return [(st, C(self.coders.index(obj)))]
        if nm in ('sourceBufferSetNew', 'destBufferSetNew') and obj in self.coders:
            loc = vs[0][1] if vs[0][0] in ('refto', 'rec') else None
            b = I.load(st, ('fld', ('idx', loc, C0), self.impl)) if loc else None
            if not I.silent:
                self.given.setdefault(obj, []).append((n, b))
            return [(st.tag(('given', obj)), None)]
        if nm in ('processRecords', 'inputProcess', 'allocateSpace', 'incrWriterCount', 'incrReaderCount', 'EncoderFactory', 'DecoderFactory'):
            if not I.silent:
                self.effects.append(n)
            if nm in ('EncoderFactory', 'DecoderFactory'):
                return [(st, I.fresh(st, n, ty=n.get('t')))]
        if qn.startswith('std::vector<e57::SourceDestBuffer') and n['k'] in ('opcall', 'mcall'):
            r = self.lists(I, st, n, obj, vs)
            if r is not None:
                return r
        r = self.sets(I, st, n, qn, obj, vs, v0)
        if r is not None:
            return r
        return super().on_call(I, st, n, qn, obj, vs)

    def on_store(self, I, st, loc, val, node):
        if val is not None and val[0] == 'ld' and val[1] in self.sizes and loc[0] != 'tmp':
            st = st.cp()                # a whole list is assigned
            for i in range(self.sizes[val[1]]):
                v = I.load(st, ('fld', ('idx', val[1], C(i)), self.impl))
                st.heap[('fld', ('idx', loc, C(i)), self.impl)] = v
        return st

    def lists(self, I, st, n, obj, vs):
        """assignments of whole lists"""
        nm = n.get('n')
        dst = self.where(obj) if obj is not None else self.where(vs[0]) if vs and vs[0][0] == 'refto' else None
        if nm in ('swap', 'assign', 'clear', 'push_back', 'emplace_back', 'insert', 'resize') and dst == self.cur:
            return [(st.tag(('other',)), None)]
        return None

    def sets(self, I, st, n, qn, obj, vs, v0):
        """sets of texts"""
        nm = n.get('n')
        if n['k'] != 'mcall' or not qn.startswith(self.SETS) or obj is None:
            return None
        loc = self.where(obj)
        if nm in ('insert', 'emplace', 'find', 'count', 'contains') and v0 is not None and v0[0] == 's':
            there = ('in', loc, v0[1]) in st.tags
            if nm == 'find':
                return [(st, ('it', loc, C(-1) if there else ('m', 'size', I.load(st, loc))))]      # (end() is the position of that index)
            if nm in ('count', 'contains'):
                return [(st, C(int(there)))]
            st = st.tag(('in', loc, v0[1]))
            t = ('tmp', 'pair', n['nid'])
            st = I.store(I.store(st, ('fld', t, 'second'), C(int(not there)), n), ('fld', t, 'first'), ('it', loc, C(-1)), n)
            return [(st, ('rec', t))]
        return None

    @staticmethod
    def where(v):
        return v[1] if v[0] in ('addr', 'refto', 'rec') else ('at', v)


def p33(c):
    """The functions that accept a list of buffers are analysed with lists of two and three buffers over a prototype with two or three fields: a
    list with differing capacities, a repeated name, an unknown name, (for writing) a missing field, or (when buffers were set before)
    any attribute that differs must raise the documented error before any stream, file space or kept list is touched. An acceptable list
    must be accepted, kept, and handed to the encoder or decoder of its own field, which must use it from then on."""
    P = c.P
    m = members(P)
    base, st0 = image_open(P)

    def buf(name, **kw):
        d = {'name': name, 'capacity': 10, 'memoryRepresentation': 5, 'doConversion': 0, 'doScaling': 0, 'stride': 4}
        d.update(kw)
        return d
    ab = [buf('a'), buf('b')]
    cases = []          # (what, code, proto, old, new, only)
    sz, dup, und, mis, inc = 'ErrorBufferSizeMismatch', 'ErrorBufferDuplicatePathName', 'ErrorPathUndefined', 'ErrorNoBufferForElement', 'ErrorBuffersNotCompatible'
    cases += [('capacities', sz, 'ab', [], [buf('a'), buf('b', capacity=11)], None), ('smaller capacity', sz, 'ab', [], [buf('a', capacity=11), buf('b')], None),
              ('third capacity', sz, 'abc', [], [buf('a'), buf('b'), buf('c', capacity=9)], None), ('repeated name', dup, 'ab', [], [buf('a'), buf('b'), buf('a')], None),
              ('same name twice', dup, 'a', [], [buf('a'), buf('a')], None), ('unknown name', und, 'ab', [], [buf('a'), buf('b'), buf('x')], None),
              ('unknown first name', und, 'a', [], [buf('x'), buf('a')], None),
              ('missing field', mis, 'ab', [], [buf('a')], W), ('missing first field', mis, 'ab', [], [buf('b')], W), ('missing last field', mis, 'abc', [], ab, W)]
    for k, v in (('name', None), ('capacity', 12), ('memoryRepresentation', 7), ('doConversion', 1), ('doScaling', 1), ('stride', 8)):
        if k == 'name':
            cases.append(('other order', inc, 'ab', ab, ab[::-1], None))
        elif k == 'capacity':
            cases.append(('other ' + k, inc, 'ab', ab, [buf('a', **{k: v}), buf('b', **{k: v})], None))
        else:
            cases.append(('other %s of the first' % k, inc, 'ab', ab, [buf('a', **{k: v}), buf('b')], None))
            cases.append(('other %s of the second' % k, inc, 'ab', ab, [buf('a'), buf('b', **{k: v})], None))
    cases += [('fewer than before', inc, 'ab', ab, [buf('a')], R), ('more than before', inc, 'ab', [buf('a')], ab, R)]
    cases += [('accepted', None, 'ab', [], ab, None), ('accepted in another order', None, 'ab', [], ab[::-1], None), ('replaced', None, 'ab', ab, ab, None),
              ('replaced in another order', None, 'ab', ab[::-1], ab[::-1], None), ('some fields', None, 'ab', [], [buf('b')], R)]
    entries = []
    for cls in (W, R):
        for f in P.fn.values():
            if f.get('cls') == cls and f['body'] is not None and not f['imp'] and any(clean(p['t']) == LIST for p in f['ps']):
                entries.append((cls, f['id']))
    # what the library itself calls is analysed through its callers as well
    todo = [(cls, fid, x) for cls, fid in sorted(entries) for x in cases if x[5] in (None, cls)]

    def one(c, item):
        cls, fid, (what, code, proto, old, new, only) = item
        f = P.fn[fid]
        ctor = f['kind'] == 'ctor'
        if ctor and (old or code is None):
            return
        if not old and not ctor and f['n'] in ('read', 'write'):
            return
        name = '%s %s' % (short(f), what)
        c.instance('list', name)
        r = Lists(P, cls, m, proto, old, new, len(old) if old else 0)
        r.fields.update(base)
        for x in P.rec[cls]['fs']:
            if x['t'] == 'b':
                r.fields[x['n']] = C1
        for x in P.rec['e57::CompressedVectorNodeImpl']['fs']:
            if 'shared_ptr<e57::NodeImpl>' in x['t']:
                r.fields.setdefault(x['n'], r.root)
        args = []
        for p in f['ps']:
            if clean(p['t']) == LIST:
                args.append(('refto', NEW))
            elif clean(p['t']) in ('u64', 'i64', 'u32'):
                args.append(C1)
            else:
                args.append(('sym', 'arg:' + p['n']))
        st = st0.cp()
        st.heap.update(r.heap)
        if ctor:
            st = st.assume(cmp_('!=', args[0], C0))
        I, outs = outcomes(P, r, f, this=('this', cls, True), args=args, st=st, cls=cls, noinline=())
        c.used(I.stats['fns'])
        w = P.where(f)
        rets = [o for o in outs if o.kind == 'return']
        if code:
            if rets:
                c.report('list', name, w, '%s accepts a list of buffers it must refuse (%s)' % (f['qn'], what))
            elif not any(o.code == code for o in outs):
                c.report('list', name, w, '%s raises %s for a list of buffers with %s, not %s' % (f['qn'], sorted({str(o.code) for o in outs}), what, code))
            if r.effects:
                c.report('list', name + '/effect', node_where(P, r.effects[0]), '%s acts before it refuses a list of buffers (%s)' % (f['qn'], what))
            if r.given:
                c.report('list', name + '/given', w, '%s passes a refused buffer on to a stream (%s)' % (f['qn'], what))
            return
        if f['n'] in ('read', 'write'):
            return
        if not rets:
            c.report('list', name, w, '%s refuses a proper list of buffers (%s): %s' % (f['qn'], what, sorted({str(o.code) for o in outs})))
        for o in rets:
            if ('other',) in o.st.tags:
                continue            # replaced in a way that is not followed
            for i in range(len(new)):
                v = I.load(o.st, ('fld', ('idx', r.cur, C(i)), r.impl))
                if v is not None and v[0] == 'sym' and v in r.bufs and v != ('sym', 'new%d' % i):
                    c.report('list', name + '/kept', w, '%s does not keep the buffers it was given (%s)' % (f['qn'], what))
            for i, s in enumerate(r.coders):
                got = [b for n, b in r.given.get(s, [])]
                want = proto[i] if cls == W else new[i]['name']
                if ('given', s) not in o.st.tags:
                    c.report('list', name + '/used', w, '%s accepts new buffers, but the stream of %s goes on using the old one' % (f['qn'], want))
                for b in got:
                    if b in r.bufs and (r.bufs[b]['name'] != want or b[1][:3] != 'new'):
                        c.report('list', name + '/used', w, '%s hands the stream of %s the buffer of %s' % (f['qn'], want, r.bufs[b]['name']))
                if cls == R:
                    v = I.load(o.st, ('fld', ('fld', ('idx', r.streams, C(i)), r.chan), r.impl))
                    if v in r.bufs and v != ('sym', 'new%d' % i) or v is not None and v[0] == 'ld':
                        c.report('list', name + '/count', w, '%s accepts new buffers, but counts the records of stream %d in the old one' % (f['qn'], i))
    c.each(todo, one)
    c.floor('list', 40)

    # ---- a stream uses the buffer it was given
    for cls in sorted(x for x in P.rec if {'e57::Encoder', 'e57::Decoder'} & set(P.bases(x))):
        for nm in ('sourceBufferSetNew', 'destBufferSetNew'):
            for f in P.fns('%s::%s' % (cls, nm)):
                if f['body'] is None:
                    continue
                c.instance('stream', short(f))
                flds = [x['n'] for k in [cls] + P.bases(cls) if k in P.rec for x in P.rec[k]['fs'] if 'shared_ptr<%s>' % SDB in x['t']]
                r = World()
                impl = P.rec['e57::SourceDestBuffer']['fs'][0]['n']
                r.sizes[NEW] = 1
                r.vals[('fld', ('idx', NEW, C0), impl)] = ('sym', 'given')
                I, outs = outcomes(P, r, f, this=('this', cls, True), args=[('refto', NEW)], cls=cls)
                c.used(I.stats['fns'])
                for o in outs:
                    if o.kind == 'return' and len(flds) == 1 and I.load(o.st, ('fld', ('at', ('this', cls, True)), flds[0])) != ('sym', 'given'):
                        c.report('stream', short(f), P.where(f), '%s does not take over the buffer it is given' % f['qn'])
                if not any(o.kind == 'return' for o in outs):
                    c.report('stream', short(f), P.where(f), '%s cannot complete' % f['qn'])
    c.floor('stream', 4)


# ---------------------------------------------------------------- record counts
CVN = 'e57::CompressedVectorNodeImpl'


def only(P, cls, name, pred=None):
    fs = [f for f in P.fn.values() if f.get('cls') == cls and f['n'] == name and f['body'] is not None and (pred is None or pred(f))]
    if len(fs) != 1:
        raise Broken('%s::%s was not found' % (cls, name))
    return fs[0]


def uncast(v):
    while v is not None and v[0] == 'cast':
        v = v[3]
    return v


class Near(World):
    """follows the functions of one class that touch given members; everything else is opaque"""
    unroll = 0

    def __init__(self, P, cls, names=()):
        super().__init__()
        self.P, self.cls, self.names = P, cls, set(names)
        self.fields, self.start = image_open(P)
        for x in P.rec[cls]['fs']:
            if x['t'] == 'b':
                self.fields[x['n']] = C1

    def touches(self, fid):
        M = ModSets.of(self.P)
        return any(x in self.P.fn and self.P.fn[x].get('cls') == self.cls and self.names & M.direct.get(x, set()) for x in {fid} | set(M.closure(fid)))

    def inline(self, I, fn, node):
        return fn.get('cls') == self.cls and self.touches(fn['id'])

    def opaque_throws(self, I, st, n, qn):
        if self.names and n.get('id') in ModSets.of(self.P).known:
            return Throws.of(self.P).call(n['id'])
        return False


class Closing(Near):
    """what the writer stores in its vector"""
    def __init__(self, P, names=()):
        super().__init__(P, W, names)
        self.stored = []

    def on_call(self, I, st, n, qn, obj, vs):
        if n.get('n') == 'setRecordCount' and qn.startswith(CVN):
            if not I.silent:
                self.stored.append((n, I.val_of(st, vs[0])))
            return [(st.untag_if(lambda t: t[0] == 'stored').tag(('stored', I.val_of(st, vs[0]))), None)]
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        M = ModSets.of(self.P)
        return fn.get('cls') == self.cls and (self.touches(fn['id']) or any(x.endswith('@S@CompressedVectorNodeImpl@F@setRecordCount#L#') for x in M.closure(fn['id'])))


class Streams(Near):
    """a writer with encoders that take at most `pace` records at a time"""
    unroll = 60

    def __init__(self, P, paces, full):
        super().__init__(P, W)
        ch = field_of(P, W, 'vector<std::shared_ptr<e57::Encoder>>')
        at = ('fld', ('at', ('this', W, True)), ch)
        self.sizes[at] = len(paces)
        self.coders = {}
        for i, p in enumerate(paces):
            s = ('sym', 'coder%d' % i)
            self.vals[('idx', at, C(i))] = s
            self.coders[s] = p
        self.full = full

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if obj in self.coders:
            g = ('gvar', '#at:' + obj[1])
            if nm == 'currentRecordIndex':
                return [(st, st.heap.get(g, C(10)))]
            if nm == 'processRecords':
                k, now = I.val_of(st, vs[0]), st.heap.get(g, C(10))
                if k[0] != 'c' or now[0] != 'c':
                    return [(I.store(st, g, I.fresh(st, n, ty='u64'), n), None)]
                if now[1] + k[1] > self.end and not I.silent:
                    self.over.append(n)
                now = C(now[1] + min(k[1], self.coders[obj]))
                return [(I.store(st, g, now, n), now)]
            if nm == 'outputAvailable':
                k = st.heap.get(('gvar', '#packets'), C0)
                return [(st, C(60000 if self.full and k == C0 else 8))]
        if nm == 'currentPacketSize':
            k = st.heap.get(('gvar', '#packets'), C0)
            return [(st, C(60000 if self.full and k == C0 else 8))]
        if nm == 'packetWrite':
            return [(I.store(st, ('gvar', '#packets'), C1, n), C0)]
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        return True


class Delivered(Near):
    """a reader whose decoders fill its buffers with given numbers of records"""
    unroll = 8

    def __init__(self, P, counts):
        super().__init__(P, R)
        m = members(P)
        at = ('fld', ('at', ('this', R, True)), field_of(P, R, 'vector<e57::DecodeChannel>'))
        own = ('fld', ('at', ('this', R, True)), field_of(P, R, 'std::vector<e57::SourceDestBuffer>'))
        dec, buf = field_of(P, 'e57::DecodeChannel', 'shared_ptr<e57::Decoder>'), field_of(P, 'e57::DecodeChannel', 'e57::SourceDestBuffer')
        impl = P.rec['e57::SourceDestBuffer']['fs'][0]['n']
        self.sizes[at] = self.sizes[own] = len(counts)
        self.next = m['nextIndex']
        self.fill = {}
        for i, k in enumerate(counts):
            s, b = ('sym', 'decoder%d' % i), ('new', 'R:' + SDB, 'buffer%d' % i)
            for x in [('idx', at, C(i))] + [at] * (i == 0):
                self.vals[('fld', x, dec)] = s
                self.vals[('fld', ('fld', x, buf), impl)] = b
            self.vals[('fld', ('idx', own, C(i)), impl)] = b
            self.vals[('fld', ('at', b), self.next)] = C(9)
            self.fill[s] = (b, k)

    def on_call(self, I, st, n, qn, obj, vs):
        nm = n.get('n')
        if nm == 'inputProcess' and obj in self.fill:
            b, k = self.fill[obj]
            return [(I.store(st, ('fld', ('at', b), self.next), k, n), C0)]
        if obj in self.fill:
            return [(st, I.fresh(st, n, ty=n.get('t')))]
        return super().on_call(I, st, n, qn, obj, vs)

    def inline(self, I, fn, node):
        return fn.get('cls') in (R, 'e57::DecodeChannel', SDB, 'e57::SourceDestBuffer', 'e57::NodeImpl') and fn['n'] != 'feedPacketToDecoders'


def p25(c):
    """The number the writer stores in its vector on closing must be a member that starts at zero, is raised by exactly the requested number
    on every successful write and is unchanged by a failing one; write must not return before every encoder has taken exactly the requested
    records, whatever the pace of the encoders. The vector must hand that number to the decoders; each decoder, analysed with a stream
    that holds more records than stored or than the buffer has room for, must deliver exactly the smaller number, count what it
    delivered, and deliver nothing afterwards. read must return the number of records in the buffers, or fail if they differ."""
    P = c.P
    this = ('at', ('this', W, True))
    # -- the counter
    close = only(P, W, 'close')
    r = Closing(P)
    I, outs = outcomes(P, r, close, cls=W, st=r.start)
    c.used(close, I.stats['fns'])
    terms = [uncast(v) for n, v in r.stored]
    cand = {x[1][2] for v in terms for x in subterms(v) if x[0] == 'ld' and x[1][0] == 'fld' and x[1][1] == this}
    if len(cand) != 1:
        c.instance('closing', short(close))
        c.report('closing', short(close), P.where(close), 'closing a writer does not store the number of its records in the vector')
        return
    counter = cand.pop()
    own = ('ld', ('fld', this, counter), None)
    for n, v in r.stored:
        c.instance('closing', node_where(P, n))
        if uncast(v) != own:
            c.report('closing', short(close), node_where(P, n), 'the number stored in the vector is not the number of records counted')
    r = Closing(P, [counter])
    I, outs = outcomes(P, r, close, cls=W, st=r.start)
    for o in outs:
        if o.kind == 'return' and not any(t[0] == 'stored' for t in o.st.tags):
            c.report('closing', short(close), P.where(close), 'a writer can be closed without storing the number of its records')
    loc = ('fld', this, counter)
    for f in P.fn.values():
        if f.get('cls') != W or f['body'] is None or f['imp']:
            continue
        r = Near(P, W, [counter])
        counted = f['n'] == 'write' and len(f['ps']) == 1
        if counted or f['kind'] == 'ctor' or r.touches(f['id']):
            if f['kind'] == 'dtor':
                continue
            starts = [r.start]
            for p in f['ps']:
                if clean(p['t']) == 'u64':
                    a = ('sym', 'arg:' + p['n'])
                    TYPES[a] = 'u64'
                    starts = [s.assume(x) for s in starts for x in (cmp_('==', a, C0), cmp_('>', a, C0))]
            outs = []
            for s in starts:
                I, os = outcomes(P, r, f, cls=W, st=s)
                outs += os
                c.used(f, I.stats['fns'])
            c.instance('counter', short(f))
            for o in outs:
                v = uncast(o.st.heap.get(loc, own))
                if f['kind'] == 'ctor':
                    if o.kind == 'return' and v != C0:
                        c.report('counter', short(f), P.where(f), 'a new writer does not start with no records')
                elif o.kind == 'throw':
                    if v != own and not o.st.ent(cmp_('==', v, own)):
                        c.report('counter', short(f), throw_line(P, o), 'records of a failing %s are counted' % f['n'])
                elif f['n'] == 'write':
                    n = [x for x in f['ps'] if clean(x['t']) == 'u64']
                    if len(n) != 1:
                        if v != own and not r.touches(f['id']):
                            c.report('counter', short(f), P.where(f), 'the count changes')
                        continue
                    n = ('sym', 'arg:' + n[0]['n'])
                    want = arith('+', own, n)
                    if v != want and not o.st.ent(cmp_('==', v, want)) and not (v == own and o.st.ent(cmp_('==', n, C0))):
                        c.report('counter', short(f), P.where(f), 'a successful write of n records does not raise the number of records by n')
                elif v != own and f['n'] != 'setBuffers':
                    c.report('counter', short(f), P.where(f), '%s changes the number of records' % f['n'])
    # -- all streams take all records
    write = only(P, W, 'write', lambda f: len(f['ps']) == 1)
    for n in (1, 49, 51, 120):
        for paces in ((1000, 1000), (1000, 17), (9, 1000, 33)):
            for full in (False, True):
                r = Streams(P, paces, full)
                r.end, r.over = 10 + n, []
                r.fields[members(P)['capacity']] = C(1000)
                r.vals[loc] = C(10)
                r.sizes[('fld', this, field_of(P, W, 'std::vector<e57::SourceDestBuffer>'))] = 2
                I, outs = outcomes(P, r, write, cls=W, st=r.start, args=[C(n)])
                c.used(write, I.stats['fns'])
                key = '%d records, encoders of pace %s%s' % (n, '/'.join(map(str, paces)), ', packet full' if full else '')
                c.instance('streams', key)
                if r.over:
                    c.report('streams', short(write), node_where(P, r.over[0]), 'an encoder is asked for more records than requested (%s)' % key)
                    continue
                if not any(o.kind == 'return' for o in outs):
                    c.report('streams', short(write), P.where(write), 'write never succeeds (%s)' % key)
                for o in outs:
                    if o.kind != 'return':
                        continue
                    for s in r.coders:
                        v = o.st.heap.get(('gvar', '#at:' + s[1]), C(10))
                        if v[0] == 'c' and v[1] != 10 + n:
                            c.report('streams', short(write), P.where(write), 'write of %s returns when an encoder has taken %d of them' % (key, v[1] - 10))
    # -- the vector
    keep = accessor(P, CVN + '::getRecordCount') or accessor(P, CVN + '::childCount')
    f = only(P, CVN, 'setRecordCount')
    I, outs = outcomes(P, Near(P, CVN), f, cls=CVN)
    c.instance('vector', short(f))
    c.used(f)
    for o in outs:
        if o.kind == 'return' and uncast(o.st.heap.get(('fld', ('at', ('this', CVN, True)), keep))) != ('sym', 'arg:' + f['ps'][0]['n']):
            c.report('vector', short(f), P.where(f), 'the vector does not keep the number of records it is given')
    f = only(P, CVN, 'childCount')
    r = Near(P, CVN)
    I, outs = outcomes(P, r, f, cls=CVN, st=r.start)
    c.instance('vector', short(f))
    c.used(f)
    for o in outs:
        if o.kind == 'return' and uncast(o.value) != ('ld', ('fld', ('at', ('this', CVN, True)), keep), None):
            c.report('vector', short(f), P.where(f), 'the number of children of a vector is not the number of records it was given')
    # -- decoders
    from .coders import Field, record, within, made, WIDTH, delivering
    delivering(c, P)
    # -- the reader
    read = only(P, R, 'read', lambda f: not f['ps'])
    k = ('sym', 'delivered')
    TYPES[k] = 'u32'
    for counts in ((k,), (k, k), (C(3), C(4)), (C(4), C(3), C(3)), (C(5), C(5), C(4)), (C0, C0)):
        r = Delivered(P, counts)
        for x in P.rec['e57::DecodeChannel']['fs']:
            if x['t'] == 'b':
                r.fields[x['n']] = C1
        I, outs = outcomes(P, r, read, cls=R, st=r.start)
        c.used(read, I.stats['fns'])
        key = 'buffers of %s' % '/'.join(str(x[1]) for x in counts)
        c.instance('reader', key)
        done = [o for o in outs if o.kind == 'return']
        if len(set(counts)) > 1:
            if done:
                c.report('reader', short(read), P.where(read), 'read returns although its decoders delivered different numbers of records')
        elif not done:
            c.report('reader', short(read), P.where(read), 'read never succeeds')
        for o in done:
            if len(set(counts)) == 1 and uncast(o.value) != counts[0] and not o.st.ent(cmp_('==', o.value, counts[0])):
                c.report('reader', short(read), P.where(read), 'read does not return the number of records its decoders delivered')
    c.floor('counter', 2)
    c.floor('streams', 10)
    c.floor('reader', 5)
