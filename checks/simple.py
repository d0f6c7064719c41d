"""The simple API: what its writer stores against what its reader looks up, its point buffers, and what it refuses."""
import math
import struct

from vlib.tools import *
from .trees import World

WRITER, READER = 'e57::Writer', 'e57::Reader'
IMF = 'e57::ImageFile'
KINDS = {'e57::%sNode' % k: k for k in ('Structure', 'Vector', 'CompressedVector', 'Integer', 'ScaledInteger', 'Float', 'String', 'Blob')}
DBL = 1.7976931348623157e308


def node(k):
    return ('new', 'R:e57::NodeImpl', ('node', k))


def attr(k):
    return ('gvar', '#node', k)


def kids(k):
    return ('gvar', '#kids', k)


WIDTH = {'i8': (8, 1), 'u8': (8, 0), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0), 'b': (1, 0)}


def wrap(t, x):
    """x converted to type t"""
    if x is None:
        return None
    if t == 'f32':
        try:
            return struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf
    if t == 'f64':
        return float(x)
    if t == 'b':
        return int(bool(x))
    w = WIDTH.get(t)
    if w is None:
        return int(x) if t.startswith('E:') and x == x and abs(x) != math.inf else x
    if x != x or abs(x) == math.inf:
        return None
    x = int(x) & ((1 << w[0]) - 1)
    return x - (1 << w[0]) if w[1] and x >> (w[0] - 1) else x


def value(v, env):
    """the value of a term over labels (None: unknown)"""
    k = v[0]
    if k in ('c', 'fc'):
        return v[1]
    if k == 'sym':
        return env.get(v)
    if k in ('cast', 'f2i', 'i2f', 'f2f'):
        return wrap(v[1], value(v[-1], env))
    if k in ('pc', 'm') and len(v) == 3 and isinstance(v[2], tuple):
        x = value(v[2], env)
        f = {'floor': math.floor, 'ceil': math.ceil, 'round': lambda y: math.floor(y + 0.5), 'trunc': math.trunc, 'abs': abs, 'fabs': abs}.get(v[1].rpartition('::')[2])
        return None if x is None or f is None or x != x or abs(x) == math.inf else float(f(x))
    if k in ('op', 'fop', 'min', 'max') and len(v) >= 3:
        a, b = value(v[-2], env), value(v[-1], env)
        if a is None or b is None:
            return None
        if k in ('min', 'max'):
            return (min if k == 'min' else max)(a, b)
        if v[1] == '/':
            if not b:
                return None
            return a / b if k == 'fop' else int(a / b) if abs(a) < 1 << 50 else a // b
        return {'+': a + b, '-': a - b, '*': a * b}.get(v[1])
    if k == 'ite':
        c = holds(v[1], env)
        return None if c is None else value(v[2] if c else v[3], env)
    if k in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 't', 'f', 'flt', 'fle', 'feq', 'fne'):
        c = holds(v, env)
        return None if c is None else int(c)
    return None


def holds(v, env):
    """whether a condition over labels holds (None: unknown)"""
    k = v[0]
    if k == 'c':
        return bool(v[1])
    if k == 'not':
        r = holds(v[1], env)
        return None if r is None else not r
    if k in ('and', 'or'):
        rs = [holds(x, env) for x in v[1:]]
        stop = k == 'or'
        if stop in rs:
            return stop
        return None if None in rs else not stop
    if k in ('lt', 'le', 'eq', 'ne', 'flt', 'fle', 'feq', 'fne'):
        a, b = value(v[1], env), value(v[2], env)
        if a is None or b is None:
            return None
        return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[k[-2:]]
    if k in ('t', 'f') and len(v) == 2:
        a = value(v[1], env)
        return None if a is None else bool(a) == (k == 't')
    return None


class Tree(World):
    """Elements created through the public node classes are kept as a tree: kind and attributes of each, and the names of its children.
    Members of a description hold labels ('sym', 'f:<path>'), which are ordinary values different from every default."""
    unroll = 64

    def __init__(self, P):
        super().__init__()
        self.P, self.seen, self.odd = P, 0, []
        self.types = {k: int(P.enum_value('e57::NodeType', 'Type' + k)) for k in KINDS.values()}
        self.labels = {}
        self.used, self.streams, self.moves = {}, [], []

    # ------------------------------------------------------------- branch decisions
    def decide(self, I, st, n, v):
        return holds(v, self.labels)

    # ------------------------------------------------------------- elements
    def make(self, I, st, kind, *vs):
        self.seen += 1
        st = st.cp()
        k = self.seen
        st.heap[attr(k)] = ('node', kind) + vs
        st.heap[kids(k)] = ('kids',)
        return st, k

    def key(self, I, st, obj):
        """the element a handle refers to"""
        l = I.deref(obj) if obj[0] != 'rec' else obj[1]
        v = st.heap.get(l)
        if v is not None and v[0] == 'refto':
            l = v[1]
        v = I.load(st, ('fld', l, 'impl_'))
        if v is not None and v[0] == 'new' and v[2][0] == 'node':
            return v[2][1]
        return None

    def bind(self, I, st, loc, k):
        st = st.cp()
        st.heap[('fld', loc, 'impl_')] = node(k)
        return st

    def give(self, I, st, n, k):
        loc = ('tmp', I.site(n), k)
        return [(self.bind(I, st, loc, k), ('rec', loc))]

    def find(self, st, k, path):
        """the element at a path below k"""
        if path.startswith('/'):
            k, path = 'root', path[1:]
        for p in path.split('/') if path else ():
            a = st.heap[kids(k)]
            if a[0] != 'kids':
                return None
            for nm, c in a[1:]:
                if nm == p:
                    k = c
                    break
            else:
                return None
        return k

    def refuse(self, I, st, n, code):
        I.raise_(st, {'code': code, 'cls': 'e57::E57Exception', 'node': n}, n)
        return []

    def on_call(self, I, st, n, qn, obj, vs):
        cls, name = qn.rpartition('::')[0], n.get('n') or qn.rpartition('::')[2]
        if cls == IMF:
            return self.image(I, st, n, name, obj, vs)
        if cls == 'e57::SourceDestBuffer' and n['k'] == 'ctor' and len(vs) > 3:
            f = self.P.fn.get(n.get('id'))
            return [(self.bound(I, st, n, vs, f['ps'][2]['t'] if f else None), None)]
        if name == 'emplace_back' and len(vs) > 3 and cls.startswith('std::vector<e57::SourceDestBuffer'):
            return [(self.bound(I, st, n, vs, n['as'][2].get('t')), None)]
        if cls in ('e57::CompressedVectorWriter', 'e57::CompressedVectorReader') and obj is not None and n['k'] != 'ctor':
            if not I.silent:
                self.moves.append((name, [I.val_of(st, v) for v in vs], n))
            return [(st, self.label('moved') if name == 'read' else None)]
        if cls == 'e57::Node' or cls in KINDS:
            f = self.P.fn.get(n.get('id'))
            if n['k'] == 'ctor' and obj is not None and f is not None:
                return self.create(I, st, n, KINDS.get(cls), obj, vs, f)
            if obj is not None:
                return self.method(I, st, n, KINDS.get(cls), name, obj, vs, f)
        if name == 'generateRandomGUID':
            return [(st, ('s', 'random guid'))]
        if strip_tmpl(qn) == 'std::make_unique':
            return None
        return super().on_call(I, st, n, qn, obj, vs)

    def image(self, I, st, n, name, obj, vs):
        if n['k'] == 'ctor':
            return [(st, None)]
        if name == 'root':
            return self.give(I, st, n, 'root')
        if name == 'isOpen' or name == 'isWritable':
            return [(st, C1)]
        if name == 'close':
            return [(st, None)]
        if name == 'extensionsAdd':
            st = st.cp()
            st.heap[('gvar', '#ext', I.val_of(st, vs[0]))] = I.val_of(st, vs[1])
            return [(st, None)]
        if name == 'extensionsLookupPrefix':
            v = st.heap.get(('gvar', '#ext', I.val_of(st, vs[0])))
            if v is not None and len(vs) > 1:
                st = I.store(st, vs[1][1], v, n)
            return [(st, C(int(v is not None)))]
        return None

    def create(self, I, st, n, kind, obj, vs, f):
        loc = I.deref(obj)
        ps = [p['t'] for p in f['ps']]
        if len(ps) == 1 and ps[0].startswith('&R:e57::') and ps[0][1:][2:] in list(KINDS) + ['e57::Node']:
            k = self.key(I, st, ('addr', vs[0][1]))
            if k is None:
                return None
            have = st.heap[attr(k)][1]
            if kind is not None and have != kind and ps[0] == '&R:e57::Node':
                return self.refuse(I, st, n, 'ErrorBadNodeDowncast')
            return [(self.bind(I, st, loc, k), None)]
        if kind is None or not ps or ps[0] != '&R:' + IMF:
            return None
        av = [I.val_of(st, v) for v in vs[1:]]
        if kind == 'CompressedVector':
            av = [('kid', self.key(I, st, ('addr', v[1]))) for v in vs[1:3]]
        if kind == 'ScaledInteger' and ps[1] == 'f64':
            scale, off = av[3], av[4]
            raw = lambda x: ('f2i', 'i64', ('pc', 'std::floor', ('fop', '+', ('fop', '/', ('fop', '-', x, off), scale), ('fc', 0.5))))
            av = [raw(x) for x in av[:3]] + av[3:]
        st, k = self.make(I, st, kind, *av)
        return [(self.bind(I, st, loc, k), None)]

    def method(self, I, st, n, kind, name, obj, vs, f):
        k = self.key(I, st, obj)
        if k is None or attr(k) not in st.heap:
            return None
        a = st.heap[attr(k)]
        if f is not None and f['kind'] == 'conv':
            return self.give(I, st, n, k)
        if name == 'type':
            return [(st, C(self.types[a[1]]))]
        if name == 'elementName':
            return [(st, st.heap.get(('gvar', '#name', k), ('s', '')))]
        if name == 'childCount' and a[1] != 'CompressedVector':
            return [(st, C(len(st.heap[kids(k)]) - 1))]
        if name == 'childCount':
            return [(st, self.label('count of %s' % st.heap.get(('gvar', '#name', k), ('s', '?'))[1]))]
        if name in ('isDefined', 'get', 'set', 'append'):
            return self.children(I, st, n, name, k, vs)
        if name == 'prototype':
            return self.give(I, st, n, a[2][1])
        if name == 'codecs':
            return self.give(I, st, n, a[3][1])
        if name in ('writer', 'reader'):
            return self.stream(I, st, n, name, k, vs)
        want = {'Integer': ('value', 'minimum', 'maximum'), 'String': ('value',), 'Blob': ('byteCount',),
                'Float': ('value', 'precision', 'minimum', 'maximum'),
                'ScaledInteger': ('rawValue', 'minimum', 'maximum', 'scale', 'offset')}.get(a[1], ())
        if name in want:
            return [(st, a[2 + want.index(name)])]
        if a[1] == 'ScaledInteger' and name in ('scaledValue', 'scaledMinimum', 'scaledMaximum'):
            raw = a[2 + ('scaledValue', 'scaledMinimum', 'scaledMaximum').index(name)]
            return [(st, ('fop', '+', ('fop', '*', ('i2f', 'f64', raw), a[5]), a[6]))]
        if a[1] == 'Blob' and name in ('read', 'write'):
            if not I.silent:
                self.used.setdefault(name, []).append((st.heap.get(('gvar', '#name', k)), k, [I.val_of(st, v) for v in vs]))
            return [(st, None)]
        return None

    def label(self, name, t='i64'):
        """a value of type t that is different from every other one"""
        v = ('sym', 'f:' + name)
        if v not in self.labels:
            k = len(self.labels) + 1
            self.labels[v] = {'i64': 5000000000 + 17 * k, 'u64': 7000000000 + 17 * k, 'i32': 2000000000 + 17 * k, 'u32': 4000000000 + 17 * k,
                              'u16': 60000 + 17 * k, 'i16': 30000 + k, 'u8': 130 + k % 120, 'i8': 10 + k % 110,
                              'f32': wrap('f32', 100000.125 + k), 'f64': 100000.123456789 + 7.3 * k}.get(t, 4096 * k)
            if name.endswith('Scale'):
                self.labels[v] = 0.001 * (7 + k)
            TYPES[v] = t
        return v

    # ------------------------------------------------------------- point records
    def bound(self, I, st, n, vs, ty):
        """a buffer is bound to an element"""
        a = [I.val_of(st, v) for v in vs[1:]]
        st = st.cp()
        k = ('gvar', '#bound')
        st.heap[k] = st.heap.get(k, ('bound',)) + (('b', a[0], a[1], a[2], a[3] if len(a) > 3 else C0, a[4] if len(a) > 4 else C0, ('s', ty or ''), ('s', node_where(self.P, n))),)
        return st

    def stream(self, I, st, n, name, k, vs):
        l = ('gvar', '#bound')
        got = st.heap.get(l, ('bound',))
        st = st.cp()
        st.heap.pop(l, None)
        if not I.silent:
            self.streams.append((name, k, got, n))
        loc = ('tmp', I.site(n), k)
        st.heap[('fld', loc, 'impl_')] = ('new', 'R:e57::CompressedVector%sImpl' % name.capitalize(), ('stream', k))
        return [(st, ('rec', loc))]

    def children(self, I, st, n, name, k, vs):
        a = st.heap[kids(k)]
        if a[0] != 'kids':
            self.odd.append((n, I.path(), None))
            return None
        if name == 'append':
            c = self.key(I, st, ('addr', vs[0][1]))
            nm = str(len(a) - 1)
        else:
            p = I.val_of(st, vs[0])
            if p is not None and p[0] == 'c' and name == 'get':
                if not 0 <= p[1] < len(a) - 1:
                    return self.refuse(I, st, n, 'ErrorChildIndexOutOfBounds')
                return self.give(I, st, n, a[1 + p[1]][1])
            if p is None or p[0] != 's':
                self.odd.append((n, I.path(), p))
                return None
            if name == 'isDefined':
                return [(st, C(int(self.find(st, k, p[1]) is not None)))]
            if name == 'get':
                c = self.find(st, k, p[1])
                if c is None:
                    return self.refuse(I, st, n, 'ErrorPathUndefined')
                return self.give(I, st, n, c)
            c = self.key(I, st, ('addr', vs[1][1]))
            up, _, nm = p[1].rpartition('/')
            k = self.find(st, k, up)
            if k is None:
                self.odd.append((n, I.path(), p))
                return None
            a = st.heap[kids(k)]
            if any(x == nm for x, _ in a[1:]):
                return self.refuse(I, st, n, 'ErrorSetTwice')
        if c is None:
            self.odd.append((n, I.path(), None))
            return None
        st = st.cp()
        st.heap[kids(k)] = a + ((nm, c),)
        st.heap[('gvar', '#name', c)] = ('s', nm)
        st.heap[('gvar', '#up', c)] = node(k)
        return [(st, None)]


PTR = '->'


def leaves(P, cls, at=()):
    """scalar members of a record, and of the records in it: [(path, type)]"""
    out = []
    for x in P.rec[cls]['fs']:
        t = x['t']
        m = t[len('R:std::unique_ptr<'):].split(',')[0].rstrip('>') if t.startswith('R:std::unique_ptr<') else None
        if t.startswith('R:e57::') and t[2:] in P.rec:
            out += leaves(P, t[2:], at + (x['n'],))
        elif m in P.rec:
            out += leaves(P, m, at + (x['n'], PTR))
        else:
            out.append((at + (x['n'],), t))
    return out


def place(st, loc, path):
    for p in path:
        if p == PTR:
            v = st.heap.get(loc)
            if v is None or v[0] != 'new':
                return None
            loc = ('at', v)
        else:
            loc = ('fld', loc, p)
    return loc


def is_str(t):
    return t.startswith('R:std::basic_string<')


def defaults(P, cls, loc, st):
    """state in which a record has the values of its member initialisers"""
    r = Tree(P)
    st = st.cp()
    own = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'ctor' and not f['ps'] and f['body'] is not None]
    if own:
        I, outs = outcomes(P, r, own[0], this=('addr', loc), st=st)
        if len(outs) != 1:
            raise Broken('constructor of %s has several outcomes' % cls)
        st = outs[0].st.cp()
    for x in P.rec[cls]['fs']:
        l, t = ('fld', loc, x['n']), x['t']
        i = x.get('i')
        if t.startswith('R:e57::') and t[2:] in P.rec:
            if l not in st.heap and not any(k[0] == 'fld' and k[1] == l for k in st.heap):
                st = defaults(P, t[2:], l, st)
        elif own:
            pass
        elif i is not None and 'cv' in i:
            st.heap[l] = C(int(i['cv']))
        elif i is not None and 'cf' in i:
            st.heap[l] = ('fc', float(i['cf']))
        elif is_str(t):
            st.heap[l] = ('s', '')
        elif t.startswith('R:std::vector<'):
            st.heap[l] = ('vec',)
        elif is_ptrlike(t) or t.startswith('*'):
            st.heap[l] = C0
        else:
            raise Broken('%s::%s has no initial value' % (cls, x['n']))
    return st


class Undecided(Exception):
    pass


class Trip:
    """A writer and then a reader work on one tree, through the public classes"""
    def __init__(self, P, c=None):
        self.P, self.r, self.c = P, Tree(P), c
        st = State()
        st.heap[attr('root')] = ('node', 'Structure')
        st.heap[kids('root')] = ('kids',)
        self.st = st
        self.w, self.rd = ('new', 'R:' + WRITER, 'writer'), ('new', 'R:' + READER, 'reader')
        self.n = 0
        self.threw = None

    def call(self, f, this, args):
        self.threw = None
        I, outs = outcomes(self.P, self.r, f, this=this, args=list(args), st=self.st)
        if self.c is not None:
            self.c.used(I.stats['fns'])
        if self.r.odd:
            raise Undecided('%s: %s' % (f['qn'], node_where(self.P, self.r.odd[0][0])))
        rets = [o for o in outs if o.kind == 'return']
        if not rets and outs:
            self.threw = outs[0]
            return None
        if len(outs) != 1:
            raise Undecided('%s has several outcomes' % f['qn'])
        self.st = outs[0].st
        return outs[0]

    def fn(self, qn, *types):
        """a public function by name, and by the types of its parameters where given"""
        fs = [f for f in self.P.fns(qn) if f['body'] is not None and (not types or [p['t'] for p in f['ps']][:len(types)] == list(types))]
        if not fs:
            raise Broken('%s not found' % qn)
        return fs[0]

    def record(self, cls, name, like=None):
        """a record with the values of its initialisers"""
        l = ('at', ('new', 'R:' + cls, name))
        self.st = defaults(self.P, cls, l, self.st)
        return l

    def put(self, loc, path, v):
        self.st = self.st.cp()
        for i, p in enumerate(path):
            if p == PTR:
                l = place(self.st, loc, path[:i])
                if self.st.heap.get(l, C0)[0] != 'new':
                    cls = [x['t'] for x in self.P.rec[self.cls]['fs'] if x['n'] == path[i - 1]]
                    cls = cls[0][len('R:std::unique_ptr<'):].split(',')[0].rstrip('>')
                    v0 = ('new', 'R:' + cls, ('ext',) + path[:i])
                    self.st = defaults(self.P, cls, ('at', v0), self.st).cp()
                    self.st.heap[l] = v0
        self.st.heap[place(self.st, loc, path)] = v

    def sample(self, path, t):
        k = '.'.join(path)
        if t == 'b':
            return C1
        if is_str(t):
            return ('s', 'text of ' + k)
        if t.startswith('R:std::vector<'):
            return ('vec', ('s', 'one of ' + k), ('s', 'two of ' + k))
        return self.r.label(k, t)

    def options(self):
        l = self.record('e57::WriterOptions', 'options')
        self.cls = 'e57::WriterOptions'
        for path, t in leaves(self.P, 'e57::WriterOptions'):
            self.put(l, path, self.sample(('option',) + path, t))
        return l

    def open_writer(self):
        l = self.options()
        f = self.fn(WRITER + '::Writer', '&R:std::basic_string<char>', '&R:e57::WriterOptions')
        return self.call(f, self.w, [('refto', ('at', ('sym', 'path'))), ('refto', l)])

    def open_reader(self):
        f = self.fn(READER + '::Reader', '&R:std::basic_string<char>', '&R:e57::ReaderOptions')
        return self.call(f, self.rd, [('refto', ('at', ('sym', 'path'))), ('refto', self.record('e57::ReaderOptions', 'roptions'))])


def same(a, b, env):
    """whether what was read is what was given; None: not known"""
    if a is None or b is None:
        return None
    if a == b:
        return True
    if a[0] in ('s', 'vec') or b[0] in ('s', 'vec'):
        known = ('s', 'vec', 'c', 'fc')
        return False if a[0] in known and b[0] in known or a[0] == 'sym' or b[0] == 'sym' else None
    x, y = value(a, env), value(b, env)
    if x is None or y is None:
        return None
    if x == y:
        return True
    tol = 1.0 if any(s[0] == 'f2i' for s in subterms(b)) else 1e-9 * max(abs(x), abs(y)) if any(s[0] == 'fop' for s in subterms(b)) else 0
    return abs(x - y) <= tol


def dotted(path):
    return '.'.join(path).replace('.->.', '.')


def setting(P, t, cls, loc, sets):
    """store samples (True) or given values in members of a description; what was stored"""
    t.cls = cls
    out = {}
    for path, ty in leaves(P, cls):
        k = dotted(path)
        if k in sets:
            v = t.sample(path, ty) if sets[k] is True else sets[k]
            t.put(loc, path, v)
            out[k] = v
    return out


def fails(P, t, what):
    o = t.threw
    return '%s fails with %s (%s)' % (what, o.code, throw_line(P, o))


def numeric(P):
    return {k: C(int(P.enum_value('e57::NumericalNodeType', k))) for k in ('Integer', 'ScaledInteger', 'Float', 'Double')}


def bits(P):
    return [x['n'] for x in P.rec['e57::PointStandardizedFieldsAvailable']['fs'] if x['t'] == 'b']


def data3d_scenarios(P):
    """(name, members to set, members that must come back)"""
    cls = 'e57::Data3D'
    ls = {dotted(p): t for p, t in leaves(P, cls)}
    NT = numeric(P)
    out = [('nothing set', {}, ())]
    plain = [k for k in ls if not k.startswith('pointFields.') and k != 'pointCount' and 'pointGroupingSchemes' not in k]
    for k in plain:
        if k.endswith('isAtomicClockReferenced'):
            d = k.rpartition('.')[0] + '.dateTimeValue'
            out.append((k, {k: True, d: True}, (k, d)))
        else:
            out.append((k, {k: True}, (k,)))
    for b in bits(P):
        out.append((b, {'pointFields.' + b: True}, ('pointFields.' + b,)))
    for nm in ('rowIndex', 'columnIndex'):
        g = 'pointGroupingSchemes.groupingByLine.'
        out.append(('grouping by ' + nm, {g + 'idElementName': ('s', nm), g + 'groupsSize': True, g + 'pointCountSize': True, 'pointCount': True},
                    (g + 'idElementName', g + 'pointCountSize')))
    every = {k: True for k in plain}
    every.update({'pointFields.' + b: True for b in bits(P)})
    for k in ls:
        if k.startswith('pointFields.') and k.endswith(('Minimum', 'Maximum', 'Scale')):
            every[k] = True
    for tn, tv in NT.items():
        for part in ('all', 'spherical'):
            s = dict(every)
            if part == 'spherical':
                for k in list(s):
                    if k.startswith('pointFields.cartesian'):
                        del s[k]
            need = set(s)
            for g in ('pointRange', 'angle', 'intensity', 'time'):
                n = tn if tn != 'Integer' or g in ('intensity', 'time') else 'Double'
                s['pointFields.%sNodeType' % g] = NT[n]
                need.add('pointFields.%sNodeType' % g)
                if n != 'ScaledInteger':
                    need.discard('pointFields.%sScale' % g)
                if n == 'Float':
                    need -= {'pointFields.%sMinimum' % g, 'pointFields.%sMaximum' % g}
                if n in ('Float', 'Double') and g == 'time':
                    need -= {'pointFields.timeMinimum', 'pointFields.timeMaximum'}
            out.append(('every member, %s, numbers as %s' % (part, tn), s, tuple(sorted(need))))
    return out


REPS = {'visualReferenceRepresentation': 'ProjectionVisual', 'pinholeRepresentation': 'ProjectionPinhole',
        'sphericalRepresentation': 'ProjectionSpherical', 'cylindricalRepresentation': 'ProjectionCylindrical'}
PICS = {'jpegImageSize': 'ImageJPEG', 'pngImageSize': 'ImagePNG', 'imageMaskSize': 'ImageMaskPNG'}


def image_scenarios(P):
    cls = 'e57::Image2D'
    ls = {dotted(p): t for p, t in leaves(P, cls)}
    out = [('nothing set', {}, ())]
    for k in ls:
        if k.partition('.')[0] in REPS or k.startswith('pinholeCameraDistortionExt'):
            continue
        if k.endswith('isAtomicClockReferenced'):
            d = k.rpartition('.')[0] + '.dateTimeValue'
            out.append((k, {k: True, d: True}, (k, d)))
        else:
            out.append((k, {k: True}, (k,)))
    for rep in REPS:
        mem = [k for k in ls if k.startswith(rep + '.')]
        for pic, other in (('jpegImageSize', 'pngImageSize'), ('pngImageSize', 'jpegImageSize')):
            for mask in (True, False):
                s = {k: True for k in mem if not k.endswith('.' + other) and (mask or not k.endswith('.imageMaskSize'))}
                out.append(('%s %s%s' % (rep, pic, ' with mask' if mask else ''), s, tuple(sorted(s))))
    s = {k: True for k in ls if k.startswith('pinholeCameraDistortionExt')}
    s.update({k: True for k in ls if k.startswith('pinholeRepresentation.') and 'png' not in k})
    out.append(('distortion', s, tuple(sorted(s))))
    return out


def out_refs(t, f, skip=1):
    """locations for the output parameters of a function"""
    ls = {}
    for p in f['ps'][skip:]:
        ls[p['n']] = ('at', ('new', p['t'][1:], 'out:' + p['n']))
    return ls


def p26(c):
    """The simple writer is interpreted over an abstract tree of elements with each member of a header, scan or image description set
    in turn to a labelled value and with all of them set; the tree it built is handed to the simple reader, also interpreted. Every
    member that was set must come back as the same label in the same member, and the per-point fields must be found again with their
    names, kinds and ranges. Pictures and their masks must come back from the blob they were written to."""
    P = c.P
    enum = lambda e, n: C(int(P.enum_value('e57::' + e, n)))

    def compare(c, rule, name, w, given, need, t, src, M, cls):
        env = t.r.labels
        paths = {dotted(p): p for p, _ in leaves(P, cls)}
        for k in need:
            l = place(t.st, M, paths[k])
            got = t.st.heap.get(l) if l is not None else None
            c.instance(rule, '%s: %s' % (name, k))
            if l is None or got is None:
                c.report(rule, name + '/' + k, w, '%s of %s is not set by reading after it was written (%s)' % (k, cls, name))
            elif same(given[k], got, env) is False:
                c.report(rule, name + '/' + k, w, '%s of %s reads back as another value than the one written (%s)' % (k, cls, name))

    # ---- scans and images
    def one(c, item):
        kind, name, sets, need, base = item
        cls, new, read, vec = (('e57::Data3D', 'NewData3D', 'ReadData3D', 'data3D') if kind == 'scan' else ('e57::Image2D', 'NewImage2D', 'ReadImage2D', 'images2D'))
        t = Trip(P, c)
        rd = t.fn(READER + '::' + read)
        w = P.where(P.some(('e57::ReaderImpl::' + read))[0]) if P.fns('e57::ReaderImpl::' + read) else P.where(rd)
        rule = kind
        try:
            t.open_writer()
            L = t.record(cls, 'given')
            given = setting(P, t, cls, L, sets)
            o = t.call(t.fn(WRITER + '::' + new), t.w, [('refto', L)])
            if o is None:
                c.report(rule, name, throw_line(P, t.threw), fails(P, t, 'writing the description (%s)' % name))
                return None
            index = o.value
            if value(index, t.r.labels) != 0:
                c.report(rule, name + '/index', P.where(t.fn(WRITER + '::' + new)), 'the index returned for the first %s is not 0 (%s)' % (kind, name))
            # the element is in the file, so that a reader can find it
            src = t.st
            if t.open_reader() is None:
                c.report(rule, name, throw_line(P, t.threw), fails(P, t, 'opening what was written (%s)' % name))
                return None
            M = t.record(cls, 'read')
            o = t.call(rd, t.rd, [C0, ('refto', M)])
            if o is None:
                c.report(rule, name, throw_line(P, t.threw), fails(P, t, 'reading the description back (%s)' % name))
                return None
            if o.value is None or value(o.value, t.r.labels) == 0:
                c.report(rule, name, w, '%s answers that there is nothing to read (%s)' % (read, name))
                return None
            compare(c, rule, name, w, given, need, t, src, M, cls)
            vals = {}
            for path, ty in leaves(P, cls):
                l = place(t.st, M, path)
                vals[dotted(path)] = t.st.heap.get(l) if l is not None else None
            # nothing else changes
            for k, v in vals.items():
                if base is None or k in sets or k not in base or k.startswith('pointFields.') and not k.endswith('Field'):
                    continue
                if v != base[k] and same(base[k], v, t.r.labels) is False:
                    c.report(rule, name + '/' + k, w, '%s of %s reads back differently although only %s was given' % (k, cls, name))
            if base is None and not sets:
                D = t.record(cls, 'plain')
                for path, ty in leaves(P, cls):
                    k = dotted(path)
                    if PTR in path or k in ('guid', 'pointCount') or k.startswith('pointFields.'):
                        continue
                    c.instance(rule, 'default ' + k)
                    if same(t.st.heap.get(place(t.st, D, path)), vals[k], t.r.labels) is False:
                        c.report(rule, 'default/' + k, w, '%s of %s was left at its default and reads back as something else' % (k, cls))
            if kind == 'image' and name.split(' ')[0] in REPS:
                pictures(c, t, name, sets)
            if kind == 'scan':
                counts = {'pointCount': 'points'}
                if name.startswith('grouping'):
                    counts['pointGroupingSchemes.groupingByLine.groupsSize'] = 'groups'
                for k, e in counts.items():
                    c.instance(rule, '%s: %s' % (name, k))
                    if vals[k] is None or same(t.r.label('count of ' + e), vals[k], t.r.labels) is False:
                        c.report(rule, name + '/' + k, w, '%s of %s reads back as something else than the number of records of %s' % (k, cls, e))
                if name.startswith(('grouping', 'indexBounds', 'every')):
                    sizes(c, t, name, sets)
                if name.startswith('every'):
                    siblings(c, t, name)
            return vals
        except Undecided as e:
            c.instance('undecided', '%s %s: %s' % (kind, name, e))
            return None

    def pictures(c, t, name, sets):
        rep, pic = name.split(' ')[0], name.split(' ')[1]
        env = t.r.labels
        f = t.fn(READER + '::GetImage2DSizes')
        ls = out_refs(t, f)
        o = t.call(f, t.rd, [C0] + [('refto', l) for l in ls.values()])
        names = list(ls)
        masked = rep + '.imageMaskSize' in sets
        want = [enum('Image2DProjection', REPS[rep]), enum('Image2DType', PICS[pic])] + [('sym', 'f:%s.%s' % (rep, x)) for x in ('imageWidth', 'imageHeight', pic)]
        want += [enum('Image2DType', 'ImageMaskPNG' if masked else 'ImageNone'), enum('Image2DType', PICS[pic] if 'Visual' in REPS[rep] else 'ImageNone')]
        if o is None or o.value is None or value(o.value, env) == 0:
            c.report('sizes', name, P.where(f), 'the sizes of an image that was written cannot be read (%s)' % name)
            return
        for nm, v in zip(names, want):
            c.instance('sizes', '%s: %s' % (name, nm))
            got = t.st.heap.get(ls[nm])
            if got is None or same(v, got, env) is False:
                c.report('sizes', name + '/' + nm, P.where(f), '%s does not give the %s of the image that was written (%s)' % (f['qn'], nm, name))
        for p, ty in PICS.items():
            if '%s.%s' % (rep, p) not in sets:
                continue
            for who, fname, key in ((t.w, WRITER + '::WriteImage2DData', 'write'), (t.rd, READER + '::ReadImage2DData', 'read')):
                f = t.fn(fname, 'i64')
                t.r.used = {}
                vals = []
                for q in f['ps']:
                    if q['t'] == 'E:e57::Image2DType':
                        vals.append(enum('Image2DType', ty))
                    elif q['t'] == 'E:e57::Image2DProjection':
                        vals.append(enum('Image2DProjection', REPS[rep]))
                    elif q is f['ps'][0]:
                        vals.append(C0)
                    else:
                        vals.append(t.r.label('arg.' + q['n'], q['t']))
                mem, start, count = [v for v in vals if v[0] == 'sym']
                o = t.call(f, who, vals)
                c.instance('pictures', '%s %s %s' % (fname, name, p))
                k = '%s/%s/%s' % (fname.rpartition('::')[2], name, p)
                acc = t.r.used.get(key, [])
                if o is None or not acc:
                    c.report('pictures', k, P.where(f), '%s does not access the %s of a %s that has one' % (f['qn'], p[:-4], rep))
                    continue
                for nm, b, args in acc:
                    if same(t.r.label('%s.%s' % (rep, p)), t.st.heap[attr(b)][2], env) is False:
                        c.report('pictures', k, P.where(f), '%s accesses another blob than the %s of the %s' % (f['qn'], p[:-4], rep))
                    if [same(x, y, env) for x, y in zip((mem, start, count), args)].count(False):
                        c.report('pictures', k + '/arguments', P.where(f), '%s accesses the %s of the %s with other memory, start or count than it was given' % (f['qn'], p[:-4], rep))
                if o.value is not None and same(count, o.value, env) is False:
                    c.report('pictures', k + '/count', P.where(f), '%s does not return the number of bytes moved' % f['qn'])

    def sizes(c, t, name, sets):
        f = t.fn(READER + '::GetData3DSizes')
        env = t.r.labels
        ls = out_refs(t, f)
        o = t.call(f, t.rd, [C0] + [('refto', l) for l in ls.values()])
        names = list(ls)
        if o is None or o.value is None or value(o.value, env) == 0:
            c.report('sizes', name, P.where(f), 'the sizes of a scan that was written cannot be read (%s)' % name)
            return
        d = {}
        for a, z, x in (('rowMax', 'indexBounds.rowMaximum', 'indexBounds.rowMinimum'), ('columnMax', 'indexBounds.columnMaximum', 'indexBounds.columnMinimum')):
            if z in sets and x in sets:
                d[a] = arith('+', arith('-', t.r.label(z), t.r.label(x)), C1)
        d['pointsSize'] = ('sym', 'f:count of points')
        if name.startswith('grouping'):
            d['groupsSize'] = ('sym', 'f:count of groups')
            d['countSize'] = t.r.label('pointGroupingSchemes.groupingByLine.pointCountSize')
            d['bColumnIndex'] = C(int('column' in name))
        for pos, nm in enumerate(('rowMax', 'columnMax', 'pointsSize', 'groupsSize', 'countSize', 'bColumnIndex')):
            if nm not in d or pos >= len(names):
                continue
            c.instance('sizes', '%s: %s' % (name, nm))
            got = t.st.heap.get(ls[names[pos]])
            if got is None or same(d[nm], got, env) is False:
                c.report('sizes', name + '/' + nm, P.where(f), '%s does not give the %s of the scan that was written (%s)' % (f['qn'], nm, name))

    def siblings(c, t, name):
        """fields described by one range have that range, whichever of them the reader looks at"""
        env = t.r.labels
        k = t.r.find(t.st, 'root', 'data3D/0/points')
        if k is None:
            return
        proto = t.st.heap[attr(k)][2][1]
        have = {}
        for nm, e in t.st.heap[kids(proto)][1:]:
            have[nm] = t.st.heap[attr(e)]
        for g in (('cartesianX', 'cartesianY', 'cartesianZ', 'sphericalRange'), ('sphericalAzimuth', 'sphericalElevation'), ('returnIndex', 'returnCount'),
                  ('nor:normalX', 'nor:normalY', 'nor:normalZ')):
            ns = [x for x in g if x in have]
            for x in ns[1:]:
                c.instance('range', '%s: %s' % (name, x))
                a, b = have[ns[0]], have[x]
                if a[1] != b[1] or len(a) != len(b) or any(same(p, q, env) is False for p, q in zip(a[2:], b[2:])):
                    c.report('range', '%s/%s' % (name, x), P.where(P.some('e57::WriterImpl::NewData3D')[0]) if P.fns('e57::WriterImpl::NewData3D') else P.where(t.fn(WRITER + '::NewData3D')),
                             'the element %s gets another type or range than %s, although one member describes both (%s)' % (x, ns[0], name))

    S, M = data3d_scenarios(P), image_scenarios(P)
    b3 = one(c, ('scan',) + S[0] + (None,))
    b2 = one(c, ('image',) + M[0] + (None,))
    c.each([('scan',) + x + (b3 if not x[0].startswith('every') else None,) for x in S[1:]] + [('image',) + x + (b2,) for x in M[1:]], one)
    c.floor('scan', 100)
    c.floor('image', 50)
    c.floor('sizes', 20)
    c.floor('pictures', 10)

    # ---- an image written in one call
    def whole(c, rep):
        t = Trip(P, c)
        f = t.fn(WRITER + '::WriteImage2DData', '&R:e57::Image2D')
        try:
            t.open_writer()
            L = t.record('e57::Image2D', 'given')
            setting(P, t, 'e57::Image2D', L, {dotted(p): True for p, _ in leaves(P, 'e57::Image2D') if p[0] == rep and p[-1] != 'pngImageSize'})
            vals = {}
            for q in f['ps']:
                vals[q['n']] = (('refto', L) if q is f['ps'][0] else enum('Image2DType', 'ImageJPEG') if q['t'] == 'E:e57::Image2DType' else
                                enum('Image2DProjection', REPS[rep]) if q['t'] == 'E:e57::Image2DProjection' else t.r.label('arg.' + q['n'], q['t']))
            o = t.call(f, t.w, list(vals.values()))
            c.instance('pictures', 'whole ' + rep)
            acc = t.r.used.get('write', [])
            mem = [v for q, v in zip(f['ps'], vals.values()) if q['t'].startswith('*')]
            num = [v for q, v in zip(f['ps'], vals.values()) if q['t'] == 'i64']
            if o is None or not acc:
                c.report('pictures', 'whole/' + rep, P.where(f), '%s does not write the picture it was given' % f['qn'])
            for nm, b, args in acc:
                if same(t.r.label(rep + '.jpegImageSize'), t.st.heap[attr(b)][2], t.r.labels) is False or False in [same(x, y, t.r.labels) for x, y in zip(mem + num, args)]:
                    c.report('pictures', 'whole/%s/arguments' % rep, P.where(f), '%s writes other bytes or to another place than it was given' % f['qn'])
        except Undecided as e:
            c.instance('undecided', 'whole %s: %s' % (rep, e))
    for rep in REPS:
        whole(c, rep)

    # ---- groups
    t = Trip(P, c)
    try:
        g = 'pointGroupingSchemes.groupingByLine.'
        t.open_writer()
        L = t.record('e57::Data3D', 'given')
        setting(P, t, 'e57::Data3D', L, {g + 'idElementName': ('s', 'rowIndex'), g + 'groupsSize': True, g + 'pointCountSize': True, 'pointCount': True})
        t.call(t.fn(WRITER + '::NewData3D'), t.w, [('refto', L)])
        maps = []
        for who, f in ((t.w, t.fn(WRITER + '::WriteData3DGroupsData')), (t.rd, t.fn(READER + '::ReadData3DGroupsData'))):
            if who is t.rd:
                t.open_reader()
            a = [C0] + [t.r.label('arg%d' % i, p['t']) for i, p in enumerate(f['ps'][1:])]
            t.r.streams, t.r.moves = [], []
            o = t.call(f, who, a)
            c.instance('groups', f['qn'])
            if o is None or value(o.value, t.r.labels) == 0 or len(t.r.streams) != 1:
                c.report('groups', f['qn'], P.where(f), '%s does not access the groups of a scan that has them' % f['qn'])
                break
            if t.r.streams[0][2][0] != 'bound':
                raise Undecided('bindings')
            got = {x[1]: x for x in t.r.streams[0][2][1:]}
            maps.append((f, {k: x[2] for k, x in got.items()}))
            if any(same(a[1], x[3], t.r.labels) is False for x in got.values()):
                c.report('groups', f['qn'] + '/count', P.where(f), '%s binds a buffer with another number of groups than it was given' % f['qn'])
            for v in a[2:]:
                if sum(x[2] == v for x in t.r.streams[0][2][1:]) != 1:
                    c.report('groups', f['qn'] + '/buffers', P.where(f), '%s does not bind each of its buffers to one element of the groups' % f['qn'])
            if {m[0] for m in t.r.moves} < {'write' if who is t.w else 'read', 'close'} or who is t.w and any(m[0] == 'write' and m[1] and same(a[1], m[1][0], t.r.labels) is False for m in t.r.moves):
                c.report('groups', f['qn'] + '/moved', P.where(f), '%s does not move the groups it was asked for' % f['qn'])
        if len(maps) == 2:
            for k in set(maps[0][1]) | set(maps[1][1]):
                if maps[0][1].get(k) != maps[1][1].get(k):
                    c.report('groups', 'names/%s' % k[1], P.where(maps[1][0]), 'the element %s of the groups is written from one parameter and read into another' % k[1])
    except Undecided as e:
        c.instance('undecided', 'groups: %s' % e)
    c.floor('groups', 1)

    # ---- the root of the file
    t = Trip(P, c)
    try:
        t.open_writer()
        t.open_reader()
        f = t.fn(READER + '::GetE57Root')
        M = t.record('e57::E57Root', 'root')
        o = t.call(f, t.rd, [('refto', M)])
        if o is None:
            c.report('root', 'root', throw_line(P, t.threw), fails(P, t, 'reading the root of a file that was written'))
        else:
            opts = {p[-1] for p, _ in leaves(P, 'e57::WriterOptions')}
            for path, ty in leaves(P, 'e57::E57Root'):
                k = dotted(path)
                got = t.st.heap.get(place(t.st, M, path))
                if k in opts:
                    c.instance('root', k)
                    if got is None or same(t.sample(('option',) + path, ty), got, t.r.labels) is False:
                        c.report('root', k, P.where(f), '%s of the root reads back as another value than the one given to the writer' % k)
                elif k in ('data3DSize', 'images2DSize'):
                    c.instance('root', k)
                    if got is not None and value(got, t.r.labels) not in (0, None):
                        c.report('root', k, P.where(f), '%s of an empty file is not 0' % k)
    except Undecided as e:
        c.instance('undecided', 'root: %s' % e)
    t = Trip(P, c)
    two = [f for f in P.fns(WRITER + '::Writer') if [p['t'] for p in f['ps']] == ['&R:std::basic_string<char>'] * 2]
    try:
        if two:
            l = ('at', ('sym', 'metadata'))
            t.st = t.st.cp()
            t.st.heap[l] = ('s', 'text of coordinateMetadata')
            f = t.fn(READER + '::GetE57Root')
            M = t.record('e57::E57Root', 'root')
            ok = t.call(two[0], t.w, [('refto', ('at', ('sym', 'path'))), ('refto', l)]) and t.open_reader() and t.call(f, t.rd, [('refto', M)])
            c.instance('root', 'coordinateMetadata alone')
            if not ok:
                c.report('root', 'coordinateMetadata alone', throw_line(P, t.threw), fails(P, t, 'a file opened with coordinate metadata'))
            elif same(('s', 'text of coordinateMetadata'), t.st.heap.get(('fld', M, 'coordinateMetadata')), t.r.labels) is False:
                c.report('root', 'coordinateMetadata alone', P.where(two[0]), 'the coordinate metadata given to %s do not read back' % two[0]['qn'])
    except Undecided as e:
        c.instance('undecided', 'root: %s' % e)
    c.floor('root', 2)


def coord(P):
    return sorted(c for c in P.rec if c.startswith('e57::Data3DPointsData_t<') and P.rec[c]['fs'])


def p27(c):
    """For each point field alone and for all of them the constructor of the point structure must allocate exactly the buffers of the
    fields present, with the number of points asked for, and the destructor must release exactly those it allocated. The functions that
    open a transfer must bind each buffer present to the element of its field, with the memory, capacity, stride and type of that buffer."""
    P = c.P
    B = bits(P)
    PF = 'pointFields.'

    # ---- allocation and release, for each field and for all
    def memory(c, item):
        cls, on = item
        name = '%s %s' % (cls.rpartition('::')[2], ' '.join(on) if len(on) < 3 else 'all fields')
        mk = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'ctor' and [p['t'] for p in f['ps']] == ['&R:e57::Data3D'] and f['body'] is not None]
        rm = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'dtor' and f['body'] is not None]
        if not mk or not rm:
            raise Broken('constructor or destructor of %s not found' % cls)
        t = Trip(P, c)
        r = t.r
        ptrs = {x['n']: x['t'] for x in P.rec[cls]['fs'] if x['t'].startswith('*')}
        news = []

        def on_new(I, st, n, ptr):
            if not I.silent:
                news.append((ptr, n, I.newcount if n['k'] == 'new' else None))
            return st
        try:
            L = t.record('e57::Data3D', 'given')
            t.cls = 'e57::Data3D'
            setting(P, t, 'e57::Data3D', L, dict({PF + b: True for b in on}, pointCount=True))
            this = ('new', 'R:' + cls, 'buffers')
            r.on_new = on_new
            o = t.call(mk[0], this, [('refto', L)])
            w = P.where(mk[0])
            if o is None:
                c.report('allocate', name, throw_line(P, t.threw), fails(P, t, 'allocating buffers (%s)' % name))
                return None
            have = {}
            for m, ty in ptrs.items():
                v = t.st.heap.get(('fld', ('at', this), m))
                if v is None:
                    c.report('allocate', '%s/%s' % (name, m), w, 'the buffer %s of %s has no value after construction (%s)' % (m, cls, name))
                elif v != C0:
                    have[m] = v
            c.instance('allocate', name)
            if len(have) != len(on):
                c.report('allocate', name + '/number', w, '%d buffers are allocated for %d fields (%s)' % (len(have), len(on), name))
            if len(set(have.values())) != len(have):
                c.report('allocate', name + '/shared', w, 'two buffers of %s are the same memory (%s)' % (cls, name))
            for ptr, n, count in news:
                ms = [m for m, v in have.items() if v == ptr]
                if len(ms) != 1:
                    c.report('allocate', name + '/lost', node_where(P, n), 'memory allocated here is not kept in a member of %s (%s)' % (cls, name))
                    continue
                if count is not None and same(('sym', 'f:pointCount'), count, r.labels) is False:
                    c.report('allocate', '%s/%s/count' % (name, ms[0]), node_where(P, n), 'the buffer %s is allocated for another number of points than the scan has' % ms[0])
            st1 = t.st
            dels = []

            def on_delete(I, st, n, v):
                if not I.silent:
                    dels.append((v, n))
                return st
            r.on_delete = on_delete
            o = t.call(rm[0], this, [])
            c.instance('release', name)
            w = P.where(rm[0])
            if o is None:
                c.report('release', name, throw_line(P, t.threw), fails(P, t, 'releasing buffers (%s)' % name))
                return None
            for m, v in have.items():
                k = sum(d == v for d, _ in dels)
                if k != 1:
                    c.report('release', '%s/%s' % (name, m), w, 'the buffer %s of %s is released %s (%s)' % (m, cls, 'twice' if k else 'never', name))
            for d, n in dels:
                if d != C0 and d not in have.values():
                    c.report('release', '%s/other' % name, node_where(P, n), 'memory that %s did not allocate is released (%s)' % (cls, name))
                elif d != C0 and not n.get('arr'):
                    c.report('release', '%s/array' % name, node_where(P, n), 'an array is released as a single object')
            # a structure whose buffers belong to the caller
            t.st = t.st.cp()
            mine = ('new', 'R:' + cls, 'borrowed')
            zero = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'ctor' and not f['ps'] and f['body'] is not None]
            r.on_new = lambda I, st, n, v: st
            if zero:
                t.call(zero[0], mine, [])
            else:
                t.st = plain(P, cls, ('at', mine), t.st)
            for m in ptrs:
                t.st.heap[('fld', ('at', mine), m)] = ('sym', 'caller:' + m)
                r.labels[('sym', 'caller:' + m)] = 4096
            dels.clear()
            t.call(rm[0], mine, [])
            if any(d != C0 for d, _ in dels):
                c.report('release', name + '/borrowed', w, '%s releases buffers that belong to the caller' % cls)
            return list(have)[0] if len(have) == 1 and len(on) == 1 else None
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
            return None
    todo = [(cls, (b,)) for cls in coord(P) for b in B] + [(cls, tuple(B)) for cls in coord(P)] + [(cls, ()) for cls in coord(P)]
    got = c.each(todo, memory)
    member = {(cls, on[0]): m for (cls, on), m in zip(todo, got) if len(on) == 1 and m}
    c.floor('allocate', 20)
    c.floor('release', 20)
    for cls in coord(P):
        ms = [member.get((cls, b)) for b in B if member.get((cls, b))]
        for m in set(ms):
            if ms.count(m) > 1:
                c.report('allocate', '%s/%s' % (cls, m), '%s' % cls, 'the buffer %s of %s is allocated for more than one field' % (m, cls))

    # ---- binding
    NT = numeric(P)

    def bind(c, item):
        cls, on, absent, tn = item
        name = '%s %s%s' % (cls.rpartition('::')[2], on[0] if len(on) == 1 else 'all fields as ' + tn, ' without buffer' if absent and len(on) == 1 else ' without ' + absent if absent else '')
        t = Trip(P, c)
        env = t.r.labels
        ptrs = {x['n']: x['t'] for x in P.rec[cls]['fs'] if x['t'].startswith('*')}
        try:
            t.open_writer()
            L = t.record('e57::Data3D', 'given')
            sets = {PF + b: True for b in on}
            for g in ('pointRange', 'angle', 'intensity', 'time'):
                sets[PF + g + 'NodeType'] = NT[tn]
                sets[PF + g + 'Scale'] = True
            setting(P, t, 'e57::Data3D', L, sets)
            if t.call(t.fn(WRITER + '::NewData3D'), t.w, [('refto', L)]) is None:
                return
            proto = None
            k = t.r.find(t.st, 'root', 'data3D/0/points')
            if k is not None:
                proto = {nm: t.st.heap[attr(e)] for nm, e in t.st.heap[kids(t.st.heap[attr(k)][2][1])][1:]}
            buf = ('at', ('new', 'R:' + cls, 'buffers'))
            t.st = plain(P, cls, buf, t.st)
            for m, ty in ptrs.items():
                t.st.heap[('fld', buf, m)] = C0 if m == absent else t.r.label('buffer ' + m, ty)
            maps = []
            for who, qn in ((t.w, WRITER + '::SetUpData3DPointsData'), (t.rd, READER + '::SetUpData3DPointsData')):
                if who is t.rd:
                    t.open_reader()
                f = [f for f in P.fns(qn) if f['ps'][-1]['t'] == '&R:' + cls][0]
                t.r.streams = []
                n = t.r.label('records', 'u64')
                o = t.call(f, who, [C0, n, ('refto', buf)])
                c.instance('bind', '%s %s' % (f['qn'], name))
                w = P.where(f)
                key = '%s/%s' % (f['qn'], name)
                if o is None:
                    c.report('bind', key, throw_line(P, t.threw), fails(P, t, '%s (%s)' % (f['qn'], name)))
                    return
                if len(t.r.streams) != 1:
                    c.report('bind', key, w, '%s does not open the points of the scan' % f['qn'])
                    return
                bs = t.r.streams[0][2]
                if bs[0] != 'bound':
                    raise Undecided('bindings')
                bs = bs[1:]
                maps.append((f, {x[1]: x[2] for x in bs}))
                names = [x[1] for x in bs]
                for x in bs:
                    m = [m for m in ptrs if x[2] == ('sym', 'f:buffer ' + m)]
                    el = x[1][1] if x[1][0] == 's' else '?'
                    if not m:
                        c.report('bind', '%s/%s' % (key, el), x[7][1], '%s binds %s to something else than a buffer of the structure (%s)' % (f['qn'], el, name))
                        continue
                    if proto is not None and el not in proto:
                        c.report('bind', '%s/%s' % (key, el), x[7][1], '%s binds %s although the scan has no such field (%s)' % (f['qn'], el, name))
                    if names.count(x[1]) > 1:
                        c.report('bind', '%s/%s' % (key, el), x[7][1], '%s binds %s more than once (%s)' % (f['qn'], el, name))
                    if same(n, x[3], env) is False:
                        c.report('bind', '%s/%s/count' % (key, el), x[7][1], '%s binds %s with another number of points than it was given' % (f['qn'], el))
                    if x[6][1] and x[6][1].lstrip('&') != ptrs[m[0]]:
                        c.report('bind', '%s/%s/type' % (key, el), x[7][1], '%s binds %s with another element type than the buffer has' % (f['qn'], el))
                    if proto is not None and el in proto:
                        kind = proto[el][1]
                        if kind == 'ScaledInteger' and value(x[5], env) == 0:
                            c.report('bind', '%s/%s/scaling' % (key, el), x[7][1], '%s binds %s without scaling although it is stored as scaled integers' % (f['qn'], el))
                        if (ptrs[m[0]] in ('*f32', '*f64')) != (kind == 'Float') and value(x[4], env) == 0:
                            c.report('bind', '%s/%s/conversion' % (key, el), x[7][1], '%s binds %s without conversion although it is stored as another kind of number' % (f['qn'], el))
                want = {member.get((cls, b)) for b in on} - {None, absent}
                have = {m for m in ptrs if any(x[2] == ('sym', 'f:buffer ' + m) for x in bs)}
                if absent and C0 in [x[2] for x in bs]:
                    c.report('bind', key + '/null', w, '%s binds a buffer that is not there (%s)' % (f['qn'], name))
                for m in sorted(want - have):
                    c.report('bind', '%s/%s' % (key, m), w, '%s does not bind the buffer %s of a field that is present (%s)' % (f['qn'], m, name))
                for m in sorted(have - want):
                    if all(member.get((cls, b)) for b in on):
                        c.report('bind', '%s/%s' % (key, m), w, '%s binds the buffer %s of a field that is not present (%s)' % (f['qn'], m, name))
            if len(maps) == 2:
                for k in set(maps[0][1]) & set(maps[1][1]):
                    if maps[0][1][k] != maps[1][1][k]:
                        c.report('bind', '%s/%s' % (name, k[1] if k[0] == 's' else '?'), P.where(maps[1][0]), 'the element %s is written from one buffer and read into another' % (k[1],))
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
    todo = []
    for cls in coord(P):
        for b in B:
            todo.append((cls, (b,), None, 'ScaledInteger'))
            m = member.get((cls, b))
            if m:
                todo.append((cls, (b,), m, 'ScaledInteger'))
                todo.append((cls, tuple(B), m, 'ScaledInteger'))
        for tn in ('ScaledInteger', 'Float', 'Double'):
            todo.append((cls, tuple(B), None, tn))
    c.each(todo, bind)
    c.floor('bind', 60)

    # ---- a scan written in one call
    def whole(c, item):
        cls, absent = item
        name = '%s%s' % (cls.rpartition('::')[2], ' without ' + absent if absent else '')
        t = Trip(P, c)
        ptrs = {x['n']: x['t'] for x in P.rec[cls]['fs'] if x['t'].startswith('*')}
        f = t.fn(WRITER + '::WriteData3DData', '&R:e57::Data3D', '&R:' + cls)
        null = []

        def on_load(I, st, loc, n):
            l = loc
            while l[0] in ('fld', 'idx'):
                l = l[1]
            if l[0] == 'at' and (l[1] == C0 or l[1][0] == 'op' and C0 in l[1][2:]):
                null.append(n)
            return st
        t.r.on_load = on_load
        try:
            t.open_writer()
            L = t.record('e57::Data3D', 'given')
            sets = {PF + b: True for b in B}
            for g in ('pointRange', 'angle', 'intensity', 'time'):
                sets[PF + g + 'NodeType'] = NT['ScaledInteger']
                sets[PF + g + 'Scale'] = True
            lim = ('fc', 3.4028234663852886e38 if '<float>' in cls else DBL)
            for g in ('pointRange', 'angle', 'time'):
                sets[PF + g + 'Maximum'] = lim
                sets[PF + g + 'Minimum'] = ('fc', -lim[1])
            setting(P, t, 'e57::Data3D', L, dict(sets, pointCount=C(2)))
            buf = ('at', ('new', 'R:' + cls, 'buffers'))
            t.st = plain(P, cls, buf, t.st)
            for m, ty in ptrs.items():
                t.st.heap[('fld', buf, m)] = C0 if m == absent else t.r.label('buffer ' + m, ty)
            I, outs = outcomes(P, t.r, f, this=t.w, args=[('refto', L), ('refto', buf)], st=t.st)
            c.used(I.stats['fns'])
            c.instance('whole', name)
            if null:
                c.report('whole', name, node_where(P, null[0]), '%s looks at a buffer that is not there (%s)' % (f['qn'], name))
            for x in t.r.moves:
                if x[0] == 'write' and x[1] and value(x[1][0], t.r.labels) not in (2, None):
                    c.report('whole', name + '/count', node_where(P, x[2]), '%s writes another number of points than the scan has' % f['qn'])
            if any(o.kind == 'return' for o in outs) and not any(x[0] == 'write' for x in t.r.moves):
                c.report('whole', name + '/write', P.where(f), '%s does not write the points' % f['qn'])
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
    c.each([(cls, m) for cls in coord(P) for m in [None] + sorted({v for (k, _), v in member.items() if k == cls})], whole)
    c.floor('whole', 2)


def plain(P, cls, loc, st):
    """a record after its default constructor"""
    st = st.cp()
    for x in P.rec[cls]['fs']:
        st.heap[('fld', loc, x['n'])] = C0
    return st


def p28(c):
    """must-refuse: scan descriptions with a number type that is not allowed or not in the enumeration, or with a zero scale, for each
    point field are handed to the simple writer over an abstract tree of elements: every way out must be the documented error and the
    tree must be as before. Without an identifier one that the generator made must be stored."""
    P = c.P
    NT = numeric(P)
    PF = 'pointFields.'
    odd = C(max(v[1] for v in NT.values()) + 5)
    cases = []
    for g, fields in (('pointRange', ('cartesianX', 'cartesianY', 'cartesianZ', 'sphericalRange')), ('angle', ('sphericalAzimuth', 'sphericalElevation')),
                      ('intensity', ('intensity',)), ('time', ('timeStamp',))):
        for fld in fields:
            on = {PF + fld + 'Field': True}
            if g in ('pointRange', 'angle'):
                cases.append(('%s with %sNodeType Integer' % (fld, g), dict(on, **{PF + g + 'NodeType': NT['Integer']}), 'ErrorInvalidNodeType'))
            cases.append(('%s with an unknown %sNodeType' % (fld, g), dict(on, **{PF + g + 'NodeType': odd}), 'ErrorInvalidNodeType'))
    for g, fields in (('pointRange', ('cartesianX', 'cartesianY', 'cartesianZ', 'sphericalRange')), ('angle', ('sphericalAzimuth', 'sphericalElevation')),
                      ('intensity', ('intensity',)), ('time', ('timeStamp',))):
        for fld in fields:
            s = {PF + fld + 'Field': True, PF + g + 'NodeType': NT['ScaledInteger'], PF + g + 'Scale': ('fc', 0.0)}
            cases.append(('%s with a zero %sScale' % (fld, g), s, 'ErrorInvalidData3DValue'))
            if g == 'intensity':
                cases.append(('%s with a zero %sScale and limits' % (fld, g), dict(s, **{'intensityLimits.intensityMaximum': True}), 'ErrorInvalidData3DValue'))
    rich = {'name': True, 'description': True, 'guid': True, 'pose.rotation.x': True, 'cartesianBounds.xMinimum': True, 'indexBounds.rowMaximum': True, 'temperature': True}

    def one(c, item):
        name, sets, code, more = item
        t = Trip(P, c)
        try:
            t.open_writer()
            L = t.record('e57::Data3D', 'given')
            setting(P, t, 'e57::Data3D', L, dict(sets, **(rich if more else {})))
            before = {k: v for k, v in t.st.heap.items() if k[0] == 'gvar' and k[1] == '#kids'}
            f = t.fn(WRITER + '::NewData3D')
            I, outs = outcomes(P, t.r, f, this=t.w, args=[('refto', L)], st=t.st)
            c.used(I.stats['fns'])
            if t.r.odd:
                raise Undecided(node_where(P, t.r.odd[0][0]))
            full = name + (' (other members set)' if more else '')
            c.instance('refuse', full)
            if any(o.kind == 'return' for o in outs):
                c.report('refuse', full, P.where(f), '%s accepts a description that cannot be written: %s' % (f['qn'], full))
            for o in outs:
                if o.kind != 'throw':
                    continue
                if o.code != code:
                    c.report('refuse', full + '/code', throw_line(P, o), '%s refuses %s with %s, not with the documented %s' % (f['qn'], full, o.code, code))
                for k, v in before.items():
                    if o.st.heap.get(k) != v:
                        c.report('refuse', full + '/left', throw_line(P, o), '%s refuses %s after it has added an element to the file' % (f['qn'], full))
                        break
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
    c.each([x + (m,) for x in cases for m in (False, True)], one)
    c.floor('refuse', 20)

    # ---- the same descriptions cannot have buffers allocated for them
    for cls in coord(P):
        mk = [f for f in P.fn.values() if f.get('cls') == cls and f['kind'] == 'ctor' and [p['t'] for p in f['ps']] == ['&R:e57::Data3D'] and f['body'] is not None]
        for f in mk:
            for g in ('pointRange', 'angle'):
                t = Trip(P, c)
                news = []
                t.r.on_new = lambda I, st, n, v: (news.append(n), st)[1]
                L = t.record('e57::Data3D', 'given')
                setting(P, t, 'e57::Data3D', L, {PF + g + 'NodeType': NT['Integer'], PF + 'cartesianXField': True, PF + 'sphericalAzimuthField': True, 'pointCount': True})
                I, outs = outcomes(P, t.r, f, this=('new', 'R:' + cls, 'buffers'), args=[('refto', L)], st=t.st)
                c.used(I.stats['fns'])
                name = '%s with %sNodeType Integer' % (cls, g)
                c.instance('buffers', name)
                if any(o.kind == 'return' for o in outs):
                    c.report('buffers', name, P.where(f), 'buffers are allocated for a description that cannot be written: %sNodeType Integer' % g)
                for o in outs:
                    if o.kind == 'throw' and o.code != 'ErrorInvalidNodeType':
                        c.report('buffers', name + '/code', throw_line(P, o), '%s is refused with %s, not with ErrorInvalidNodeType' % (name, o.code))
                if news:
                    c.report('buffers', name + '/left', node_where(P, news[0]), 'memory is allocated before %s is refused' % name)
    c.floor('buffers', 2)

    # ---- what the file requires is there, even when the description does not give it
    for cls, new, vec in (('e57::Data3D', 'NewData3D', 'data3D'), ('e57::Image2D', 'NewImage2D', 'images2D')):
        t = Trip(P, c)
        try:
            t.open_writer()
            L = t.record(cls, 'given')
            f = t.fn(WRITER + '::' + new)
            o = t.call(f, t.w, [('refto', L)])
            c.instance('identifier', new)
            if o is None:
                continue
            k = t.r.find(t.st, 'root', vec + '/0/guid')
            if k is None or t.st.heap[attr(k)][1] != 'String' or t.st.heap[attr(k)][2] == ('s', ''):
                c.report('identifier', new, P.where(f), '%s adds a description without the identifier the format requires' % f['qn'])
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (new, e))
