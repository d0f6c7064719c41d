"""The XML section: the text that writeXml produces is fed to the SAX handler, element by element, and the nodes it builds are compared."""
import re

from vlib.tools import *
from .simple import Undecided, wrap
from .trees import World

CFILE = 'e57::CheckedFile'
PARSER = 'e57::E57XmlParser'
OUT = ('gvar', '#out')
DEPTH = ('gvar', '#depth')
NAMES = ('gvar', '#namespaces')
IMF = ('new', 'R:e57::ImageFileImpl', 'image')
FILE = ('new', 'R:' + CFILE, 'file')
XMLNS = 'http://www.w3.org/2000/xmlns/'
PARSE_INT = {'strtoll', 'strtol', 'strtoull', 'strtoul', 'atoll', 'atol', 'atoi', '_atoi64', 'std::stoll', 'std::stol', 'std::stoi', 'std::stoull', 'std::stoul',
             'std::strtoll', 'std::strtol', 'std::atoll', 'std::atol', 'std::strtoull'}
PARSE_REAL = {'strtod', 'std::strtod', 'atof', 'std::atof', 'std::stod'}


def is_text(t):
    return 'basic_string<char>' in t


def real(s):
    m = re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', s)
    return float(m.group(0)) if m else 0.0


def whole(s):
    m = re.match(r'\s*[-+]?\d+', s)
    return max(-2 ** 63, min(2 ** 63 - 1, int(m.group(0)))) if m else 0


def scientific(x, digits):
    """what the number formatter gives, with trailing zeros dropped"""
    m, e = ('%.*e' % (max(digits, 0), x)).split('e')
    if '.' in m:
        m = m.rstrip('0').rstrip('.')
    return m if int(e) == 0 else m + 'e' + e


def root_field(P):
    """the member of an image that holds the root of its tree"""
    for x in P.rec[IMF[1][2:]]['fs']:
        if re.match(r'R:std::shared_ptr<e57::(Structure)?NodeImpl>', x['t']):
            return x['n']
    raise Broken('the image has no root')


class Doc(World):
    """Characters handed to the XML handler are named pointers whose text is known; text written to the file is collected."""
    unroll = 64
    recursion = 6
    unroll_range = 16

    def __init__(self, P):
        super().__init__()
        self.P = P
        self.ptr = {}               # pointer value -> text
        self.attrs = []             # (qname, local name, uri, value) of the element being started
        self.names = ()             # (prefix, uri) declared in the image being written
        self.unknown = []
        self.under = None           # where an element is ended that was not remembered

    def pointer(self, text):
        v = ('sym', 'chars:%s' % text)
        self.ptr[v] = text
        return v

    def chars(self, I, st, v):
        """the text a pointer to characters refers to"""
        v = I.val_of(st, v)
        while v is not None and v[0] == 'cast':
            v = v[3]
        if v is None:
            return None
        if v[0] == 's':
            return v[1]
        if v in self.ptr:
            return self.ptr[v]
        if v[0] == 'addr' and v[1][0] == 'idx' and v[1][2] == C0:
            v = ('addr', v[1][1])
        if v[0] == 'addr' and v[1][0] == 'gvar':
            g = self.P.gvar.get(v[1][1])
            i = g and g.get('i')
            if i and i['k'] == 'str':
                return i.get('v')
            if i and i.get('as') and all('cv' in x or 'v' in x for x in i['as']):
                cs = [int(x.get('cv', x.get('v'))) for x in i['as']]
                return ''.join(chr(x) for x in cs[:cs.index(0)] if x) if 0 in cs else None
        if v[0] == 'addr':
            s = I.load(st, v[1])
            if s is not None and s[0] == 's':
                return s[1]
        return None

    def expand(self, I, node):
        return True

    def odd(self, I, n, what):
        if not I.silent:
            self.unknown.append((what, n))

    def out(self, I, st, n, text):
        st = st.cp()
        v = st.heap.get(OUT, ('s', ''))
        if text is None or v[0] != 's':
            self.odd(I, n, 'text written to the file')
            text = '?'
        st.heap[OUT] = ('s', (v[1] if v[0] == 's' else '?') + text)
        return st

    def on_call(self, I, st, n, qn, obj, vs):
        f = self.P.fn.get(n.get('id'))
        cls, name = qn.rpartition('::')[0], n.get('n') or qn.rpartition('::')[2]
        q = strip_tmpl(qn)
        ps = [p['t'] for p in f['ps']] if f else []
        if cls == CFILE:
            r = self.file(I, st, n, name, obj, vs, ps)
            if r is not None:
                return r
        if f is not None and f['kind'] != 'ctor' and is_text(f['ret']) and len(ps) == 2 and ps[0] in ('f32', 'f64') and ps[1] in ('i32', 'u32', 'i64', 'u64'):
            x, k = I.val_of(st, vs[0]), I.val_of(st, vs[1])
            if x[0] == 'fc' and k[0] == 'c':
                return [(st, ('s', scientific(wrap(ps[0], x[1]), k[1])))]
            self.odd(I, n, 'number turned into text')
            return [(st, ('s', '?'))]
        if f is not None and f['kind'] != 'ctor' and ps[:1] == ['*u16'] and is_text(f['ret']) and all(p in ('u64', 'u32', 'i32', 'i64') for p in ps[1:]):
            t = self.chars(I, st, vs[0])
            if t is None and I.val_of(st, vs[0]) != C0:
                self.odd(I, n, 'characters turned into text')
            k = I.val_of(st, vs[1]) if len(vs) > 1 else None
            return [(st, ('s', (t or '')[:k[1]] if k is not None and k[0] == 'c' else t or ''))]
        if len(ps) == 1 and is_text(ps[0]) and f['ret'] in ('i64', 'f64', 'u64') and f['kind'] != 'ctor' or q in PARSE_INT or q in PARSE_REAL:
            s = I.val_of(st, vs[0])
            if s is None or s[0] != 's':
                self.odd(I, n, 'text turned into a number')
                return None
            isreal = q in PARSE_REAL or f is not None and f['ret'] == 'f64'
            return [(st, ('fc', real(s[1])) if isreal else C(whole(s[1])))]
        if name == 'space' and len(vs) == 1:
            k = I.val_of(st, vs[0])
            if k[0] == 'c':
                return [(st, ('s', ' ' * max(k[1], 0)))]
        if cls.startswith('xercesc') and 'Attributes' in cls:
            return self.attributes(I, st, n, name, vs)
        if q.startswith('xercesc') and name in ('equals', 'compareString', 'compareIString') and len(vs) == 2:
            a, b = self.chars(I, st, vs[0]), self.chars(I, st, vs[1])
            if a is not None and b is not None:
                return [(st, C(int((a == b) == (name == 'equals'))))]
        if strip_tmpl(cls) in ('std::stack', 'std::vector', 'std::deque', 'std::list') and 'ParseInfo' in cls and obj is not None:
            return self.stack(I, st, n, name, obj, vs)
        if cls == 'e57::ImageFileImpl' and n['k'] != 'ctor':
            r = self.image(I, st, n, name, vs)
            if r is not None:
                return r
        if cls in ('e57::StructureNodeImpl', 'e57::VectorNodeImpl') and name in ('set', 'append', 'setAttachedRecursive') and obj is not None:
            if name == 'setAttachedRecursive':
                return [(st, None)]
            if name == 'append':
                return [(self.adopt(I, st, n, obj, None, I.val_of(st, vs[0])), None)]
            if ps and is_text(ps[0]):
                k = I.val_of(st, vs[0])
                return [(self.adopt(I, st, n, obj, k, I.val_of(st, vs[1])), None)]
        if name == 'isTypeConstrained':
            return [(st, C0)]
        return super().on_call(I, st, n, qn, obj, vs)

    def adopt(self, I, st, n, parent, name, child):
        st = st.cp()
        k = ('gvar', '#kids', parent)
        st.heap[k] = st.heap.get(k, ('kids',)) + ((name, child),)
        return st

    def file(self, I, st, n, name, obj, vs, ps):
        if name == 'operator<<' and ps:
            v = I.val_of(st, vs[0])
            if is_text(ps[0]):
                return [(self.out(I, st, n, v[1] if v[0] == 's' else None), ('refto', ('at', FILE)))]
            if ps[0] not in ('f32', 'f64'):
                return [(self.out(I, st, n, str(wrap(ps[0], v[1])) if v[0] == 'c' else None), ('refto', ('at', FILE)))]
            return None
        if name == 'write' and len(vs) == 2:
            s, k = I.val_of(st, vs[0]), I.val_of(st, vs[1])
            return [(self.out(I, st, n, s[1][:k[1]] if s[0] == 's' and k[0] == 'c' else None), None)]
        if name in ('length', 'position', 'seek', 'read', 'extend'):
            st, v = I.fresh(st, n, ty='u64')
            return [(st, v)]
        return None

    def attributes(self, I, st, n, name, vs):
        at = self.attrs
        if name == 'getLength':
            return [(st, C(len(at)))]
        key = None
        if name in ('getIndex', 'getValue', 'getQName', 'getLocalName', 'getURI') and vs:
            v = I.val_of(st, vs[0])
            if v[0] == 'c' and name != 'getIndex' and n['as'][0]['t'][0] != '*':
                key = v[1] if v[1] < len(at) else None
            else:
                t = self.chars(I, st, v)
                two = len(vs) > 1 and n['as'][1]['t'][0] in '*A'
                u = self.chars(I, st, vs[1]) if two else None
                if t is None:
                    self.odd(I, n, 'attribute looked up')
                key = next((i for i, a in enumerate(at) if (two and (a[2], a[1]) == (t, u)) or (not two and a[0] == t)), None)
            if name == 'getIndex':
                if len(vs) > (2 if two else 1):
                    self.found = key
                    return [(st, C(int(key is not None)))]
                return [(st, C(-1 if key is None else key))]
            if key is None:
                return [(st, C0)]
            return [(st, self.pointer(at[key][{'getQName': 0, 'getLocalName': 1, 'getURI': 2, 'getValue': 3}[name]]))]
        return None

    def on_out(self, I, st, n, i):
        return C(self.found) if n.get('n') == 'getIndex' and self.found is not None else None

    # ------------------------------------------------------------- the stack of open elements
    def stack(self, I, st, n, name, obj, vs):
        d = st.heap.get(DEPTH, C0)[1]
        at = lambda i: ('gvar', '#open', i)
        if name in ('push', 'push_back', 'emplace', 'emplace_back'):
            st = st.cp()
            v = vs[0] if vs else None
            if v is not None and v[0] in ('refto', 'rec'):
                st = I.copy_obj(st, at(d), v[1])
            else:
                self.odd(I, n, 'element remembered')
            st = st.cp()
            st.heap[DEPTH] = C(d + 1)
            return [(st, ('refto', at(d)))]
        if name in ('top', 'back') and d:
            return [(st, ('refto', at(d - 1)))]
        if name in ('pop', 'pop_back') and d:
            st = st.cp()
            st.heap[DEPTH] = C(d - 1)
            return [(st, None)]
        if name in ('empty', 'size'):
            return [(st, C(int(not d) if name == 'empty' else d))]
        if not d and name in ('top', 'back', 'pop', 'pop_back'):
            if not I.silent:
                self.under = n
            return []
        return None

    # ------------------------------------------------------------- the image
    def image(self, I, st, n, name, vs):
        if name == 'extensionsCount':
            return [(st, C(len(self.names)))]
        if name in ('extensionsPrefix', 'extensionsUri'):
            i = I.val_of(st, vs[0])
            if i[0] == 'c' and i[1] < len(self.names):
                return [(st, ('s', self.names[i[1]][name == 'extensionsUri']))]
        if name == 'extensionsAdd':
            st = st.cp()
            st.heap[NAMES] = st.heap.get(NAMES, ('names',)) + (tuple(I.val_of(st, x) for x in vs),)
            return [(st, None)]
        if name in ('isOpen', 'isWriter'):
            return [(st, C1)]
        if name == 'fileName':
            return [(st, ('s', 'file'))]
        return None


# ----------------------------------------------------------------- reading XML text
class Element:
    def __init__(self, name):
        self.name, self.attrs, self.items = name, [], []        # items: text pieces and elements in order

    def text(self):
        return ''.join(x for x in self.items if isinstance(x, str))

    def kids(self):
        return [x for x in self.items if not isinstance(x, str)]


class NotXml(Exception):
    pass


NAME = r'[A-Za-z_][\w.:-]*'


def entities(s):
    for a, b in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&apos;', "'"), ('&amp;', '&')):
        s = s.replace(a, b)
    return s


def parse(s):
    """the elements of a well-formed XML fragment"""
    i, top = 0, []
    stack = []
    while i < len(s):
        if s.startswith('<![CDATA[', i):
            j = s.find(']]>', i)
            if j < 0 or not stack:
                raise NotXml('character data that does not end')
            stack[-1].items.append(s[i + 9:j])
            i = j + 3
        elif s.startswith('</', i):
            m = re.compile(r'</(%s)\s*>' % NAME).match(s, i)
            if not m or not stack or stack[-1].name != m.group(1):
                raise NotXml('an end tag that does not match: %r' % s[i:i + 40])
            stack.pop()
            i = m.end()
        elif s[i] == '<':
            m = re.compile(r'<(%s)' % NAME).match(s, i)
            if not m:
                raise NotXml('a tag without a name: %r' % s[i:i + 40])
            e = Element(m.group(1))
            i = m.end()
            while True:
                m = re.compile(r'\s+(%s)\s*=\s*("[^"<]*"|\'[^\'<]*\')' % NAME).match(s, i)
                if not m:
                    break
                if any(a == m.group(1) for a, _ in e.attrs):
                    raise NotXml('attribute %s given twice' % m.group(1))
                e.attrs.append((m.group(1), entities(m.group(2)[1:-1])))
                i = m.end()
            m = re.compile(r'\s*(/?)>').match(s, i)
            if not m:
                raise NotXml('a tag that does not end: %r' % s[i:i + 40])
            i = m.end()
            (stack[-1].items if stack else top).append(e)
            if not m.group(1):
                stack.append(e)
        else:
            j = s.find('<', i)
            j = len(s) if j < 0 else j
            t = s[i:j]
            if ']]>' in t:
                raise NotXml('"]]>" outside of character data')
            if stack:
                stack[-1].items.append(entities(t))
            elif t.strip():
                raise NotXml('text outside of an element: %r' % t.strip()[:40])
            i = j
    if stack:
        raise NotXml('element %s is not ended' % stack[-1].name)
    return top


# ----------------------------------------------------------------- writing and reading nodes
class Round:
    """nodes written as XML and read back; one path throughout, everything is known"""
    def __init__(self, P, c=None):
        self.P, self.c = P, c
        self.r = Doc(P)
        self.runs = 0
        self.st = State()
        self.made = 0
        self.threw = None
        rec = P.rec.get('e57::ImageFileImpl')
        for x in rec['fs']:
            if x['t'] in ('*R:' + CFILE, 'R:std::unique_ptr<%s>' % CFILE, 'R:std::shared_ptr<%s>' % CFILE):
                self.st.heap[('fld', ('at', IMF), x['n'])] = FILE
        self.parser = ('new', 'R:' + PARSER, 'parser')

    def call(self, f, this, args):
        self.runs += 1
        self.threw = None
        I, outs = outcomes(self.P, self.r, f, this=this, args=list(args), st=self.st, base=1000 * self.runs, maxdepth=40)
        if self.c is not None:
            self.c.used(I.stats['fns'])
        if self.r.unknown:
            w, n = self.r.unknown[0]
            raise Undecided('%s at %s' % (w, node_where(self.P, n)))
        rets = [o for o in outs if o.kind == 'return']
        if self.r.under is not None:
            return None
        if not rets and outs:
            self.threw = outs[0]
            return None
        if len(outs) != 1:
            raise Undecided('%s has %d outcomes' % (f['qn'], len(outs)))
        self.st = outs[0].st
        return outs[0]

    def method(self, cls, name, *types):
        for k in [cls] + list(self.P.bases(cls)):
            fs = [f for f in self.P.fns(k + '::' + name) if f['body'] is not None and (not types or [p['t'] for p in f['ps']][:len(types)] == list(types))]
            if fs:
                return fs[0]
        raise Broken('%s::%s not found' % (cls, name))

    def make(self, kind, *args):
        """a node constructed by its own constructor"""
        cls = 'e57::%sNodeImpl' % kind
        self.made += 1
        v = ('new', 'R:' + cls, 'node%d' % self.made)
        fs = [f for f in self.P.fns('%s::%sNodeImpl' % (cls, kind)) if f['body'] is not None and not f.get('imp') and len(f['ps']) == 1 + len(args)]
        fs = [f for f in fs if all((p['t'][0] == 'f') == (a[0] == 'fc') for p, a in zip(f['ps'][1:], args))]
        if not fs:
            raise Broken('constructor of %s not found' % cls)
        self.call(fs[0], v, [IMF] + list(args))
        if self.threw:
            raise Undecided('%s cannot be constructed' % cls)
        return v

    def fields(self, cls):
        out = []
        for k in [cls] + [b for b in self.P.bases(cls)]:
            r = self.P.rec.get(k)
            if r:
                out += [(x['n'], x['t']) for x in r['fs']]
        return out

    def kidfield(self, cls):
        for n, t in self.fields(cls):
            if t.startswith('R:std::vector<std::shared_ptr<e57::NodeImpl'):
                return n
        raise Broken('children of %s not found' % cls)

    def name(self, v, name):
        from .trees import getters
        g = getters(self.P, 'e57::NodeImpl', ['elementName'])
        if 'elementName' not in g:
            raise Broken('element name of a node not found')
        self.st = self.st.cp()
        self.st.heap[('fld', ('at', v), g['elementName'][0])] = ('s', name)

    def hold(self, parent, *named):
        cls = parent[1][2:]
        self.st = self.st.cp()
        self.st.heap[('fld', ('at', parent), self.kidfield(cls))] = ('vec',) + tuple(v for _, v in named)
        for n, v in named:
            for x, t in self.fields(v[1][2:]):
                if t == 'R:std::weak_ptr<e57::NodeImpl>':
                    self.st.heap[('fld', ('at', v), x)] = parent
        for n, v in named:
            if n is not None:
                self.name(v, n)

    def root(self, v):
        self.st = self.st.cp()
        self.st.heap[('fld', ('at', IMF), root_field(self.P))] = v

    def write(self, v, forced=None):
        """the text of a node"""
        self.st = self.st.cp()
        self.st.heap[OUT] = ('s', '')
        f = self.method(v[1][2:], 'writeXml')
        self.call(f, v, [IMF, ('refto', ('at', FILE)), C0, ('s', forced) if forced else C0])
        if self.threw:
            return None
        return self.st.heap[OUT][1]

    # ------------------------------------------------------------- the handler
    def handler(self, name, *args):
        f = self.method(PARSER, name)
        return self.call(f, self.parser, args)

    def begin(self):
        fs = [f for f in self.P.fns(PARSER + '::E57XmlParser') if f['body'] is not None and not f.get('imp')]
        if not fs:
            raise Broken('constructor of the XML handler not found')
        self.call(fs[0], self.parser, [IMF])

    def start(self, name, attrs):
        pre, _, local = name.rpartition(':')
        self.r.attrs = []
        for a, v in attrs:
            p, _, l = a.rpartition(':')
            self.r.attrs.append((a, l, XMLNS if p == 'xmlns' else '', v))
        q = self.r.pointer
        self.handler('startElement', q('uri'), q(local), q(name), ('refto', ('at', ('sym', 'attributes'))))

    def feed(self, e):
        """events for an element; stops at the first error"""
        q = self.r.pointer
        self.start(e.name, e.attrs)
        if self.threw:
            return
        for x in e.items:
            if isinstance(x, str):
                if x:
                    self.handler('characters', q(x), C(len(x)))
            else:
                self.feed(x)
            if self.threw or self.r.under:
                return
        self.handler('endElement', q('uri'), q(e.name.rpartition(':')[2]), q(e.name))

    def result(self):
        return self.st.heap.get(('fld', ('at', IMF), root_field(self.P)))


# ----------------------------------------------------------------- P15
F32MAX = wrap('f32', 3.4028234663852886e38)
DBL = 1.7976931348623157e308
I64 = (-2 ** 63, 2 ** 63 - 1)


def i_(x):
    return C(x)


def f_(x):
    return ('fc', float(x))


def single(P):
    return C(int(P.enum_value('e57::FloatPrecision', 'PrecisionSingle')))


def double(P):
    return C(int(P.enum_value('e57::FloatPrecision', 'PrecisionDouble')))


def scenarios(P):
    """name -> function building a tree in a Round and giving its root"""
    out = {}

    def leaf(name, kind, *args):
        def build(t):
            r = t.make('Structure')
            v = t.make(kind, *args)
            t.hold(r, ('item', v))
            return r
        out[name] = build
    for k, (v, lo, hi) in {'all default': (0,) + I64, 'value': (5,) + I64, 'negative value': (-5,) + I64, 'bounds': (3, -7000000000, 9000000000),
                           'lower bound only': (0, -3, I64[1]), 'upper bound only': (0, I64[0], 12), 'zero bounds': (0, 0, 0),
                           'least value': (I64[0],) + I64, 'greatest value': (I64[1],) + I64, 'value is lower bound': (-9, -9, 9),
                           'zero lower bound': (4, 0, 4), 'zero upper bound': (-4, -4, 0),
                           'bounds next to the limits': (0, I64[0] + 1, I64[1] - 1)}.items():
        leaf('Integer, ' + k, 'Integer', i_(v), i_(lo), i_(hi))
        leaf('ScaledInteger, ' + k, 'ScaledInteger', i_(v), i_(lo), i_(hi), f_(1), f_(0))
    for k, (sc, of) in {'scale': (0.001, 0), 'offset': (1, -7.25), 'scale and offset': (1e-9, 12345.678901234567), 'negative scale': (-1, 0),
                        'unit offset': (1, 1), 'tiny scale': (1 + 2 ** -52, 2 ** -1000)}.items():
        leaf('ScaledInteger, ' + k, 'ScaledInteger', i_(17), i_(-100), i_(100), f_(sc), f_(of))
    for k, p, lim in (('double', double(P), DBL), ('single', single(P), F32MAX)):
        for s, (v, lo, hi) in {'all default': (0, -lim, lim), 'value': (1.5, -lim, lim), 'negative value': (-0.1, -lim, lim), 'bounds': (0.1, -2.5, 1e30),
                               'lower bound only': (0, -1, lim), 'upper bound only': (0, -lim, 2), 'zero bounds': (0, 0, 0), 'zero lower bound': (0, 0, lim),
                               'zero upper bound': (0, -lim, 0), 'long mantissa': (1000000064, -lim, lim), 'greatest value': (lim, -lim, lim),
                               'least value': (-lim, -lim, lim), 'small value': (2.0 ** -100 * 1.0000001192092896, -lim, lim),
                               'value is bound': (1000000064, 1000000064, 1000000064)}.items():
            if k == 'single':
                v, lo, hi = [wrap('f32', float(x)) for x in (v, lo, hi)]
            leaf('Float %s, %s' % (k, s), 'Float', f_(v), p, f_(lo), f_(hi))
    for s in ('', 'abc', 'a]]>b', ']]>', 'a]]>', ']]>b]]>', 'ends in ]]', ']]]>', '<a b="c">&amp;</a>', ' blanks ', '0'):
        leaf('String %r' % s, 'String', ('s', s))
    for o, n in ((48, 0), (5000, 1234), (1023 * 1024 + 16, 5000000000)):
        leaf('Blob at %d' % o, 'Blob', i_(o), i_(n))

    def vector(hetero, n):
        def build(t):
            r, v = t.make('Structure'), t.make('Vector', C(hetero))
            t.hold(v, *[(None, t.make('Integer', i_(k), i_(I64[0]), i_(I64[1]))) for k in range(n)])
            t.hold(r, ('list', v))
            return r
        return build
    for h in (0, 1):
        for n in (0, 2):
            out['Vector, %s, %d children' % ('heterogeneous' if h else 'homogeneous', n)] = vector(h, n)

    def compressed(start, count, codecs):
        def build(t):
            r, p = t.make('Structure'), t.make('Structure')
            t.hold(p, ('x', t.make('Integer', i_(0), i_(0), i_(7))), ('y', t.make('Float', f_(0), double(t.P), f_(-DBL), f_(DBL))))
            cv = t.make('CompressedVector')
            t.put(cv, 'setRecordCount', i_(count))
            t.put(cv, 'setBinarySectionLogicalStart', i_(start))
            t.put(cv, 'setPrototype', p)
            if codecs:
                t.put(cv, 'setCodecs', t.make('Vector', C1))
            t.hold(r, ('points', cv))
            return r
        return build
    out['CompressedVector'] = compressed(5000, 123456789012, True)
    out['CompressedVector without records'] = compressed(48, 0, True)
    out['CompressedVector, other values'] = compressed(3 * 1020, 7, True)

    def nested(t):
        r, a, b = t.make('Structure'), t.make('Structure'), t.make('Structure')
        t.hold(a, ('first', t.make('String', ('s', 'one'))), ('second', t.make('Integer', i_(2), i_(0), i_(9))))
        t.hold(r, ('a', a), ('b', b), ('nor:c', t.make('Float', f_(2.5), double(t.P), f_(-DBL), f_(DBL))))
        return r
    out['Structure in Structure'] = nested

    def names(*ns):
        def build(t):
            t.r.names = ns
            return nested(t)
        return build
    out['name spaces: default'] = names(('', 'http://default.example'))
    out['name spaces: extension'] = names(('nor', 'http://nor.example'))
    out['name spaces: both'] = names(('', 'http://default.example'), ('nor', 'http://nor.example'), ('x', 'http://x.example'))
    return out


STANDARD = 'http://www.astm.org/COMMIT/E57/2010-e57-v1.0'


def differences(t, a, b, where, out):
    """what differs between the node a as written and the node b as read"""
    if b is None or b[0] != 'new' or a[1] != b[1]:
        out.append((where, 'kind', 'read as %s' % (b[1][2:] if b is not None and b[0] == 'new' else 'nothing')))
        return
    cls = a[1][2:]
    single_ = False
    if cls == 'e57::FloatNodeImpl':
        single_ = any(t.st.heap.get(('fld', ('at', a), n)) == single(t.P) for n, ty in t.fields(cls) if ty.startswith('E:'))
    rec = t.P.rec[cls]
    for x in rec['fs']:
        n, ty = x['n'], x['t']
        va, vb = t.st.heap.get(('fld', ('at', a), n)), t.st.heap.get(('fld', ('at', b), n))
        if ty.startswith('R:std::vector<std::shared_ptr<e57::NodeImpl'):
            ks = t.st.heap.get(('gvar', '#kids', b), ('kids',))[1:]
            if len(ks) != len(va) - 1:
                out.append((where, 'children', '%d children written, %d read' % (len(va) - 1, len(ks))))
                continue
            for i, (k, (nm, c)) in enumerate(zip(va[1:], ks)):
                want = t.given.get(k)
                if nm is not None and want is not None and nm != ('s', want):
                    out.append((where, 'name', 'child %s read as %s' % (want, nm[1])))
                differences(t, k, c, where + '/' + (want or str(i)), out)
            continue
        if va is not None and va[0] == 'new' or vb is not None and vb[0] == 'new':
            if va is None or va[0] != 'new':
                continue
            if 'NodeImpl' in va[1]:
                differences(t, va, vb, where + '/' + n.rstrip('_'), out)
            continue
        if va is None or vb is None or va[0] not in ('c', 'fc', 's'):
            if va != vb and va is not None and va[0] in ('c', 'fc', 's'):
                out.append((where, n, 'not set on reading'))
            continue
        if vb[0] not in ('c', 'fc', 's'):
            raise Undecided('%s of %s' % (n, cls))
        xa, xb = va[1], vb[1]
        if single_ and ty == 'f64':
            xa, xb = wrap('f32', xa), wrap('f32', xb)
        if xa != xb:
            out.append((where, n, 'written as %r, read as %r' % (xa, xb)))


def put(t, obj, name, *args):
    t.call(t.method(obj[1][2:], name), obj, args)
    if t.threw:
        raise Undecided(name)


Round.put = put


def roundtrip(c, name, build):
    P = c.P
    t = Round(P, c)
    t.given = {}
    hold = t.hold

    def remember(parent, *named):
        hold(parent, *named)
        for n, v in named:
            t.given[v] = n
    t.hold = remember
    r = build(t)
    t.root(r)
    text = t.write(r, 'e57Root')
    f = P.some('e57::StructureNodeImpl::writeXml')[0]
    kind = name.split(',')[0].split(' ')[0]
    g = [x for x in P.fns('e57::%sNodeImpl::writeXml' % kind)]
    w = P.where(g[0]) if g else P.where(f)
    if text is None:
        c.report('emit', name, w, 'writing the XML of a valid element fails with %s' % t.threw.code)
        return 1
    try:
        es = parse(text)
        if len(es) != 1 or es[0].name != 'e57Root':
            raise NotXml('no single root element')
    except NotXml as e:
        c.report('emit', name, w, 'the text written is not well-formed XML: %s' % e)
        return 1
    t.begin()
    t.feed(es[0])
    if t.threw is not None:
        c.report('accept', name, w, 'what is written is refused on reading with %s (%s)' % (t.threw.code, throw_line(P, t.threw)))
        return 1
    if t.r.under is not None:
        c.report('accept', name, node_where(P, t.r.under), 'an element is ended that was not remembered when it started')
        return 1
    out = []
    differences(t, r, t.result(), '', out)
    for where, what, how in out:
        c.report('same', '%s:%s' % (name, what), w, '%s of the element %s: %s' % (what, where or '/', how))
    want = list(t.r.names) if any(n == '' for n, _ in t.r.names) else list(t.r.names) + [('', None)]
    got = [tuple(x[1] if x is not None and x[0] == 's' else None for x in ns) for ns in t.st.heap.get(NAMES, ('names',))[1:]]
    for pre, uri in want:
        hit = [u for p, u in got if p == pre]
        if len(hit) != 1 or uri is not None and hit[0] != uri:
            c.report('namespaces', '%s:%s' % (name, pre), P.where(f), 'the name space with prefix "%s" is read as %s' % (pre, hit or 'nothing'))
    if len(got) != len(want):
        c.report('namespaces', '%s:extra' % name, P.where(f), '%d name spaces written, %d read' % (len(want), len(got)))
    return 1


def p15(c):
    """Nodes of every kind, with each attribute at its default and away from it, are built by their constructors; writeXml is interpreted
    over the source and the text it hands to the file is collected; that text, split into elements, is fed to startElement, characters
    and endElement; the node these build must have the same kind, members, children and name spaces, and must not be refused."""
    sc = scenarios(c.P)

    def one(c, name):
        try:
            roundtrip(c, name, sc[name])
            c.instance('same', name)
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
    c.each(sorted(sc), one)
    c.floor('same', 30)


# ----------------------------------------------------------------- P16
def el(name, type_, *items, **attrs):
    e = Element(name)
    if type_ is not None:
        e.attrs.append(('type', type_))
    e.attrs += [(k.replace('__', ':'), v) for k, v in attrs.items()]
    e.items = list(items)
    return e


def doc(*items, **attrs):
    return el('e57Root', 'Structure', *items, **dict({'xmlns': STANDARD}, **attrs))


def cvec(*items, **kw):
    return el('points', 'CompressedVector', *items, **dict({'fileOffset': '5000', 'recordCount': '3'}, **kw))


def proto(name='prototype'):
    return el(name, 'Structure', el('x', 'Integer', minimum='0', maximum='7'))


def codecs(hetero='1', type_='Vector'):
    return el('codecs', type_, **({'allowHeterogeneousChildren': hetero} if hetero is not None else {}))


LEAVES = {'Integer': {}, 'ScaledInteger': {}, 'Float': {}, 'String': {}, 'Blob': {'fileOffset': '5000', 'length': '10'}}


def good():
    return {
        'an empty root': doc(),
        'one element of each kind': doc(*[el('a' + k, k, **a) for k, a in LEAVES.items()]),
        'a compressed vector': doc(cvec(proto(), codecs())),
        'a compressed vector, codecs first': doc(cvec(codecs(), proto())),
        'white space in containers': doc(' \n\t\r', el('a', 'Structure', '\n', el('b', 'Vector', '  '), ' '), cvec(' ', proto(), '\n', codecs(), ' '), el('c', 'Blob', ' ', fileOffset='5000', length='10')),
        'precision single': doc(el('a', 'Float', precision='single')),
        'precision double': doc(el('a', 'Float', precision='double')),
        'homogeneous vector': doc(el('a', 'Vector', allowHeterogeneousChildren='0')),
    }


def bad():
    out = {}
    for t in ('Foo', '', 'integer', 'Node'):
        out['element type "%s"' % t] = doc(el('a', t))
        out['nested element type "%s"' % t] = doc(el('s', 'Structure', el('a', t)))
    out['element without a type'] = doc(el('a', None))
    out['vector child without a type'] = doc(el('v', 'Vector', el('vectorChild', None)))
    out['root without a type'] = el('e57Root', None, xmlns=STANDARD)
    out['blob without fileOffset'] = doc(el('a', 'Blob', length='10'))
    out['blob without length'] = doc(el('a', 'Blob', fileOffset='5000'))
    out['compressed vector without fileOffset'] = doc(el('a', 'CompressedVector', proto(), codecs(), recordCount='3'))
    out['compressed vector without recordCount'] = doc(el('a', 'CompressedVector', proto(), codecs(), fileOffset='5000'))
    for p in ('half', '', 'Single', 'SINGLE', 'double '):
        out['precision "%s"' % p] = doc(el('a', 'Float', precision=p))
    for h in ('2', '-1', '10'):
        out['allowHeterogeneousChildren "%s"' % h] = doc(el('a', 'Vector', allowHeterogeneousChildren=h))
    for x in ('text', ' x ', '7', '\n\n0', ' \t-'):
        out['text %r in a structure' % x] = doc(el('a', 'Structure', x))
        out['text %r in a vector' % x] = doc(el('a', 'Vector', x))
        out['text %r in a compressed vector' % x] = doc(cvec(proto(), x, codecs()))
        out['text %r in a blob' % x] = doc(el('a', 'Blob', x, fileOffset='5000', length='10'))
        out['text %r in the root' % x] = doc(x)
        out['text %r after a child of the root' % x] = doc(el('a', 'Structure'), x)
    for k, a in LEAVES.items():
        out['child of an element of type %s' % k] = doc(el('a', k, el('b', 'Integer'), **a))
        out['structure as child of an element of type %s' % k] = doc(el('a', k, el('b', 'Structure'), **a))
        out['root of type %s' % k] = el('e57Root', k, **a)
        out['codecs of type %s' % k] = doc(cvec(proto(), el('codecs', k, **a)))
    out['root of type Vector'] = el('e57Root', 'Vector', allowHeterogeneousChildren='1')
    out['root of type CompressedVector'] = el('e57Root', 'CompressedVector', proto(), codecs(), fileOffset='5000', recordCount='3')
    out['codecs of type Structure'] = doc(cvec(proto(), codecs(None, 'Structure')))
    out['codecs that are a homogeneous vector'] = doc(cvec(proto(), codecs('0')))
    out['codecs that are a vector homogeneous by default'] = doc(cvec(proto(), codecs(None)))
    for n in ('other', 'Prototype', 'codec', 'vectorChild'):
        out['child "%s" of a compressed vector' % n] = doc(cvec(proto(), codecs(), el(n, 'Structure')))
        out['only child "%s" of a compressed vector' % n] = doc(cvec(el(n, 'Structure')))
    e = doc()
    e.attrs = [a for a in e.attrs if a[0] != 'xmlns']
    out['root without a default name space'] = e
    e = doc(xmlns__nor='http://nor.example')
    e.attrs = [a for a in e.attrs if a[0] != 'xmlns']
    out['root with only an extension name space'] = e
    return out


class Handlers(Doc):
    """what is registered with the XML reader; the XML reader reports an error while parsing"""
    def __init__(self, P, fail):
        super().__init__(P)
        self.fail = fail

    def on_call(self, I, st, n, qn, obj, vs):
        cls, name = qn.rpartition('::')[0], n.get('n') or qn.rpartition('::')[2]
        if cls.startswith('xercesc') and name in ('setContentHandler', 'setErrorHandler') and vs:
            v = I.val_of(st, vs[0])
            while v is not None and v[0] == 'cast':
                v = v[3]
            return [(st.tag(('handler', name, v == ('new', 'R:' + PARSER, 'parser') or v is not None and v[0] in ('addr', 'this') and 'parser' in repr(v))), None)]
        if cls.startswith('xercesc') and name == 'parse' and self.fail:
            st = st.tag(('parsed',))
            I.raise_(st, {'code': 'ErrorXMLParser', 'cls': 'e57::E57Exception', 'node': n}, n)
            return []
        if qn == PARSER + '::parse' and self.fail == 'whole':
            st = st.tag(('parsed',))
            I.raise_(st, {'code': 'ErrorXMLParser', 'cls': 'e57::E57Exception', 'node': n}, n)
            return []
        return super().on_call(I, st, n, qn, obj, vs)


def p16(c):
    """Malformed elements are fed to startElement, characters and endElement, interpreted over the source: each must end in
    ErrorBadXMLFormat, and each well-formed one must be accepted. The error callbacks must raise ErrorXMLParser on every path, the
    handler must register itself, an error raised while parsing must reach whoever opened the file, and no reader is made for a
    compressed vector without prototype."""
    P = c.P
    cases = bad()
    fine = good()
    f = P.some(PARSER + '::startElement')[0]
    g = P.some(PARSER + '::endElement')[0]
    P.some(PARSER + '::characters')

    def one(c, name):
        t = Round(P, c)
        try:
            t.begin()
            t.feed(cases[name] if name in cases else fine[name])
        except Undecided as e:
            c.instance('undecided', '%s: %s' % (name, e))
            return
        if name in fine:
            c.instance('accepted', name)
            if t.threw is not None:
                c.report('accepted', name, throw_line(P, t.threw), 'well-formed XML (%s) is refused with %s' % (name, t.threw.code))
            return
        c.instance('refuse', name)
        if t.threw is None:
            c.report('refuse', name, node_where(P, t.r.under) if t.r.under else P.where(g), 'malformed XML is accepted: %s' % name)
        elif t.threw.code != 'ErrorBadXMLFormat':
            c.report('refuse', name + '/code', throw_line(P, t.threw), 'malformed XML (%s) is refused with %s, not with ErrorBadXMLFormat' % (name, t.threw.code))
    c.each(sorted(cases) + sorted(fine), one)
    c.floor('refuse', 30)

    # ---- errors found by the XML parser itself
    for name in ('error', 'fatalError'):
        fs = [x for x in P.fns(PARSER + '::' + name) if x['body'] is not None]
        if not fs:
            c.report('parser-error', name, P.where(f), 'the handler does not override %s: errors of the XML parser are ignored' % name)
            continue
        I, outs = outcomes(P, Doc(P), fs[0])
        c.used(I.stats['fns'])
        c.instance('parser-error', fs[0]['qn'])
        for o in outs:
            if o.kind == 'return':
                c.report('parser-error', name, P.where(fs[0]), '%s can return: an error of the XML parser is ignored' % fs[0]['qn'])
            elif o.code != 'ErrorXMLParser':
                c.report('parser-error', name + '/code', throw_line(P, o), '%s reports %s, not ErrorXMLParser' % (fs[0]['qn'], o.code))

    # ---- the handler is the one that is asked
    entry = [x for x in P.fn.values() if x['body'] is not None and x.get('cls') != PARSER and any(y['k'] in ('mcall', 'call') and y.get('qn') == PARSER + '::parse' for y in fn_nodes(x))]
    init = [x for x in P.fns(PARSER + '::init') if x['body'] is not None]
    for x in init:
        t = Round(P)
        t.r = Handlers(P, None)
        t.begin()
        I, outs = outcomes(P, t.r, x, this=t.parser, args=[], st=t.st)
        c.used(I.stats['fns'])
        for k in ('setContentHandler', 'setErrorHandler'):
            c.instance('registered', k)
            for o in outs:
                if o.kind == 'return' and not any(y[:2] == ('handler', k) and y[2] for y in o.st.tags):
                    c.report('registered', k, P.where(x), '%s can return without registering the handler with %s' % (x['qn'], k))

    # ---- an error while parsing reaches the caller of parse, and whoever opens the file
    for x in [y for y in P.fns(PARSER + '::parse') if y['body'] is not None]:
        I, outs = outcomes(P, Handlers(P, 'inner'), x)
        c.used(I.stats['fns'])
        c.instance('reaches', x['qn'])
        if any(o.kind == 'return' for o in outs):
            c.report('reaches', x['qn'], P.where(x), 'an error found while parsing does not leave %s' % x['qn'])
    for x in entry:
        I, outs = outcomes(P, Handlers(P, 'whole'), x, noinline=())
        c.used(I.stats['fns'])
        c.instance('reaches', x['qn'])
        for o in outs:
            if o.kind == 'return' and ('parsed',) in o.st.tags:
                c.report('reaches', x['qn'], P.where(x), 'an error found while parsing does not leave %s' % x['qn'])
    # ---- a compressed vector without a prototype is accepted, but nothing is read from it
    class NoPrototype(World):
        def on_call(self, I, st, n, qn, obj, vs):
            if n.get('n') == 'getPrototype':
                return [(st, C0)]
            return super().on_call(I, st, n, qn, obj, vs)
    for x in [y for y in P.fns('e57::CompressedVectorReaderImpl::CompressedVectorReaderImpl') if y['body'] is not None and not y.get('imp')]:
        I, outs = outcomes(P, NoPrototype(), x, noinline=('e57::CompressedVectorReaderImpl::setBuffers',))
        c.used(I.stats['fns'])
        c.instance('prototype', x['qn'])
        if any(o.kind == 'return' for o in outs):
            c.report('prototype', x['qn'], P.where(x), 'a reader can be made for a compressed vector that has no prototype')
    c.floor('parser-error', 2)
    c.floor('reaches', 2)
