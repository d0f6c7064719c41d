from vlib.tools import *
from checks.nodes import NODE, GROW, kinds, links, accessor

CONSTRAINTS = ('minimum', 'maximum', 'scale', 'offset', 'precision', 'byteCount', 'allowHeteroChildren')


def getters(P, cls, names):
    """members of a class that its accessors of the given names return: name -> (member, type)"""
    out = {}
    for nm in names:
        for f in P.fn.values():
            if f['n'] == nm and f.get('cls') == cls and not f['ps'] and f['body'] is not None:
                for x in walk(f['body']):
                    if x['k'] == 'ret':
                        for y in walk(x):
                            if y['k'] == 'mem' and nm not in out:
                                out[nm] = (y['n'], y['t'].lstrip('&'))
    return out


class World(Rule):
    """an assumed state of memory: location -> value, sizes of containers, answers of some calls"""
    unroll = 4
    texts = True

    def __init__(self, vals=None, sizes=None, equal=None, fields=None):
        self.vals = vals or {}          # location -> value
        self.sizes = sizes or {}        # location -> number of elements
        self.equal = equal              # (x, y) -> answer of isTypeEquivalent
        self.fields = fields or {}      # member name -> value, for any object not listed in vals
        self.asked = set()

    def elements(self, I, st, loc, ty):
        return self.sizes.get(loc)

    def initial(self, I, loc, ep):
        v = self.vals.get(loc)
        if v is None and loc[0] == 'fld':
            v = self.fields.get(loc[2])
        return v

    def on_call(self, I, st, n, qn, obj, args):
        if n.get('n') == 'isTypeEquivalent' and self.equal is not None and obj is not None and obj[0] == 'sym':
            b = I.val_of(st, args[0])
            self.asked.add((obj, b))
            r = self.equal.get((obj, b))
            if r is None:
                r = self.equal.get((b, obj))
            return [(st, C(r or 0))]
        if n.get('n') == 'pathNameParse' and len(args) == 3:
            p = I.val_of(st, args[0])
            if parts(p) is not None:
                st = I.store(st, args[1][1], C1, n)
                st = I.store(st, args[2][1], ('vec', p), n)
                return [(st, None)]
        return None

    def expand(self, I, node):
        return True


def image_open(P):
    """assumed values that make every node belong to an open image"""
    dest = [x['n'] for x in P.rec[NODE]['fs'] if 'weak_ptr<e57::ImageFileImpl>' in x['t']]
    from checks.lifecycle import file_field
    img, fil = ('sym', 'image'), ('sym', 'file')
    return {dest[0]: img, file_field(P): fil}, State().assume(cmp_('!=', img, C0)).assume(cmp_('!=', fil, C0))


def decided(o):
    v = o.value
    if v is None:
        return None
    b = as_bool(v)
    t = truth(b)
    if t is None:
        t = True if o.st.ent(b) else False if o.st.ent(neg(b)) else None
    return t


def p12(c):
    """Each class's isTypeEquivalent is analysed with two elements that agree in every declared constraint except one (the answer
    must be no on every path), that agree in all of them and in nothing else (the answer must be yes), and that are of different
    kinds (no). Must-refuse: the operations that add a child, resolved as for a homogeneous vector whose first child is not
    equivalent, and as for an element below a homogeneous vector with two children, never reach the list of children."""
    P = c.P
    par, kids = links(P)
    elem = accessor(P, NODE + '::elementName')
    cls = sorted(kinds(P))
    base, st0 = image_open(P)
    eq = {}
    for k in cls:
        for x in [k] + P.bases(k):
            m = [f for f in P.fn.values() if f['n'] == 'isTypeEquivalent' and f.get('cls') == x and len(f['ps']) == 1 and f['body'] is not None]
            if m:
                eq[k] = m[0]
                break
        else:
            raise Broken('%s has no isTypeEquivalent' % k)
    todo = []
    for k in cls:
        A, B = ('at', ('this', k, True)), ('at', ('new', 'R:' + k, 'other'))
        cons = getters(P, k, CONSTRAINTS)
        same = {}
        for nm, (m, t) in cons.items():
            v = ('fc', 0.5) if t in ('f32', 'f64') else C1 if t == 'b' else ('sym', 'c:' + nm)
            same[('fld', A, m)] = same[('fld', B, m)] = v
        for x in P.rec[k]['fs']:
            if 'ecordCount' in x['n']:
                same[('fld', A, x['n'])] = same[('fld', B, x['n'])] = ('sym', 'c:count')
        shapes = [('', {}, {}, {}, True)]
        own = [x['n'] for q in [k] + P.bases(k) for x in P.rec.get(q, {'fs': []})['fs']]
        if kids in own:
            a, b = ('fld', A, kids), ('fld', B, kids)
            vec = k.endswith('VectorNodeImpl')

            def lay(names_b):
                v = {}
                for i in range(2):
                    v[('idx', a, C(i))] = ('sym', 'a%d' % i)
                    v[('fld', ('at', ('sym', 'a%d' % i)), elem)] = ('s', 'n%d' % i)
                for i in range(len(names_b)):
                    v[('idx', b, C(i))] = ('sym', 'b%d' % i)
                    v[('fld', ('at', ('sym', 'b%d' % i)), elem)] = ('s', names_b[i])
                return v, {a: 2, b: len(names_b)}

            def pairs(names_b, bad=None):
                # children of different names compare the wrong way round
                return {(('sym', 'a%d' % i), ('sym', 'b%d' % j)): int(i != bad) if n == 'n%d' % i else int(bad is not None)
                        for i in range(2) for j, n in enumerate(names_b)}
            shapes = []
            for names, bad, what, ans in ((('n0', 'n1'), None, '', True), (('n0', 'n1'), 0, 'types of the first children', False),
                                          (('n0', 'n1'), 1, 'types of the last children', False), (('n0',), None, 'number of children', False),
                                          (('n0', 'n1', 'n2'), None, 'number of children (fewer)', False)):
                v, z = lay(names)
                shapes.append((what, v, z, pairs(names, bad), ans))
            if not vec:
                for names, bad, what, ans in ((('n1', 'n0'), None, '', True), (('n1', 'n0'), 0, 'types of children of the same name', False),
                                              (('n0', 'zz'), None, 'names of children', False), (('zz', 'n1'), None, 'names of first children', False)):
                    v, z = lay(names)
                    shapes.append((what, v, z, pairs(names, bad), ans))
        ptrs = [x['n'] for x in P.rec[k]['fs'] if 'shared_ptr<' in x['t'] and any('R:' + q in x['t'] or q in x['t'] for q in cls + [NODE])
                and 'vector<' not in x['t']]
        if ptrs:
            v = {}
            for m in ptrs:
                v[('fld', A, m)] = ('sym', 'a:' + m)
                v[('fld', B, m)] = ('sym', 'b:' + m)
            shapes = [(('types of ' + bad) if bad else '', v, {}, {(('sym', 'a:' + m), ('sym', 'b:' + m)): int(m != bad) for m in ptrs}, not bad)
                      for bad in [None] + ptrs]
        for what, v, z, e, ans in shapes:
            todo.append((k, what, {**same, **v}, z, e, ans))
        what, v, z, e, ans = shapes[0]
        for nm, (m, t) in sorted(cons.items()):
            if t in ('f32', 'f64'):
                alts = [(('fc', 0.5), ('fc', 0.5 + 2 ** -52)), (('fc', 2.0), ('fc', -1.0)), (('fc', 1.0), ('fc', 3.0))]
            elif t == 'b':
                alts = [(C0, C1), (C1, C0)]
            else:
                alts = [(('sym', 'x:' + nm), ('sym', 'y:' + nm))]
            for p, q in alts:
                d = {**same, **v}
                d[('fld', A, m)], d[('fld', B, m)] = p, q
                todo.append((k, nm, d, z, e, False))
        for o in cls:
            if o != k:
                todo.append((k, 'kind (%s)' % o.split('::')[-1], {}, {}, {}, o))

    def one(c, item):
        k, what, vals, sizes, equal, ans = item
        f = eq[k]
        other = k
        if isinstance(ans, str):
            other, ans = ans, False
        name = '%s %s' % (k.replace('e57::', ''), ('differing in ' + what) if what else 'agreeing')
        c.instance('equivalence', name)
        st = st0
        for v, w in ((('sym', 'x:' + what), ('sym', 'y:' + what)),):
            st = st.assume(cmp_('!=', v, w))
        for x in vals.values():
            if x[0] == 'sym' and x[1][0] in 'ab':
                st = st.assume(cmp_('!=', x, C0))       # a child is an element
        fields = dict(base)
        fields[par] = C0
        r = World(vals, sizes, equal, fields)
        I, outs = outcomes(P, r, f, this=('this', k, True), args=[('new', 'R:' + other, 'other')], st=st, cls=k, maxdepth=12)
        c.used(I.stats['fns'])
        rets = [o for o in outs if o.kind == 'return']
        if not rets:
            c.report('equivalence', name, P.where(f), '%s gives no answer for elements %s' % (f['qn'], name))
        for o in rets:
            d = decided(o)
            if d is not ans:
                c.report('equivalence', name, P.where(f), '%s can answer %s for two elements %s' %
                         (f['qn'], 'yes' if not ans else 'no',
                          'that differ in their %s' % what if what else 'of one kind that agree in every declared constraint'))
                break
    c.each(todo, one)
    c.floor('equivalence', 40)

    # ---- growing
    vec = [k for k in cls if k.endswith('::VectorNodeImpl')]
    if len(vec) != 1:
        raise Broken('vector node class not found')
    vec = vec[0]
    het = getters(P, vec, ('allowHeteroChildren',))
    if not het:
        raise Broken('%s does not say whether it is homogeneous' % vec)
    het = het['allowHeteroChildren'][0]
    jobs = []
    growers = reaching(P, [f['id'] for f in P.project_fns(True) if any(
        n['k'] == 'mcall' and n.get('n') in GROW and n.get('o') and 'vector<std::shared_ptr<e57::NodeImpl>' in n['o']['t'] for n in fn_nodes(f))])
    for k in cls:
        own = [x['n'] for q in [k] + P.bases(k) for x in P.rec.get(q, {'fs': []})['fs']]
        if kids not in own:
            continue
        seen = set()
        for q in [k] + P.bases(k):
            for f in P.fn.values():
                key = (f['n'], tuple(p['t'] for p in f['ps']))
                if f.get('cls') == q and f['kind'] == 'method' and f['body'] is not None and not f['static'] and key not in seen and \
                        any('shared_ptr<e57::NodeImpl>' in p['t'] for p in f['ps']) and f['id'] in growers:
                    seen.add(key)
                    if k == vec:
                        jobs += [(k, f['id'], 'first child differs', n) for n in (1, 2)]
                    jobs.append((k, f['id'], 'below a homogeneous vector', 1))
                    jobs.append((k, f['id'], 'two levels below a homogeneous vector', 0))

    class Grow(World):
        def on_call(self, I, st, n, qn, obj, args):
            if n.get('n') in GROW and obj is not None and obj[0] == 'addr' and obj[1] == self.list:
                self.hit.append((n, I.path()))
                return []
            if n.get('n') == 'pathNameParse' and len(args) == 3:
                st = I.store(st, args[1][1], C1, n)
                st = I.store(st, args[2][1], ('vec', ('sym', 'field')), n)
                return [(st, None)]
            return super().on_call(I, st, n, qn, obj, args)

    def grow(c, item):
        k, fid, what, nk = item
        f = P.fn[fid]
        this = ('this', k, True)
        A = ('at', this)
        lst = ('fld', A, kids)
        vals = {}
        fields = dict(base)
        equal = {}
        ni = ('sym', 'ni')
        sizes = {lst: nk}
        for i in range(nk):
            vals[('idx', lst, C(i))] = ('sym', 'k%d' % i)
            vals[('fld', ('at', ('sym', 'k%d' % i)), elem)] = ('s', '%d' % i)
            equal[(('sym', 'k%d' % i), ni)] = int(i > 0)
        up = ('new', 'R:' + vec, 'up')
        if what.startswith('first'):
            vals[('fld', A, het)] = C0
            vals[('fld', A, par)] = C0
        else:
            vals[('fld', A, het)] = C1
            at = A
            if what.startswith('two'):
                mid = ('new', 'R:' + [x for x in cls if x.endswith('::StructureNodeImpl')][0], 'mid')
                vals[('fld', A, par)] = mid
                at = ('at', mid)
            vals[('fld', at, par)] = up
            vals[('fld', ('at', up), het)] = C0
            vals[('fld', ('at', up), par)] = C0
            sizes[('fld', ('at', up), kids)] = 2
        name = '%s on %s, %s' % (short(f), k.split('::')[-1], what)
        c.instance('growth', name)
        r = Grow(vals, sizes, equal, fields)
        r.list, r.hit = lst, []
        args = []
        for p in f['ps']:
            if 'shared_ptr<e57::NodeImpl>' in p['t']:
                args.append(ni if not p['t'].startswith('&') else ('refto', ('at', ('sym', 'refni'))))
            elif p['t'].startswith('&') and 'vector<' in p['t']:
                args.append(('refto', ('at', ('sym', 'fields'))))
            elif p['t'].startswith('&'):
                args.append(('refto', ('at', ('sym', 'ref:' + p['n']))))
            elif p['t'] == 'u32' and any('vector<' in q['t'] for q in f['ps']):
                args.append(C0)
            else:
                args.append(('sym', 'arg:' + p['n']))
        r.vals[('at', ('sym', 'refni'))] = ni
        r.sizes[('at', ('sym', 'fields'))] = 1
        st = st0.assume(cmp_('!=', ni, C0))
        I, outs = outcomes(P, r, f, this=this, args=args, st=st, cls=k, maxdepth=14)
        c.used(I.stats['fns'])
        for n, path in r.hit[:1]:
            c.report('growth', name, node_where(P, n), '%s adds a child although %s' %
                     (P.fn[n['fid']]['qn'], 'the vector is homogeneous and its first child has another type' if what.startswith('first')
                      else 'the element lies below a homogeneous vector whose other children would no longer match'), path)
        if not any(o.code == 'ErrorHomogeneousViolation' for o in outs) and not r.hit:
            c.report('growth', name, P.where(f), '%s does not raise ErrorHomogeneousViolation' % f['qn'])
    c.each(jobs, grow)
    c.floor('growth', 8)


NAMES = ('ErrorPathNameEmpty', 'ErrorPathNameMalformed', 'ErrorPathNameExtensionNotRegistered', 'ErrorBadPathName')


class Lookup(World):
    """a small tree with named children; effects on it are noted"""
    recursion = 3
    unroll = 8
    real = False            # analyse path parsing itself instead of assuming what it gives

    def on_call(self, I, st, n, qn, obj, args):
        nm = n.get('n')
        if nm == 'pathNameParse' and not self.real and len(args) == 3:
            p = I.val_of(st, args[0])
            if p[0] == 's':
                rel = not p[1].startswith('/')
                st = I.store(st, args[1][1], C(int(rel)), n)
                st = I.store(st, args[2][1], ('vec',) + tuple(('s', x) for x in p[1].strip('/').split('/') if x), n)
                return [(st, None)]
        if nm in GROW and obj is not None and obj[0] == 'addr' and external(obj[1]):
            return [(st.tag(('eff', n['nid'], n['l'], n['fid'])), ('v', I.site(n)))]
        return None

    def expand(self, I, node):
        return False

    def on_store(self, I, st, loc, val, node):
        if external(loc) and root(loc) not in (('at', ('sym', 'ref:prefix')), ('at', ('sym', 'ref:localPart'))):
            return st.tag(('eff', node['nid'], node['l'], node['fid']))
        return st


def handle(I, o):
    """the implementation a returned handle refers to, or the value itself"""
    v = o.value
    if v is not None and v[0] == 'rec':
        return I.load(o.st, ('fld', v[1], 'impl_'))
    return v


ILLEGAL_FIRST = [(1, 46), (58, 64), (91, 94), (96, 96), (123, 127)]
ILLEGAL_NEXT = [(1, 44), (59, 64), (91, 94), (96, 96), (123, 127)]
NOT_DIGIT = [(1, 46), (58, 127)]


def chars(spec):
    """text and facts from a list of characters and (low, high) classes"""
    es, facts = [], []
    for i, x in enumerate(spec):
        if isinstance(x, str):
            es += [C(ord(y)) for y in x]
        else:
            v = ('sym', 'ch%d' % i)
            TYPES[v] = 'i8' if x[1] < 128 else 'u8'
            es.append(v if x[1] < 128 else ('cast', 'i8', 'u8', v))
            facts += [cmp_('>=', v, C(x[0])), cmp_('<=', v, C(x[1]))]
            if x[1] > 127:
                facts.append(cmp_('<', es[-1], C0))
    return text(es), facts


def p31(c):
    """Must-refuse with the documented error, before any store: child indices below zero or not below the number of children, paths
    that lead nowhere, extensions whose prefix or URI is declared, and element names or paths with one character of each forbidden
    class (interval of character codes) at each position, empty parts, several colons or an unregistered prefix. Dataflow: an index or
    path that exists gives exactly that child, a lookup of an extension its own counterpart, and well-formed names are accepted."""
    P = c.P
    par, kids = links(P)
    elem = accessor(P, NODE + '::elementName')
    base, st0 = image_open(P)
    S, V = [[k for k in kinds(P) if k.endswith(x)][0] for x in ('::StructureNodeImpl', '::VectorNodeImpl')]
    spaces = [x for x in P.rec['e57::ImageFileImpl']['fs'] if x['t'].startswith('R:std::vector<') and 'NameSpace' in x['t']]
    if len(spaces) != 1:
        raise Broken('list of extensions not found')
    img = ('sym', 'image')
    ns = ('fld', ('at', img), spaces[0]['n'])
    pre, uri = 'prefix', 'uri'
    if [x['n'] for x in P.rec['e57::NameSpace']['fs']] != [pre, uri]:
        raise Broken('members of an extension not found')

    def world(impl, cls, nk=2, spaces=()):
        """a handle whose implementation is an element of class cls with children n0, n1 (a structure) below root; each has one child 'sub'"""
        vals, sizes = {}, {ns: len(spaces)}
        for i, (p, u) in enumerate(spaces):
            vals[('fld', ('idx', ns, C(i)), pre)], vals[('fld', ('idx', ns, C(i)), uri)] = ('s', p), ('s', u)
        rt = ('new', 'R:' + S, 'root')
        me = ('new', 'R:' + cls, 'me')
        vals[('fld', ('at', ('this', impl, False)), 'impl_')] = me if impl != 'e57::ImageFile' else img
        tree = {me: [('n0' if cls == S else '0', ('new', 'R:' + S, 'k0')), ('n1' if cls == S else '1', ('new', 'R:' + S, 'k1'))][:nk],
                rt: [('me', me), ('n1', ('new', 'R:' + S, 'r1'))], ('new', 'R:' + S, 'k1'): [('sub', ('new', 'R:' + S, 'sub'))],
                ('new', 'R:' + S, 'k0'): [], ('new', 'R:' + S, 'sub'): [], ('new', 'R:' + S, 'r1'): []}
        vals[('fld', ('at', rt), par)] = C0
        for p, ks in tree.items():
            lst = ('fld', ('at', p), kids)
            sizes[lst] = len(ks)
            for i, (nm, k) in enumerate(ks):
                vals[('idx', lst, C(i))] = k
                vals[('fld', ('at', k), par)] = p
                vals[('fld', ('at', k), elem)] = ('s', nm)
        fields = dict(base)
        return vals, sizes, fields

    def run(f, vals, sizes, fields, args, st, real=False):
        r = Lookup(vals, sizes, None, fields)
        r.real = real
        a = []
        for p in f['ps']:
            v = args.get(p['n'])
            if p['t'].startswith('&'):
                if v is not None:
                    st = st.cp()
                    st.heap[('at', ('sym', 'ref:' + p['n']))] = v
                if p['t'] == '&R:e57::Node':
                    r.vals[('fld', ('at', ('sym', 'ref:' + p['n'])), 'impl_')] = ('new', 'R:e57::IntegerNodeImpl', 'given')
                a.append(('refto', ('at', ('sym', 'ref:' + p['n']))))
            else:
                a.append(v if v is not None else ('sym', 'arg:' + p['n']))
        I, outs = outcomes(P, r, f, args=a, st=st, maxdepth=20)
        c.used(I.stats['fns'])
        return I, outs

    def refuse(c, rule, name, f, I, outs, codes, what):
        c.instance(rule, name)
        for o in outs:
            eff = [t for t in o.st.tags if t[0] == 'eff']
            if o.kind == 'return':
                c.report(rule, name, P.where(f), '%s can complete normally although %s' % (f['qn'], what))
                return
            if o.code not in codes and o.code != 'ErrorInternal':
                c.report(rule, name, throw_line(P, o), '%s raises %s although %s' % (f['qn'], o.code, what))
                return
            if eff:
                c.report(rule, name, '%s:%d' % (P.rel(P.fn[eff[0][3]]), eff[0][2]), '%s changes something before it finds that %s' % (f['qn'], what))
                return
        if not any(o.code in codes for o in outs):
            c.report(rule, name, P.where(f), '%s does not raise %s when %s' % (f['qn'], codes[0], what))

    def gives(c, rule, name, f, I, outs, want, what):
        c.instance(rule, name)
        rets = [o for o in outs if o.kind == 'return']
        got = [I.val_of(o.st, handle(I, o)) for o in rets]
        got = [resolve(o.st, g) for o, g in zip(rets, got)]
        bad = [o for o in outs if o.kind == 'throw' and o.code != 'ErrorInternal']
        if bad:
            c.report(rule, name, throw_line(P, bad[0]), '%s raises %s although %s' % (f['qn'], bad[0].code, what))
        elif not got or any(g != want for g in got):
            c.report(rule, name, P.where(f), '%s does not give %s' % (f['qn'], what))

    # ---- children by index and by path
    nidx = npath = 0
    for f in P.project_fns():
        codes = P.doc_throws(f)
        if not f.get('cls') in ('e57::StructureNode', 'e57::VectorNode') or f['kind'] != 'method':
            continue
        cls = f['cls'] + 'Impl'
        if 'ErrorChildIndexOutOfBounds' in codes and len(f['ps']) == 1 and f['ps'][0]['t'] == 'i64':
            i = ('sym', 'arg:' + f['ps'][0]['n'])
            TYPES[i] = 'i64'
            nidx += 1
            for what, fact in (('the index is negative', cmp_('<', i, C0)), ('the index is not below the number of children', cmp_('>=', i, C(2)))):
                I, outs = run(f, *world(f['cls'], cls), {f['ps'][0]['n']: i}, st0.assume(fact))
                refuse(c, 'index', '%s %s' % (short(f), what), f, I, outs, ['ErrorChildIndexOutOfBounds'], what)
            for k in (0, 1):
                I, outs = run(f, *world(f['cls'], cls), {f['ps'][0]['n']: C(k)}, st0)
                gives(c, 'index', '%s child %d' % (short(f), k), f, I, outs, ('new', 'R:' + S, 'k%d' % k), 'child number %d' % k)
        if len(f['ps']) == 1 and f['ps'][0]['t'].endswith('basic_string<char>') and 'ErrorPathNameMalformed' in codes and f['ret'] in ('b', 'R:e57::Node'):
            npath += 1
            q = ('n0', 'n1') if cls == S else ('0', '1')
            for path, want in ((q[0], 'k0'), (q[1], 'k1'), (q[1] + '/sub', 'sub'), ('/n1', 'r1'), ('/me/' + q[0], 'k0'), ('/me/%s/sub' % q[1], 'sub'),
                               ('zz', None), ('sub', None), (q[0] + '/sub', None), (q[1] + '/zz', None), ('/zz', None), ('/' + q[0], None),
                               ('/me/zz', None), ('me', None)):
                I, outs = run(f, *world(f['cls'], cls), {f['ps'][0]['n']: ('s', path)}, st0)
                name = '%s "%s"' % (short(f), path)
                if f['ret'] == 'b':
                    gives(c, 'path', name, f, I, outs, C(int(want is not None)), 'that "%s" is %sdefined' % (path, '' if want else 'not '))
                elif want:
                    gives(c, 'path', name, f, I, outs, ('new', 'R:' + S, want), 'the element at "%s"' % path)
                else:
                    refuse(c, 'path', name, f, I, outs, ['ErrorPathUndefined'], 'no element is at "%s"' % path)
    c.floor('index', 4)
    c.floor('path', 20)

    # ---- extensions
    add = [f for f in P.project_fns() if 'ErrorDuplicateNamespacePrefix' in P.doc_throws(f)]
    wr = cmp_('!=', ('ld', ('fld', ('at', img), next(x['n'] for x in P.rec['e57::ImageFileImpl']['fs'] if x['t'] == 'b')), None), C0)
    for f in add:
        for have, code, what in (([('p', 'x')], 'Prefix', 'the prefix is declared'), ([('x', 'u')], 'URI', 'the URI is declared'),
                                 ([('p', 'x'), ('y', 'z')], 'Prefix', 'the prefix is declared first of two'),
                                 ([('y', 'z'), ('p', 'x')], 'Prefix', 'the prefix is declared second of two'),
                                 ([('x', 'u'), ('y', 'z')], 'URI', 'the URI is declared first of two'),
                                 ([('y', 'z'), ('x', 'u')], 'URI', 'the URI is declared second of two')):
            I, outs = run(f, *world(f['cls'], S, 2, have), {pre: ('s', 'p'), uri: ('s', 'u')}, st0.assume(wr))
            refuse(c, 'extension', '%s %s' % (short(f), what), f, I, outs, ['ErrorDuplicateNamespace' + code, 'ErrorFileReadOnly'], what)
    for f in P.project_fns():
        if f.get('cls') == 'e57::ImageFile' and f['n'].startswith('extensionsLookup'):
            key = pre if 'Prefix' in f['n'] else uri
            other = uri if key == pre else pre
            for have, hit in (([('p', 'u'), ('q', 'v')], 0), ([('q', 'v'), ('p', 'u')], 1), ([('q', 'v')], None), ([], None)):
                w = 'p' if key == pre else 'u'
                I, outs = run(f, *world(f['cls'], S, 2, have), {f['ps'][0]['n']: ('s', w)}, st0)
                name = '%s with %s' % (short(f), ' '.join('%s=%s' % x for x in have) or 'none')
                gives(c, 'extension', name, f, I, outs, C(int(hit is not None)), 'whether %s is declared' % key)
                if hit is not None and len(f['ps']) > 1:
                    for o in outs:
                        v = I.load(o.st, ('at', ('sym', 'ref:' + f['ps'][1]['n'])))
                        if o.kind == 'return' and v != ('s', 'u' if key == pre else 'p'):
                            c.report('extension', name, P.where(f), '%s does not give the %s that belongs to the %s' % (f['qn'], other, key))
        if f.get('cls') == 'e57::ImageFile' and f['n'] in ('extensionsPrefix', 'extensionsUri'):
            i = ('sym', 'arg:' + f['ps'][0]['n'])
            TYPES[i] = f['ps'][0]['t']
            have = [('p', 'u'), ('q', 'v')]
            I, outs = run(f, *world(f['cls'], S, 2, have), {}, st0.assume(cmp_('>=', i, C(2))))
            refuse(c, 'extension', short(f) + ' no such', f, I, outs, ['ErrorBadAPIArgument'], 'the index is not below the number of extensions')
            for k in (0, 1):
                I, outs = run(f, *world(f['cls'], S, 2, have), {f['ps'][0]['n']: C(k)}, st0)
                gives(c, 'extension', '%s %d' % (short(f), k), f, I, outs, ('s', have[k]['Uri' in f['n']]), 'the one declared as number %d' % k)
    c.floor('extension', 12)

    # ---- the grammar of names
    bad = [([''], 'the name is empty'), (['a/'], 'the path ends in a slash'), (['a//b'], 'a name within the path is empty'),
           (['//a'], 'the first name is empty'), (['/a/'], 'the absolute path ends in a slash'), (['p:b:c'], 'the name has two colons'),
           (['p:'], 'the local part is empty'), ([':b'], 'the prefix is empty'), (['q:b'], 'the prefix is not registered'),
           (['a/q:b'], 'the prefix of the second name is not registered')]
    bad += [([x], 'the first character is in %d..%d' % x) for x in ILLEGAL_FIRST]
    bad += [([x, 'a'], 'the first character of two is in %d..%d' % x) for x in ILLEGAL_FIRST]
    bad += [(['a', x], 'the second character is in %d..%d' % x) for x in ILLEGAL_NEXT]
    bad += [(['ab', x], 'the third character is in %d..%d' % x) for x in ILLEGAL_NEXT]
    bad += [(['a', x, 'b'], 'a character in the middle is in %d..%d' % x) for x in ILLEGAL_NEXT]
    bad += [(['/a/b', x], 'a character of the second name is in %d..%d' % x) for x in ILLEGAL_NEXT]
    bad += [(['1', x], 'a digit is followed by %d..%d' % x) for x in NOT_DIGIT]
    bad += [(['1', x, '2'], 'a digit within a number is in %d..%d' % x) for x in NOT_DIGIT]
    good = [[(97, 122)], [(65, 90)], ['_'], ['a', (97, 122)], ['a', (65, 90)], ['a', (48, 57)], ['a-'], ['a.'], ['a_'], ['ab', (48, 57)],
            [(48, 57)], ['1', (48, 57)], ['12', (48, 57)], [(128, 255)], ['a', (128, 255)], ['p:b'], ['/a'], ['/a/b'], ['a/b'], ['/'], ['a/1']]
    entry = [f for f in P.project_fns() if f.get('cls') == 'e57::StructureNode' and f['ps'] and 'ErrorPathNameMalformed' in P.doc_throws(f)
             and f['ps'][0]['t'].endswith('basic_string<char>')]
    names = [f for f in P.project_fns() if f.get('cls') == 'e57::ImageFile' and 'ErrorPathNameMalformed' in P.doc_throws(f)]
    todo = [(f['id'], spec, what, True) for f in entry for spec, what in bad] + [(f['id'], spec, None, False) for f in entry for spec in good]
    todo += [(f['id'], spec, what, True) for f in names for spec, what in bad if not any('/' in x for x in spec if isinstance(x, str))
             and 'registered' not in what]

    def grammar(c, item):
        fid, spec, what, isbad = item
        f = P.fn[fid]
        v, fs = chars(spec)
        shown = ''.join(x if isinstance(x, str) else '<%d..%d>' % x for x in spec)
        st = st0.assume(wr)
        for x in fs:
            st = st.assume(x)
        vals, sizes, fields = world(f['cls'], S, 0, [('p', 'u')])
        I, outs = run(f, vals, sizes, fields, {f['ps'][0]['n']: v}, st, True)
        name = '%s "%s"' % (short(f), shown)
        if isbad and not (f['ret'] == 'b' and 'registered' in what):
            refuse(c, 'name', name, f, I, outs, list(NAMES), what)
        elif not isbad:
            c.instance('name', name)
            for o in outs:
                if o.kind == 'throw' and o.code in NAMES:
                    c.report('name', name, throw_line(P, o), '%s refuses the well-formed path "%s" with %s' % (f['qn'], shown, o.code))
                    break
    c.each(todo, grammar)
    c.floor('name', 80)
