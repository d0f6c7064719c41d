from vlib.tools import *

NODE = 'e57::NodeImpl'


def kinds(P):
    """implementation class -> constant its type() returns"""
    out = {}
    for c in P.rec:
        if NODE in P.bases(c) and not P.rec[c].get('abs'):
            g = None
            base = [f for f in P.fn.values() if f['n'] == 'type' and f.get('cls') in [c] + P.bases(c) and f['body'] is not None]
            for k in [c] + P.bases(c):
                m = [f for f in base if f['cls'] == k and not f['ps']]
                if m:
                    g = m[0]
                    break
            if g is None:
                raise Broken('class %s does not say what kind of node it is' % c)
            I, outs = outcomes(P, Rule(), g, this=('this', c, True))
            vs = {o.value for o in outs if o.kind == 'return'}
            out[c] = (vs, g)
    if len(out) < 8:
        raise Broken('only %d kinds of nodes found' % len(out))
    return out


class Kinds(Rule):
    """what is known about the kind of each node: ('m', 'kind', node)"""

    def __init__(self, P, own, allowed, casts=(), fixed=None):
        self.P = P
        self.own = own
        self.allowed = allowed       # class -> kind constants of objects of that class
        self.casts = dict(casts)     # cast site -> class
        self.fixed = fixed           # the kind every node of unknown class is assumed to have
        self.bad = []
        self.sites = set()

    def kind(self, obj):
        if obj is None:
            return None
        if obj[0] == 'new' and obj[1][2:] in self.own:
            return C(self.own[obj[1][2:]])
        return self.fixed or ('m', 'kind', obj)

    def on_call(self, I, st, n, qn, obj, args):
        if n.get('virt') and n.get('n') == 'type' and obj is not None and (qn.rsplit('::', 1)[0] == NODE or NODE in self.P.bases(qn.rsplit('::', 1)[0])):
            if I.targets(n, obj)[0] is None:
                return [(st, self.kind(obj))]
        if n['nid'] in self.casts and args:
            self.judge(I, st, n, args[0])
        return None

    def on_cast(self, I, st, n, val):
        if n['nid'] in self.casts:
            self.judge(I, st, n, val)
        return None

    def judge(self, I, st, n, v):
        if I.silent:
            return
        self.sites.add(n['nid'])
        cls = self.casts[n['nid']]
        v = I.val_of(st, v)
        if v == C0:
            return
        if v is not None and v[0] == 'this' and (v[1] == cls or cls in self.P.bases(v[1])):
            return
        if v is not None and v[0] == 'new' and (v[1][2:] == cls or cls in self.P.bases(v[1][2:])):
            return
        k = self.kind(v) if v is not None else None
        if k is not None:
            ok = [a for a in self.allowed[cls] if st.ent(cmp_('==', k, C(a)))]
            if ok or entails(st.facts | frozenset(x for a in self.allowed[cls] for x in fact_norm(cmp_('!=', k, C(a)))), C0):
                return
        self.bad.append((n, cls, I.path()))


def downcasts(f):
    """nodes of f that treat a node as one of a derived class, with the class"""
    for n in fn_nodes(f):
        if n['k'] == 'call' and strip_tmpl(n.get('qn', '')) == 'std::static_pointer_cast':
            yield n, n['t'].split('shared_ptr<')[1].rsplit('>', 1)[0].strip()
        elif n['k'] == 'cast' and n['ck'] == 'BaseToDerived':
            yield n, n['t'].lstrip('*&')[2:]


def p14(c):
    """Every downcast of a node (static_pointer_cast or base-to-derived cast) is found in the syntax tree; on every path to it the
    facts must imply that the node's type() is the kind of the target class or of a class derived from it - in the function itself
    or, for a helper, in all of its callers. Each typed handle's conversion from a generic one is analysed with the node's kind
    different (every way out must be ErrorBadNodeDowncast) and equal (no way out may be). type() of every node class must be the
    constant named after the class, different from the others."""
    P = c.P
    ks = kinds(P)
    seen = {}
    own = {}
    for cls, (vs, g) in sorted(ks.items()):
        c.instance('kind', cls)
        c.used(g)
        want = P.enum_value('e57::NodeType', 'Type' + cls.split('::')[1].replace('NodeImpl', ''))
        if len(vs) != 1 or next(iter(vs))[0] != 'c':
            c.report('kind', cls, P.where(g), '%s does not always report one and the same kind' % g['qn'])
            continue
        v = next(iter(vs))
        own[cls] = v[1]
        if want is not None and v[1] != want:
            c.report('kind', cls, P.where(g), '%s reports %s for a %s' % (g['qn'], P.enum_name('e57::NodeType', v[1]), cls.split('::')[1]))
        if v in seen:
            c.report('kind', cls, P.where(g), '%s reports the same kind as %s' % (g['qn'], seen[v]))
        seen[v] = g['qn']
    allowed = {x: {own[y] for y in own if y == x or x in P.bases(y)} for x in P.rec if x == NODE or NODE in P.bases(x)}
    for f in P.some('e57::Node::type'):
        I, outs = outcomes(P, Kinds(P, own, allowed), f)
        c.instance('kind', f['qn'])
        c.used(I.stats['fns'])
        for o in outs:
            if o.kind == 'return' and o.value[0:2] != ('m', 'kind'):
                c.report('kind', f['qn'], P.where(f), '%s does not return the kind of the node it refers to' % f['qn'])

    # conversions between handles
    conv = [f for f in P.project_fns() if 'ErrorBadNodeDowncast' in P.doc_throws(f)]
    for f in conv:
        name = short(f)
        c.instance('conversion', name)
        mine = f['cls'].split('::')[1]
        me = own.get('e57::%sImpl' % mine)
        if me is None:
            raise Broken('kind of node handled by %s not known' % f['cls'])
        K = ('sym', 'kind')
        for same in (False, True):
            r = Kinds(P, own, allowed, fixed=K)
            I, outs = outcomes(P, r, f, st=State().assume(cmp_('==' if same else '!=', K, C(me))))
            c.used(I.stats['fns'])
            if not same and not any(o.code == 'ErrorBadNodeDowncast' for o in outs):
                c.report('conversion', name, P.where(f), '%s never raises ErrorBadNodeDowncast' % f['qn'])
            for o in outs:
                if not same and o.kind == 'return':
                    c.report('conversion', name, P.where(f), '%s accepts a node of another kind' % f['qn'])
                elif not same and o.code not in ('ErrorBadNodeDowncast', 'ErrorInternal'):
                    c.report('conversion', name, throw_line(P, o), '%s raises %s for a node of another kind' % (f['qn'], o.code))
                elif same and o.kind == 'throw' and o.code == 'ErrorBadNodeDowncast':
                    c.report('conversion', name, throw_line(P, o), '%s refuses a node of its own kind' % f['qn'])
    c.floor('conversion', 8)

    # casts
    sites = {}
    for f in P.project_fns(True):
        for n, cls in downcasts(f):
            if cls in allowed:
                sites.setdefault(f['id'], []).append((n['nid'], cls))
                c.instance('downcast', '%s to %s' % (f['qn'], cls))

    def one(c, fid):
        f = P.fn[fid]
        casts = sites[fid]

        def run(gid):
            g = P.fn[gid]
            out, got = [], False
            for cls in concrete(P, g):
                r = Kinds(P, own, allowed, casts)
                I, outs = outcomes(P, r, g, cls=cls, maxdepth=6)
                c.used(I.stats['fns'])
                got |= fid in I.stats['fns']
                out += r.bad
            return out if got else None
        for n, cls, path in in_context(P, fid, run):
            c.report('downcast', '%s/%s' % (f['qn'], cls.split('::')[1]), node_where(P, n), '%s treats a node as a %s without having checked '
                     'that it is one' % (f['qn'], cls.split('::')[1]), path)
    c.each(sorted(sites), one)
    c.floor('downcast', 15)


# ---------------------------------------------------------------------------------------------------------- P13
def bounded(P):
    """number node classes -> (value, minimum, maximum) members, as returned by their accessors"""
    out = {}
    for c in P.rec:
        if NODE not in P.bases(c):
            continue
        m = {}
        for k, names in (('v', ('rawValue', 'value')), ('min', ('minimum',)), ('max', ('maximum',))):
            for nm in names:
                for f in P.fns('%s::%s' % (c, nm)):
                    if k not in m and f['body'] is not None and not f['ps']:
                        I, outs = outcomes(P, Rule(), f, this=('this', c, True), maxdepth=3)
                        vs = {o.value for o in outs if o.kind == 'return'}
                        if len(vs) == 1 and next(iter(vs))[0] == 'ld' and next(iter(vs))[1][0] == 'fld':
                            m[k] = next(iter(vs))[1][2]
                        else:
                            m[k] = None
        if 'min' in m and 'max' in m:
            out[c] = m
    if len(out) < 3:
        raise Broken('only %d kinds of bounded numbers found' % len(out))
    return out


class Bounds(Rule):
    """tags every number node from its creation until it is known to be within its bounds"""

    def __init__(self, P, classes, default_ok):
        self.P = P
        self.classes = classes
        self.default_ok = default_ok
        self.made = 0

    def on_new(self, I, st, n, val):
        if val[0] == 'new' and val[1][2:] in self.classes:
            self.made += 1
            return self.settle(I, st.tag(('open', val)))
        return st

    def terms(self, I, st, obj):
        m = self.classes[obj[1][2:]]
        return [I.load(st, ('fld', ('at', obj), m[k])) for k in ('v', 'min', 'max')]

    def goals(self, I, st, obj, decided=False):
        v, lo, hi = self.terms(I, st, obj)
        if decided:
            v, lo, hi = resolve(st, v), resolve(st, lo), resolve(st, hi)
        F = any(f['n'] == self.classes[obj[1][2:]]['v'] and is_float_t(f['t']) for f in self.P.rec[obj[1][2:]]['fs'])
        return cmp_('<', v, lo, F), cmp_('>', v, hi, F), v

    def settle(self, I, st):
        for t in st.tags:
            if t[0] == 'open':
                for decided in (False, True):
                    a, b, v = self.goals(I, st, t[1], decided)
                    if (st.ent(neg(a)) and st.ent(neg(b))) or (self.default_ok and (v in (C0, ('fc', 0.0)) or st.ent(cmp_('==', v, C0)))):
                        st = st.untag(t)
                        break
        return st

    def on_assume(self, I, st, n, cond):
        return self.settle(I, st)


def p13(c):
    """Every function that creates a number node (constructor of a bounded node class) is analysed; on every normal way out the
    facts must imply minimum <= value <= maximum over the members of the node created - for a helper, in all of its callers. A
    way out with ErrorValueOutOfBounds must imply that one bound is exceeded, and none with another code may. The members are
    the arguments of the public constructors, unmixed. Nodes read from a file without a value keep the default."""
    P = c.P
    cls = bounded(P)
    for k, m in sorted(cls.items()):
        c.instance('accessor', k)
        if None in m.values() or len(set(m.values())) != 3 or len(m) != 3:
            c.report('accessor', k, k, 'value, minimum and maximum of a %s are not three members returned unchanged' % k.split('::')[1])
    cls = {k: m for k, m in cls.items() if None not in m.values() and len(m) == 3}
    roots_ = set()
    for f in P.project_fns():
        for n in fn_nodes(f):
            t = n.get('t', '')
            if n['k'] == 'new' and t.lstrip('*')[2:] in cls or n['k'] == 'call' and 'make_shared' in n.get('qn', '') and \
                    any('shared_ptr<%s>' % k in t for k in cls):
                roots_.add(f['id'])
    public = [f for f in P.project_fns() if f['kind'] == 'ctor' and f['cls'] + 'Impl' in cls and len(nums(f)) >= 3]

    def one(c, fid):
        f = P.fn[fid]

        def run(gid):
            g = P.fn[gid]
            name = short(g)
            c.instance('creation', name)
            reader = 'XmlParser' in g['qn'] or (g.get('cls') or '').endswith('Parser')
            r = Bounds(P, cls, reader)
            I, outs = outcomes(P, r, g, maxdepth=6)
            c.used(I.stats['fns'])
            bad, hit = [], False
            for o in outs:
                if o.kind == 'return':
                    st = r.settle(I, o.st)
                    if any(t[0] == 'open' for t in st.tags):
                        bad.append((g, P.where(g), '%s can create a number outside its bounds' % g['qn']))
                    continue
                objs = {k[1][1] for k in o.st.heap if k[0] == 'fld' and k[1][0] == 'at' and k[1][1][0] == 'new' and k[1][1][1][2:] in cls
                        and k[2] == cls[k[1][1][1][2:]]['v']}
                over = False
                for x in objs:
                    a, b, v = r.goals(I, o.st, x)
                    over = over or o.st.ent(a) or o.st.ent(b) or o.st.ent(('or', a, b))
                if o.code == 'ErrorValueOutOfBounds':
                    hit = True
                    if objs and not over:
                        bad.append((g, throw_line(P, o), '%s refuses a value that may be within its bounds' % g['qn']))
                elif over and o.code not in (None, 'ErrorImageFileNotOpen'):
                    bad.append((g, throw_line(P, o), '%s raises %s for a value outside its bounds' % (g['qn'], o.code)))
            if not hit and not bad:
                bad.append((g, P.where(g), '%s never raises ErrorValueOutOfBounds' % g['qn']))
            if g in public:
                ps = [('sym', 'arg:' + p['n']) for p in nums(g)[:3]]
                for o in outs:
                    if o.kind != 'return':
                        continue
                    for x in {k[1][1] for k in o.st.heap if k[0] == 'fld' and k[1][0] == 'at' and k[1][1][0] == 'new' and k[1][1][1][2:] in cls}:
                        ts = r.terms(I, o.st, x)
                        for t, p, q in zip(ts, ps, ('value', 'minimum', 'maximum')):
                            used = {y for y in ps if contains(t, y)}
                            if used != {p} and not (t[0] in ('c', 'fc') and q != 'value'):
                                bad.append((g, P.where(g), '%s does not take the %s of the new number from its own argument' % (g['qn'], q)))
                        a = [subst1(t, p, ('sym', 'x')) for t, p in zip(ts, ps)]
                        if len(set(a)) != 1 and not is_float_t(nums(g)[0]['t']):
                            bad.append((g, P.where(g), '%s does not treat value, minimum and maximum alike' % g['qn']))
            return bad
        for g, w, msg in in_context(P, fid, run):
            c.report('creation', short(g), w, msg)
    c.each(sorted(roots_ | {f['id'] for f in public}), one)
    c.floor('creation', 6)


def nums(f):
    return [p for p in f['ps'] if not p['t'].startswith('E:') and (is_int_t(p['t']) or is_float_t(p['t']))]


# ---------------------------------------------------------------------------------------------------------- P11
def links(P):
    """(member holding a node's parent, member holding a container's children)"""
    r = P.rec[NODE]
    par = [x['n'] for x in r['fs'] if 'weak_ptr<e57::NodeImpl>' in x['t']]
    kids = {x['n'] for k in P.rec if NODE in P.bases(k) for x in P.rec[k]['fs'] if 'vector<std::shared_ptr<e57::NodeImpl>' in x['t']}
    if len(par) != 1 or len(kids) != 1:
        raise Broken('parent and children members of nodes not found')
    return par[0], kids.pop()


GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front'}


class Attach(Rule):
    """a node whose parent has been set is tagged until its parent lists it"""

    def __init__(self, P, par, kids, dest):
        self.P = P
        self.par, self.kids, self.dest = par, kids, dest
        self.bad = []
        self.grown = set()

    def on_store(self, I, st, loc, val, node):
        if loc[0] == 'fld' and loc[2] == self.par and external(loc):
            v = I.addr(loc[1])
            st = st.untag_if(lambda t: t[0] == 'linked' and t[1] == v)
            if val != C0:
                st = st.tag(('linked', v, val))
        return st

    def on_call(self, I, st, n, qn, obj, args):
        if n.get('n') in GROW and obj is not None and obj[0] == 'addr' and obj[1][0] == 'fld' and obj[1][2] == self.kids and args:
            v = I.val_of(st, args[-1])
            box = I.addr(obj[1][1])
            mine = [t for t in st.tags if t[0] == 'linked' and t[1] == v]
            if not I.silent:
                self.grown.add(n['nid'])
                if not mine:
                    self.bad.append((n, 'lists a node as a child whose parent it has not set', I.path()))
                elif mine[0][2] != box:
                    self.bad.append((n, 'lists a node whose parent is another container', I.path()))
                a, b = (I.load(st, ('fld', I.deref(x), self.dest)) for x in (v, box))
                if not st.ent(cmp_('==', a, b)):
                    self.bad.append((n, 'lists a node without having checked that it belongs to the same image', I.path()))
            return [(st.untag_if(lambda t: t[0] == 'linked' and t[1] == v), ('v', I.site(n)))]
        return None


class Given(Rule):
    """must-refuse frame: members of the node given as argument, and how many children and path fields there are"""
    unroll = 3

    def __init__(self, P, kids, node=None, mem=None, nkids=0, nfields=1, names=None):
        self.P = P
        self.kids = kids
        self.node = node            # the node in question
        self.mem = mem or {}        # member -> value for it; key (member, None): for every other node
        self.nkids, self.nfields, self.names = nkids, nfields, names

    def elements(self, I, st, loc, ty):
        if loc[0] == 'fld' and loc[2] == self.kids:
            return self.nkids
        if 'vector<std::basic_string' in ty or 'vector<std::__cxx11::basic_string' in ty:
            return self.nfields
        return None

    def initial(self, I, loc, ep):
        if loc[0] == 'fld':
            if loc[1] == ('at', self.node) and loc[2] in self.mem:
                return self.mem[loc[2]]
            if (loc[2], None) in self.mem:
                return self.mem[(loc[2], None)]
            if self.names and loc[2] == self.names[0] and loc[1][0] == 'at' and any(x[0] == 'fld' and x[2] == self.kids for x in subterms(loc[1][1]) if len(x) == 3):
                return self.names[1]
        if loc[0] == 'idx' and self.names and loc[1][0] in ('var', 'tmp', 'at'):
            return self.names[2]
        return None

    def on_store(self, I, st, loc, val, node):
        if external(loc) and not (loc[0] == 'fld' and root(loc)[0] == 'at' and root(loc)[1][0] == 'this'):
            return st.tag(('eff', node['nid'], node['l'], node['fid']))
        return st

    def on_call(self, I, st, n, qn, obj, args):
        if n.get('n') in GROW and obj is not None and obj[0] == 'addr' and obj[1][0] == 'fld' and obj[1][2] == self.kids:
            return [(st.tag(('eff', n['nid'], n['l'], n['fid'])), ('v', I.site(n)))]
        return None

    def expand(self, I, node):
        return True


def handles(P, f):
    """arguments of a public function that refer to nodes: (name, their implementation)"""
    out = []
    for p in f['ps']:
        t = p['t'].lstrip('&')
        if t.startswith('R:e57::') and t.endswith('Node') and P.rec.get(t[2:]):
            out.append((p['n'], ld(('sym', 'ref:' + p['n']), 'impl_')))
    return out


def p11(c):
    """must-refuse: the public operations documented to raise ErrorAlreadyHasParent, ErrorDifferentDestImageFile or ErrorSetTwice
    are analysed with an argument node that has a parent (or is attached), that belongs to another image, or whose name is taken;
    every way out must be a documented error, that one among them, before any store. Typestate: in every function that adds to a
    list of children, the node added has had its parent set to that container and is known to belong to the same image, and no way
    out leaves a parent set without the child listed."""
    P = c.P
    par, kids = links(P)
    dest = [x['n'] for x in P.rec[NODE]['fs'] if 'weak_ptr<e57::ImageFileImpl>' in x['t']]
    att = [x['n'] for x in P.rec[NODE]['fs'] if x['t'] == 'b']
    if len(dest) != 1 or not att:
        raise Broken('image or attachment member of nodes not found')
    dest = dest[0]
    attached = accessor(P, NODE + '::isAttached')
    elem = accessor(P, NODE + '::elementName')
    A, B = ('sym', 'imageA'), ('sym', 'imageB')
    todo = []
    for f in P.project_fns():
        codes = P.doc_throws(f)
        for nm, v in handles(P, f):
            if 'ErrorAlreadyHasParent' in codes:
                todo.append((f['id'], 'ErrorAlreadyHasParent', nm, 'has a parent', v, {par: ('sym', 'parent')}, ('sym', 'parent'), 0))
                if f['kind'] != 'ctor':
                    todo.append((f['id'], 'ErrorAlreadyHasParent', nm, 'is attached', v, {par: C0, attached: C1}, None, 0))
            if 'ErrorDifferentDestImageFile' in codes:
                todo.append((f['id'], 'ErrorDifferentDestImageFile', nm, 'belongs to another image', v, {dest: B, (dest, None): A}, 'img', 0))
            if 'ErrorSetTwice' in codes:
                todo.append((f['id'], 'ErrorSetTwice', nm, 'has a name that is taken', v, {}, 'name', 1))

    def refuse(c, item):
        fid, code, arg, what, v, mem, sym, nkids = item
        f = P.fn[fid]
        codes = P.doc_throws(f)
        name = '%s %s %s' % (short(f), arg, what)
        c.instance('refuse', name)
        st = State(heap={('fld', ('at', ('sym', 'ref:' + p['n'])), 'impl_'): A for p in f['ps'] if p['t'] == '&R:e57::ImageFile'})
        names = None
        if sym == 'img':
            st = st.assume(cmp_('!=', A, B)).assume(cmp_('!=', A, C0)).assume(cmp_('!=', B, C0))
        elif sym == 'name':
            names = (elem, ('sym', 'taken'), ('sym', 'taken'))
        elif sym:
            st = st.assume(cmp_('!=', sym, C0))
        r = Given(P, kids, v, mem, nkids, 1, names)
        I, outs = outcomes(P, r, f, st=st, maxdepth=16, noinline=NOPARSE)
        c.used(I.stats['fns'])
        hit = False
        for o in outs:
            eff = [t for t in o.st.tags if t[0] == 'eff']
            if o.kind == 'return':
                c.report('refuse', name, P.where(f), '%s can complete normally although %s %s' % (f['qn'], arg, what))
            elif o.code not in codes + ARGUMENT and o.code != 'ErrorInternal':
                c.report('refuse', name, throw_line(P, o), '%s raises %s although %s %s' % (f['qn'], o.code, arg, what))
            elif eff:
                c.report('refuse', name, '%s:%d' % (P.rel(P.fn[eff[0][3]]), eff[0][2]), '%s changes a tree before refusing a node that %s'
                         % (f['qn'], what))
            if o.code == code:
                hit = True
        if not hit:
            c.report('refuse', name, P.where(f), '%s does not raise %s when %s %s' % (f['qn'], code, arg, what))
    c.each(todo, refuse)
    c.floor('refuse', 8)

    grow = {}
    for f in P.project_fns(True):
        for n in fn_nodes(f):
            if n['k'] == 'mcall' and n.get('n') in GROW and n.get('o') and n['o']['k'] == 'mem' and n['o'].get('n') == kids:
                grow.setdefault(f['id'], set()).add(n['nid'])
            if f['kind'] != 'ctor' and par in ModSets.of(P).direct.get(f['id'], ()):
                grow.setdefault(f['id'], set())

    def one(c, fid):
        f = P.fn[fid]

        def run(gid):
            g = P.fn[gid]
            out, got = [], False
            c.instance('attach', short(g))
            for cls in concrete(P, g):
                r = Attach(P, par, kids, dest)
                I, outs = outcomes(P, r, g, cls=cls, maxdepth=6, noinline=NOPARSE)
                c.used(I.stats['fns'])
                got |= fid in I.stats['fns']
                out += [(node_where(P, n), '%s %s' % (P.fn[n['fid']]['qn'], m), p) for n, m, p in r.bad]
                for o in outs:
                    if any(t[0] == 'linked' for t in o.st.tags):
                        out.append((P.where(g) if o.kind == 'return' else throw_line(P, o),
                                    '%s can %s with a node whose parent is set but does not list it'
                                    % (g['qn'], 'return' if o.kind == 'return' else 'fail (%s)' % o.code), ()))
            return out if got else None
        for w, msg, path in in_context(P, fid, run):
            c.report('attach', f['qn'], w, msg, path)
    c.each(sorted(grow), one)
    c.floor('attach', 2)


def accessor(P, qn):
    """the member a getter returns"""
    for f in P.some(qn):
        for x in walk(f['body']):
            if x['k'] == 'ret':
                for y in walk(x):
                    if y['k'] == 'mem':
                        return y['n']
    raise Broken('%s does not return a member' % qn)


from checks.lifecycle import NOPARSE, ARGUMENT
