from vlib.tools import *


def file_field(P):
    r = P.rec.get('e57::ImageFileImpl')
    if r is None:
        raise Broken('class e57::ImageFileImpl not found')
    fs = [x['n'] for x in r['fs'] if 'e57::CheckedFile' in x['t']]
    if len(fs) != 1:
        raise Broken('ImageFileImpl: %d members hold the checked file' % len(fs))
    return fs[0]


class Closed(Rule):
    """every image file is closed: its file pointer is null"""

    def __init__(self, field, own, flags, books):
        self.field = field
        self.own = own            # the object under construction is not shared yet
        self.flags = flags        # transfer objects are assumed to be open
        self.books = books        # open flags and counts: giving them up on a closed image is not an effect
        self.effects = []

    def on_load(self, I, st, loc, n):
        if loc[0] == 'fld' and loc[2] == self.field and st.heap.get(loc) is None:
            st = st.cp()
            st.heap[loc] = C0
        if loc[0] == 'fld' and loc[2] in self.flags and st.heap.get(loc) is None:
            st = st.cp()
            st.heap[loc] = C(1)
        return st

    def on_store(self, I, st, loc, val, node):
        if self.own and root(loc) == ('at', ('this', self.own, False)):
            return st
        if loc[0] == 'fld' and loc[2] in self.books:
            return st
        if external(loc) and not I.silent:
            return st.tag(('eff', node['nid'], node['l'], node['fid']))
        return st

    def on_call(self, I, st, n, qn, obj, args):
        if obj == C0 and qn.startswith('e57::CheckedFile::'):
            self.effects.append((node_where(I.P, n), qn, I.path()))
            return []
        return None

    def expand(self, I, node):
        return True


def open_flags(P):
    """the members that tell whether a reader or writer is open: what their isOpen() returns"""
    out = set()
    for cls in ('CompressedVectorReaderImpl', 'CompressedVectorWriterImpl'):
        for f in P.fns('e57::%s::isOpen' % cls):
            out |= {x['n'] for x in walk(f['body']) if x['k'] == 'mem'}
    if not out:
        raise Broken('no open flag found for compressed vector readers and writers')
    return out


def counts(P):
    """the members that hold how many readers and writers are open"""
    out = {}
    for m in ('readerCount', 'writerCount'):
        for f in P.fns('e57::ImageFileImpl::' + m):
            for x in walk(f['body']):
                if x['k'] == 'mem':
                    out.setdefault(m, x['n'])
    if len(out) != 2:
        raise Broken('open reader and writer counts of the image file not found')
    return out


def p08(c):
    """must-refuse: every public operation documented to raise ErrorImageFileNotOpen is analysed with the image's
    file pointer null; every way out must be that error (or another error documented for it), and no store to memory
    that outlives the call may come before it."""
    P = c.P
    field = file_field(P)
    flags = open_flags(P)
    books = flags | set(counts(P).values())
    todo = [f['id'] for f in P.project_fns() if 'ErrorImageFileNotOpen' in P.doc_throws(f) and f['kind'] != 'dtor']

    def one(c, fid):
        f = P.fn[fid]
        codes = P.doc_throws(f)
        name = short(f)
        c.instance('closed-image', name)
        r = Closed(field, f['cls'] if f['kind'] == 'ctor' else None, flags, books)
        I, outs = outcomes(P, r, f, maxdepth=16, noinline=NOPARSE)
        c.used(I.stats['fns'])
        for w, q, path in r.effects:
            c.report('closed-image', name, w, '%s uses the closed file (%s)' % (f['qn'], q), path)
        for o in outs:
            eff = [t for t in o.st.tags if t[0] == 'eff']
            if o.kind == 'return':
                c.report('closed-image', name, P.where(f),
                         '%s can complete normally on a closed image instead of raising ErrorImageFileNotOpen' % f['qn'])
            elif o.code != 'ErrorImageFileNotOpen' and (o.code == 'ErrorInternal' or o.code not in codes + ARGUMENT):
                c.report('closed-image', name, throw_line(P, o),
                         '%s on a closed image raises %s instead of ErrorImageFileNotOpen' % (f['qn'], o.code))
            elif eff:
                c.report('closed-image', name, '%s:%d' % (P.rel(P.fn[eff[0][3]]), eff[0][2]),
                         '%s changes state before reporting that the image is closed' % f['qn'])

    c.each(todo, one)
    c.floor('closed-image', 60)


# errors about the arguments themselves, which an operation may notice before the state of the image
ARGUMENT = ['ErrorBadAPIArgument', 'ErrorBuffersNotCompatible', 'ErrorBadPathName']
NOPARSE = ('e57::ImageFileImpl::pathNameParse', 'e57::ImageFileImpl::elementNameParse',
           'e57::ImageFileImpl::checkElementNameLegal', 'e57::ImageFileImpl::pathNameUnparse')


# ---------------------------------------------------------------------------------------------------------- P09
class Balance(Focus):
    """reader/writer counts and open flags as changed by one operation"""

    def __init__(self, P, fields):
        super().__init__(P)
        self.fields = fields

    def wanted(self, f):
        return bool(ModSets.of(self.P).direct.get(f['id'], set()) & self.fields)


def delta(I, st, field):
    """by how much an operation has changed the named count (None: not a known amount)"""
    tot = 0
    for k in st.heap:
        if k[0] == 'fld' and k[2] == field:
            l = lin(arith('-', I.load(st, k), ('ld', k, None)))
            if l[1]:
                return None
            tot += l[0]
    return tot


class Busy(Rule):
    """the image has the given numbers of open readers and writers, and an open file"""

    def __init__(self, vals):
        self.vals = vals

    def on_load(self, I, st, loc, n):
        if loc[0] == 'fld' and loc[2] in self.vals and st.heap.get(loc) is None:
            v = self.vals[loc[2]]
            st = st.cp()
            if v == 'pos':
                return st.assume(cmp_('>', ('ld', loc, None), C0)) or st
            st.heap[loc] = C(v)
        return st

    def expand(self, I, node):
        return True


def p09(c):
    """must-refuse: opening a writer or reader is analysed with a positive writer (reader) count; every way out must be a
    documented error, the count's own among them. Typestate: the change that construction, close and destruction make to the
    counts is computed on every path, normal or exceptional, and must be +1/0, -1/0 and as the open flag says. Transfers are
    analysed with the open flag clear: every way out must be the not-open error."""
    P = c.P
    cnt = counts(P)
    flags = open_flags(P)
    field = file_field(P)
    busy = [('ErrorTooManyWriters', {cnt['writerCount']: 'pos'}), ('ErrorTooManyReaders', {cnt['writerCount']: 0, cnt['readerCount']: 'pos'})]
    todo = []
    for code, vals in busy:
        for f in P.project_fns():
            if code in P.doc_throws(f) and f['kind'] != 'dtor':
                todo.append((f['id'], code, vals, 'exclusion'))
    for code, cls in (('ErrorReaderNotOpen', 'Reader'), ('ErrorWriterNotOpen', 'Writer')):
        for f in P.project_fns():
            if code in P.doc_throws(f) and f['kind'] != 'dtor':
                todo.append((f['id'], code, {x: 0 for x in flags}, 'closed-transfer'))

    def refuse(c, item):
        fid, code, vals, rule = item
        f = P.fn[fid]
        codes = P.doc_throws(f)
        name = '%s %s' % (short(f), code)
        c.instance(rule, name)
        I, outs = outcomes(P, Busy(vals), f, maxdepth=16, noinline=NOPARSE)
        c.used(I.stats['fns'])
        hit = False
        for o in outs:
            if o.kind == 'return':
                c.report(rule, name, P.where(f), '%s can complete normally although it must raise %s' % (f['qn'], code))
            elif o.code == code:
                hit = True
            elif o.code not in codes + ARGUMENT + ['ErrorImageFileNotOpen', 'ErrorNodeUnattached', 'ErrorFileReadOnly', 'ErrorNotImplemented']:
                c.report(rule, name, throw_line(P, o), '%s raises %s instead of %s' % (f['qn'], o.code, code))
        if not hit and not any(o.kind == 'return' or o.code == 'ErrorNotImplemented' for o in outs):
            c.report(rule, name, P.where(f), '%s never raises %s' % (f['qn'], code))
    c.each(todo, refuse)
    c.floor('exclusion', 3)
    c.floor('closed-transfer', 4)

    # counts
    seen = set()
    for kind in ('Writer', 'Reader'):
        cls = 'e57::CompressedVector%sImpl' % kind
        own = cnt[kind.lower() + 'Count']
        other = cnt['readerCount' if kind == 'Writer' else 'writerCount']
        flag = {x['n'] for f in P.some(cls + '::isOpen') for x in walk(f['body']) if x['k'] == 'mem'} & flags
        if len(flag) != 1:
            raise Broken('open flag of %s not found' % cls)
        flag = flag.pop()
        this = ('this', cls, True)
        floc = ('fld', ('at', this), flag)

        def run(f, start):
            r = Balance(P, set(cnt.values()) | flags)
            st = State(heap={} if start is None else {floc: C(start)})
            I, outs = outcomes(P, r, f, this=this, st=st)
            seen.update(I.stats['fns'])
            c.used(I.stats['fns'])
            return I, outs

        def expect(f, what, I, o, d, fl_):
            c.instance('balance', '%s: %s' % (short(f), what))
            x = delta(I, o.st, own)
            w = P.where(f) if o.kind == 'return' else throw_line(P, o)
            how = 'returns' if o.kind == 'return' else 'fails'
            if x != d:
                c.report('balance', '%s/%s' % (cls.split('::')[1], what), w, '%s: when it %s the number of open %ss has changed by '
                         '%s instead of %d' % (f['qn'], how, kind.lower(), 'an unknown amount' if x is None else x, d))
            if delta(I, o.st, other) != 0:
                c.report('balance', '%s/%s/other' % (cls.split('::')[1], what), w, '%s changes the count of the other kind' % f['qn'])
            if fl_ is not None and I.load(o.st, floc) != C(fl_):
                c.report('balance', '%s/%s/flag' % (cls.split('::')[1], what), w, '%s: when it %s the %s is not marked %s'
                         % (f['qn'], how, kind.lower(), 'open' if fl_ else 'closed'))
        for f in P.fns(cls + '::CompressedVector%sImpl' % kind):
            if f['imp']:
                continue
            I, outs = run(f, None)
            for o in outs:
                if o.kind == 'return':
                    expect(f, 'construction', I, o, 1, 1)
                else:
                    expect(f, 'failed construction', I, o, 0, None)
        for f in P.some(cls + '::close'):
            I, outs = run(f, 1)
            for o in outs:
                expect(f, 'close', I, o, -1, 0)
            I, outs = run(f, 0)
            for o in outs:
                expect(f, 'repeated close', I, o, 0, 0)
                if o.kind != 'return':
                    c.report('balance', cls + '/repeated', throw_line(P, o), 'closing a closed %s raises an error' % kind.lower())
        ds = [f for f in P.fn.values() if f['kind'] == 'dtor' and f.get('cls') == cls]
        for f in ds:
            for start in (1, 0):
                I, outs = run(f, start)
                for o in outs:
                    if o.kind == 'return':
                        expect(f, 'destruction while %s' % ('open' if start else 'closed'), I, o, -start, None)
        if not [f for f in ds if not f['imp']]:
            c.report('balance', cls + '/destruction', cls, 'destroying an open %s does not count it out' % kind.lower())
    for f in P.project_fns():
        if ModSets.of(P).direct.get(f['id'], set()) & set(cnt.values()) and f['kind'] != 'ctor' and f['id'] not in seen:
            c.report('balance', 'outside/' + f['qn'], P.where(f), '%s changes the count of open transfers outside their '
                     'construction and closing' % f['qn'])
    c.floor('balance', 12)


# ---------------------------------------------------------------------------------------------------------- P10
class Escapes(Focus):
    std = True

    def wanted(self, f):
        return f['id'] in self.throws.may

    def expand(self, I, node):
        return True


def p10(c):
    """Which functions may throw is computed over the call graph (throwing library operations included, allocation failure
    excluded, code under a catch-all that cannot itself throw excluded). A destructor whose body may throw by that measure is
    analysed path by path from an arbitrary state, calls to a depth of five in place; no exception may leave it."""
    P = c.P

    def one(c, fid):
        f = P.fn[fid]
        c.instance('destructor', f['qn'])
        c.used(f)
        r = Escapes(P)
        if not r.throws.node(f['body']):
            return
        I, outs = outcomes(P, r, f, maxdepth=5)
        c.used(I.stats['fns'])
        for o in outs:
            if o.kind == 'throw':
                c.report('destructor', f['qn'], P.where(f), 'an error (%s, raised at %s) can leave %s'
                         % (o.code or o.info.get('cls'), throw_line(P, o), f['qn']))
    c.each([f['id'] for f in P.project_fns() if f['kind'] == 'dtor'], one)
    c.floor('destructor', 7)
