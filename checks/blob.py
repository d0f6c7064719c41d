"""Transfers of blobs."""
from vlib.tools import *
from .image import FileOps, FPOS, CF
from .nodes import accessor
from .trees import image_open

BLOB = 'e57::BlobNodeImpl'
U64 = 1 << 64


class Transfer(FileOps):
    """notes every access to the file; `fields` are assumed values of members"""

    def __init__(self, P, fields, fixed):
        super().__init__(P)
        self.fields = fields
        self.fixed = fixed
        self.hits = []

    def initial(self, I, loc, ep):
        v = self.fixed.get(loc)
        if v is None and loc[0] == 'fld':
            v = self.fields.get(loc[2])
        return v

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == CF + '::read' and obj is not None:
            st = self.access(I, st, n, 'read', vs)
            return [(st.tag(('io',)), None)]
        return super().on_call(I, st, n, qn, obj, vs)

    def wrote(self, I, st, n, what, vs):
        return self.access(I, st, n, what, vs).tag(('io',))

    def access(self, I, st, n, what, vs):
        if not I.silent and vs is not None and len(vs) >= 2:
            self.hits.append((n, st, st.heap.get(FPOS), [I.val_of(st, v) for v in vs], I.path(), len(I.stack)))
        return st


def p32(c):
    """The transfer functions of a blob are analysed for every class of range: negative start, start beyond the end, count beyond what
    is left (also as boundary values at which arithmetic wraps around): each must raise the bad-argument error and touch nothing. For a
    range inside the blob they must not raise it, and the file is accessed at section start + header size + start for exactly the
    count and memory given. A blob that is created reserves at least its header and length, and a negative length is refused."""
    P = c.P
    length = accessor(P, BLOB + '::byteCount')
    base, st0 = image_open(P)
    bad = 'ErrorBadAPIArgument'
    fields = dict(base)
    for q in ('e57::ImageFileImpl', 'e57::NodeImpl'):
        for x in P.rec[q]['fs']:
            if x['t'] == 'b' and ('riter' in x['n'] or 'ttached' in x['n']):
                fields[x['n']] = C1
    hdr = P.rec.get('e57::BlobSectionHeader')
    if hdr is None:
        raise Broken('BlobSectionHeader not found')
    hdr = hdr['size']
    this = ('this', BLOB, True)
    L = ('fld', ('at', this), length)
    starts = [x['n'] for x in P.rec[BLOB]['fs'] if 'Start' in x['n']]
    if len(starts) != 1:
        raise Broken('the member with the section start of a blob was not found')
    S = ('sym', 'section')
    sym = ('sym', 'length')
    TYPES[sym] = TYPES[S] = 'u64'
    ops = [f for nm in ('read', 'write') for f in P.some('%s::%s' % (BLOB, nm)) if len(f['ps']) == 3]
    if len(ops) < 2:
        raise Broken('the transfer functions of blobs were not found')
    big = (1 << 63) - 1
    cases = []
    for ln in (0, 10, 4096):
        for s, k in (x for x in ((-1, 1), (-1, 0), (-5, 5), (-(1 << 63), 1), (ln + 1, 0), (ln + 1, 1), (ln, 1), (0, ln + 1), (ln, U64 - ln), (ln + 1, U64 - 1),
                     (big, 1), (big, 0), (1, U64 - 1), (5, U64 - 5), (5, U64 - 3), (big, U64 - big), (0, U64 - 1), (max(ln - 1, 0), ln + 5), (-1, U64 - 1), (-3, U64 - 1)) if x[1] < U64):
            cases.append(('range start=%d count=%d of length %d' % (s, k, ln), C(ln), C(s), C(k), False))
        for s, k in ((0, ln), (ln, 0), (0, 0), (ln // 2, ln - ln // 2)):
            cases.append(('range start=%d count=%d of length %d' % (s, k, ln), C(ln), C(s), C(k), True))
    cases += [('negative start', sym, None, None, False), ('start beyond the end', sym, None, None, False),
              ('count beyond the end', sym, None, None, False), ('inside', sym, None, None, True)]
    todo = [(f['id'],) + x for f in ops for x in cases]

    def one(c, item):
        fid, what, ln, s, k, good = item
        f = P.fn[fid]
        name = '%s %s' % (short(f), what)
        c.instance('range', name)
        st = st0.cp()
        a = [('sym', 'arg:' + p['n']) for p in f['ps']]
        for x, p in zip(a, f['ps']):
            TYPES[x] = p['t']
        if s is not None:
            a[1], a[2] = s, k
        else:
            st = st.assume(cmp_('<=', sym, C(1 << 62)))
            if what == 'negative start':
                st = st.assume(cmp_('<', a[1], C0))
            elif what == 'start beyond the end':
                st = st.assume(cmp_('>', a[1], sym))
            elif what == 'count beyond the end':
                st = st.assume(cmp_('>=', a[1], C0)).assume(cmp_('<=', a[1], sym)).assume(cmp_('>', a[2], arith('-', sym, a[1])))
            else:
                st = st.assume(cmp_('>=', a[1], C0)).assume(cmp_('<=', a[1], sym)).assume(cmp_('<=', a[2], arith('-', sym, a[1])))
        r = Transfer(P, fields, {L: ln, ('fld', ('at', this), starts[0]): S})
        I, outs = outcomes(P, r, f, this=this, args=a, st=st, cls=BLOB)
        c.used(I.stats['fns'])
        w = P.where(f)
        if not good:
            for o in outs:
                if o.kind == 'return':
                    c.report('range', name, w, '%s can complete for a range outside the blob (%s)' % (f['qn'], what))
                    break
            if not any(o.kind == 'throw' and o.code == bad for o in outs):
                c.report('range', name, w, '%s does not raise the bad-argument error for a range outside the blob (%s)' % (f['qn'], what))
            if r.hits:
                c.report('range', name, node_where(P, r.hits[0][0]), '%s accesses the file for a range outside the blob (%s)' % (f['qn'], what))
            return
        if any(o.kind == 'throw' and o.code == bad for o in outs):
            c.report('range', name, w, '%s refuses a range inside the blob (%s)' % (f['qn'], what))
        if not any(o.kind == 'return' for o in outs):
            c.report('range', name, w, '%s cannot complete for a range inside the blob (%s)' % (f['qn'], what))
        if k == C0:
            return
        for o in outs:
            if o.kind == 'return' and ('io',) not in o.st.tags:
                c.report('range', name, w, '%s can complete without accessing the file (%s)' % (f['qn'], what))
                break
        loops = any(n['k'] in ('for', 'while', 'do') for g in I.stats['fns'] if P.fn.get(g) and P.fn[g].get('cls') == BLOB for n in fn_nodes(P.fn[g]))
        for n, hs, pos, vs, path, depth in r.hits:
            if loops:
                continue                # transferred in pieces
            want = arith('+', arith('+', S, C(hdr)), a[1])
            if pos is None or pos[0] != 'L' or not hs.ent(cmp_('==', pos[1], want)):
                c.report('range', name + '/position', node_where(P, n), '%s accesses the file at a position other than that of the requested byte' % f['qn'], path)
            if not hs.ent(cmp_('==', vs[1], a[2])):
                c.report('range', name + '/count', node_where(P, n), '%s transfers a number of bytes other than the requested one' % f['qn'], path)
            if a[0] not in {vs[0]} | set(subterms(vs[0])):
                c.report('range', name + '/memory', node_where(P, n), '%s transfers other memory than the caller gave' % f['qn'], path)
    c.each(todo, one)
    c.floor('range', 100)

    # ---- what the user asks for is what is transferred
    for op in ops:
        for f in P.some('%s::%s' % (BLOB.replace('Impl', ''), op['n'])):
            if len(f['ps']) != 3 or f['body'] is None or any(n['k'] in ('for', 'while', 'do') for n in fn_nodes(f)):
                continue
            c.instance('passed-on', short(f))
            a = [('sym', 'arg:' + p['n']) for p in f['ps']]
            for x, p in zip(a, f['ps']):
                TYPES[x] = p['t']

            class Pass(Rule):
                def on_call(self, I, st, n, qn, obj, vs):
                    if n.get('id') == op['id']:
                        vs = [I.val_of(st, v) for v in vs]
                        if not I.silent and any(v is not None and v != x and not st.ent(cmp_('==', v, x)) for v, x in zip(vs, a)):
                            c.report('passed-on', short(f), node_where(P, n), '%s transfers another range or memory than the one it was given' % f['qn'])
                        return [(st.tag(('passed',)), None)]
                    return None
            I, outs = outcomes(P, Pass(), f, args=a)
            c.used(I.stats['fns'])
            for o in outs:
                if o.kind == 'return' and ('passed',) not in o.st.tags and not o.st.ent(cmp_('==', a[2], C0)):
                    c.report('passed-on', short(f) + '/not', P.where(f), '%s can return without transferring anything' % f['qn'])

    # ---- creation
    for f in P.fn.values():
        if f.get('cls') != BLOB or f['kind'] != 'ctor' or f['body'] is None or f['imp']:
            continue
        sizes = [p for p in f['ps'] if p['t'] == 'i64']
        if len(sizes) != 1:
            continue
        got = []

        class Make(Transfer):
            def on_call(self, I, st, n, qn, obj, vs):
                if qn.endswith('ImageFileImpl::allocateSpace'):
                    got.append((st, I.val_of(st, vs[0]), n))
                    return [(st, ('sym', 'where'))]
                return super().on_call(I, st, n, qn, obj, vs)
        x = ('sym', 'arg:' + sizes[0]['n'])
        TYPES[x] = 'i64'
        for what, fact in (('negative', cmp_('<', x, C0)), ('any', cmp_('>=', x, C0))):
            c.instance('creation', '%s %s' % (short(f), what))
            del got[:]
            st = st0.assume(fact).assume(cmp_('<', x, C(1 << 60)))
            r = Make(P, fields, {})
            I, outs = outcomes(P, r, f, this=this, st=st, cls=BLOB)
            c.used(I.stats['fns'])
            if what == 'negative':
                if any(o.kind == 'return' for o in outs) or not any(o.code == bad for o in outs) or r.hits or got:
                    c.report('creation', 'negative', P.where(f), 'a blob of negative length is not refused before anything is reserved for it')
                continue
            if not got:
                c.report('creation', 'reserve', P.where(f), 'creating a blob reserves nothing in the file')
            for s, v, n in got:
                if not s.ent(cmp_('>=', v, arith('+', x, C(hdr)))):
                    c.report('creation', 'reserve', node_where(P, n), 'the space reserved for a blob can be smaller than its header and length')
            for o in outs:
                if o.kind == 'return':
                    v = I.load(o.st, L)
                    if not o.st.ent(cmp_('==', v, x)):
                        c.report('creation', 'length', P.where(f), 'a blob that was created has another length than the one given')
    c.floor('creation', 2)
