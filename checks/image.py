"""Closing and abandoning an image: when a file becomes an E57 file."""
from vlib.tools import *
from .lifecycle import file_field

CF = 'e57::CheckedFile'
FPOS, FEND, FLEN, XML = ('gvar', '#pos'), ('gvar', '#end'), ('gvar', '#len'), ('gvar', '#xmlstart')


_WAYS = {}


def direction(P, qn):
    """'LP' or 'PL' for a function that converts between logical and physical positions"""
    if id(P) not in _WAYS:
        from checks.offsets import conversions
        try:
            _WAYS[id(P)] = conversions(P)
        except Broken:
            _WAYS[id(P)] = {}
    return _WAYS[id(P)].get(qn)


class FileOps(Rule):
    """models the operations of a checked file: position, length, what has been written"""

    def __init__(self, P):
        self.P = P
        self.modes = {x['n']: int(x['v']) for x in P.enum.get(CF + '::OffsetMode', {'es': []})['es']}
        if not {'Logical', 'Physical'} <= set(self.modes):
            raise Broken('CheckedFile::OffsetMode not found')

    def mode(self, I, st, fn, vs):
        for p, v in zip(fn['ps'], vs):
            if p['t'].startswith('E:') and 'OffsetMode' in p['t']:
                x = I.val_of(st, v)
                if x == C(self.modes['Logical']):
                    return 'L'
                if x == C(self.modes['Physical']):
                    return 'P'
                return None
        return 'L'

    def wrote(self, I, st, n, what, vs):
        """a change of the file's contents at the current position"""
        return st

    def event(self, I, st, n, what):
        return st

    def on_call(self, I, st, n, qn, obj, vs):
        if not qn.startswith(CF + '::'):
            return None
        if direction(self.P, qn):
            return [(st, ('l2p' if direction(self.P, qn) == 'LP' else 'p2l', I.val_of(st, vs[0])))]
        if obj is None:
            return None
        f = self.P.fn.get(n.get('id'))
        name = qn[len(CF) + 2:].split('<')[0] if not qn[len(CF) + 2:].startswith('operator') else 'operator<<'
        st = st.cp()
        if name == 'seek':
            m = self.mode(I, st, f, vs)
            off = I.val_of(st, vs[0])
            if FPOS in st.heap:
                st.heap[FEND] = st.heap[FPOS]
            st.heap[FPOS] = (m or '?', off)
            return [(st, None)]
        if name == 'position':
            m = self.mode(I, st, f, vs)
            cur = st.heap.get(FPOS)
            if cur is None or cur[0] not in ('L', 'P'):
                st, v = I.fresh(st, n, ty='u64')
                st = st.cp()
                st.heap[FPOS] = cur = ('L', ('flog', v))
            if m == cur[0]:
                return [(st, cur[1])]
            return [(st, ('l2p' if m == 'P' else 'p2l', cur[1]))]
        if name == 'length':
            m = self.mode(I, st, f, vs)
            cur = st.heap.get(FLEN)
            if cur is None:
                st, v = I.fresh(st, n, ty='u64')
                st = st.cp()
                st.heap[FLEN] = cur = v
            return [(st, ('flen', m, cur))]
        if name in ('write', 'operator<<', 'extend', 'writeFloatingPoint') or (f is not None and f['n'].startswith('write')):
            st = self.wrote(I, st, n, name, vs)
            st, v = I.fresh(st, n, ty='u64')
            st = st.cp()
            st.heap[FPOS] = ('L', ('flog', v))
            st.heap.pop(FLEN, None)
            return [(st, obj if name == 'operator<<' else None)]
        if name in ('close', 'unlink'):
            return [(self.event(I, st, n, name), None)]
        return None

    def on_delete(self, I, st, n, v):
        return st

    def inline(self, I, fn, node):
        return fn.get('cls') != CF

    def nodes_writing(self):
        return ()


class Close(FileOps):
    """tags: 'xml' the document was written, 'header' the header, 'closed', 'unlinked', 'changed'"""

    def __init__(self, c):
        super().__init__(c.P)
        self.c = c

    def on_call(self, I, st, n, qn, obj, vs):
        if qn.startswith('e57::') and qn.endswith('::writeXml'):
            st = self.wrote(I, st, n, 'writeXml', None)
            st, v = I.fresh(st, n, ty='u64')
            st = st.cp().tag(('xml',))
            st.heap[FPOS] = ('L', ('flog', v))
            st.heap.pop(FLEN, None)
            return [(st, None)]
        q = strip_tmpl(qn)
        if q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'std::copy', 'strncpy') and len(vs) == 3:
            d, s, k = [I.val_of(st, v) for v in vs]
            if d is not None and d[0] == 'addr' and s is not None and s[0] == 's' and k == C(len(s[1])):
                return [(I.store(st, d[1], s), d)]
        return super().on_call(I, st, n, qn, obj, vs)

    def wrote(self, I, st, n, what, vs):
        c = self.c
        pos = st.heap.get(FPOS)
        w = node_where(I.P, n)
        if st.heap.get(XML) is None and not (pos is not None and pos[1] == C0):
            st = st.cp()
            st.heap[XML] = pos if pos is not None else ('?', ('v', 'unknown'))
        if ('closed',) in st.tags or ('header',) in st.tags:
            if not I.silent:
                c.report('order', 'after-header', w, 'the file is changed after its header has been written', I.path())
        if what == 'write' and pos is not None and pos[1] == C0:
            if not I.silent:
                c.instance('header', 'header written at %s' % w)
                if ('xml',) not in st.tags:
                    c.report('order', 'header-early', w, 'the file header is written before the XML section', I.path())
                self.header(I, st, n, vs)
            return st.tag(('header',))
        return st.tag(('changed',))

    def header(self, I, st, n, vs):
        c, P = self.c, I.P
        w = node_where(P, n)
        buf = I.val_of(st, vs[0])
        while buf is not None and buf[0] == 'cast':
            buf = buf[3]
        if buf is None or buf[0] != 'addr':
            c.report('header-field', 'buffer', w, 'the bytes written at the start of the file are not the file header', I.path())
            return
        base = buf[1]
        rec = P.rec.get('e57::E57FileHeader')
        if rec is None:
            raise Broken('record E57FileHeader not found')
        xml = st.heap.get(XML)
        end = st.heap.get(FEND)
        xs = xml[1] if xml is not None and xml[0] == 'L' else ('p2l', xml[1]) if xml is not None and xml[0] == 'P' else None
        el = end[1] if end is not None and end[0] == 'L' else None
        want = {
            'fileSignature': lambda v: v == ('s', 'ASTM-E57'),
            'majorVersion': lambda v: v == C1,
            'minorVersion': lambda v: v == C0,
            'filePhysicalLength': lambda v: v[:2] == ('flen', 'P') and st.heap.get(FLEN) == v[2],
            'xmlPhysicalOffset': lambda v: xs is not None and v in (('l2p', xs), xml[1] if xml[0] == 'P' else None),
            'xmlLogicalLength': lambda v: xs is not None and el is not None and lin(v) == lin(arith('-', el, xs)),
            'pageSize': lambda v: v == C(1024),
        }
        for x in rec['fs']:
            v = I.load(st, ('fld', base, x['n']))
            c.instance('header-field', x['n'])
            if x['n'] in want and not want[x['n']](strip_cast(v)):
                c.report('header-field', x['n'], w, 'the file header is written with a %s that is not the one of this file'
                         % x['n'], I.path())
        size_ = I.val_of(st, vs[1])
        if size_ != C(48):
            c.report('header-field', 'size', w, 'the file header is not written as 48 bytes', I.path())

    def event(self, I, st, n, what):
        return st.tag(('closed',) if what == 'close' else ('unlinked',))


def strip_cast(v):
    while v is not None and v[0] == 'cast':
        v = v[3]
    return v


class Unlink(Rule):
    def __init__(self):
        self.seen = []

    def on_call(self, I, st, n, qn, obj, vs):
        from .storage import REMOVES
        if n['k'] == 'call' and strip_tmpl(qn) in REMOVES and vs:
            v = I.val_of(st, vs[0])
            self.seen.append(v)
            st, r = I.fresh(st, n, ty='i32')
            return [(st.tag(('removed', v)), r)]
        return None


def p06(c):
    """Closing a written image is analysed with a model of the file (position, length, order of changes): on every normal exit
    the XML section was written, then the header at position 0 with fields that equal the positions and lengths recorded, then
    nothing else, then the file closed. Cancelling and destroying reach the removal of the file and write nothing; a closed
    image is left alone. No other function writes at the start of the file."""
    P = c.P
    field = file_field(P)
    cls = 'e57::ImageFileImpl'
    irec = P.rec[cls]
    wr = [x['n'] for x in irec['fs'] if x['t'] == 'b' and 'riter' in x['n']]
    if len(wr) != 1:
        raise Broken('the writer member of ImageFileImpl was not found')
    this = ('this', cls, True)
    fl_ = ('fld', ('at', this), field)
    wl = ('fld', ('at', this), wr[0])
    fp = ('sym', 'file')

    def run(f, file, writer):
        r = Close(c)
        st = State(heap={fl_: file, wl: C(writer)})
        if file == fp:
            st = st.assume(cmp_('!=', fp, C0)) or st
        I, outs = outcomes(P, r, f, this=this, st=st)
        c.used(I.stats['fns'])
        return I, outs

    closers = set()
    for f in P.some(cls + '::close'):
        I, outs = run(f, fp, 1)
        closers |= I.stats['fns']
        c.instance('close', short(f))
        for o in outs:
            if o.kind != 'return':
                continue
            t = {x[0] for x in o.st.tags}
            for need, msg in (('xml', 'without having written the XML section'), ('header', 'without having written the header'),
                              ('closed', 'without having closed the file and reported failures of that')):
                if need not in t:
                    c.report('close', need, P.where(f), 'closing a written image can complete ' + msg)
            if 'unlinked' in t:
                c.report('close', 'unlinked', P.where(f), 'closing a written image removes the file')
            if I.load(o.st, fl_) != C0:
                c.report('close', 'open', P.where(f), 'the image still counts as open after closing')
    dt = [f for f in P.fn.values() if f['kind'] == 'dtor' and f.get('cls') == cls]
    if not dt:
        raise Broken('destructor of ImageFileImpl not found')
    for f in P.some(cls + '::cancel') + dt:
        I, outs = run(f, fp, 1)
        c.instance('abandon', short(f))
        for o in outs:
            t = {x[0] for x in o.st.tags}
            if t & {'header', 'xml', 'changed'}:
                c.report('abandon', f['n'] + '/writes', P.where(f), '%s of an image being written changes the file' % f['qn'])
            if o.kind == 'return' and 'unlinked' not in t:
                c.report('abandon', f['n'] + '/unlink', P.where(f), '%s of an image being written can complete without removing '
                         'the file' % f['qn'])
            if o.kind == 'return' and I.load(o.st, fl_) != C0:
                c.report('abandon', f['n'] + '/open', P.where(f), 'the image still counts as open after %s' % f['qn'])
    for f in P.some(cls + '::close') + P.some(cls + '::cancel'):
        for w in (0, 1):
            I, outs = run(f, C0, w)
            c.instance('closed-noop', '%s %s' % (short(f), 'written' if w else 'read'))
            for o in outs:
                if o.kind != 'return' or o.st.tags:
                    c.report('closed-noop', f['n'], P.where(f), '%s on a closed image does something' % f['qn'])
    for f in P.some(CF + '::unlink'):
        r = Unlink()
        I, outs = outcomes(P, r, f, this=('this', CF, True))
        c.used(I.stats['fns'])
        c.instance('remove', short(f))
        name = [x['n'] for x in P.rec[CF]['fs'] if x['t'].startswith('R:std::basic_string<char')]
        for o in outs:
            rm = [x for x in o.st.tags if x[0] == 'removed']
            if o.kind == 'return' and not (rm and any(y == ('ld', ('fld', ('at', ('this', CF, True)), nm), None) or contains(
                    y, ('ld', ('fld', ('at', ('this', CF, True)), nm), None)) for _, y in rm for nm in name)):
                c.report('remove', f['qn'], P.where(f), 'abandoning the file can complete without removing it by its name')
    # the space handed out to sections starts behind the header, and only close writes in front of it
    for f in P.fns(cls + '::construct2'):
        from .storage import Construct
        r = Construct(c, None)
        for mode in ('w', 'r'):
            args = [('s', mode) if p['n'] == 'mode' else
                    (('refto', ('at', ('sym', 'ref:' + p['n']))) if p['t'].startswith('&') else ('sym', 'arg:' + p['n']))
                    for p in f['ps']]
            if mode == 'w' and not any(p['n'] == 'mode' for p in f['ps']):
                continue
            I, outs = outcomes(P, r, f, this=this, args=args, maxdepth=3)
            c.used(I.stats['fns'])
            c.instance('reserved', '%s %s' % (short(f), mode))
            us = [x['n'] for x in irec['fs'] if 'nused' in x['n']]
            for o in outs:
                if o.kind == 'return' and mode == 'w':
                    for u in us:
                        v = I.load(o.st, ('fld', ('at', this), u))
                        if v[0] == 'c' and v[1] < 48 or v[0] == 'ld':
                            c.report('reserved', mode, P.where(f), 'sections of a new file may start inside the file header')
    for f in P.project_fns():
        if f.get('cls') == CF or f['id'] in closers:
            continue
        seeks = [n for n in fn_nodes(f) if n['k'] == 'mcall' and n.get('qn') == CF + '::seek' and n['as'] and
                 n['as'][0].get('cv') is not None and int(n['as'][0]['cv']) < 48]
        wrs = [n for n in fn_nodes(f) if n['k'] in ('mcall', 'opcall') and n.get('qn', '').startswith(CF + '::') and
               n.get('n', '') in ('write', 'operator<<')]
        if seeks:
            c.instance('header-region', f['qn'])
        if seeks and wrs:
            c.report('header-region', f['qn'], P.where(f, seeks[0]['l']), '%s writes at the start of the file, which only '
                     'closing the image may do' % f['qn'])
    c.floor('header', 1)
    c.floor('header-field', 6)
    c.floor('abandon', 2)
    c.floor('reserved', 1)
