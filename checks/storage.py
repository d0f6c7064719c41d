"""The storage layer: pages, checksums, operating-system calls, read-only files."""
from vlib.tools import *

CF = 'e57::CheckedFile'
IMG = 'e57::ImageFileImpl'
WRITES = {'write', '_write', 'pwrite', 'pwrite64', 'writev', 'pwritev', 'fwrite', 'fputs', 'fputc', 'putc', 'fprintf',
          'ftruncate', 'ftruncate64', 'truncate', 'fallocate', 'posix_fallocate', 'sendfile', 'copy_file_range', 'mmap'}
READS = {'read', '_read', 'pread', 'pread64', 'fread', 'readv'}
SEEKS = {'lseek', 'lseek64', '_lseeki64', 'fseek', 'fseeko', 'fseeko64'}
OPENS = {'open', 'open64', 'openat', '_wsopen_s', 'creat', 'fopen', 'fopen64', 'freopen', 'fdopen'}
CLOSES = {'close', '_close', 'fclose'}
REMOVES = {'remove', 'unlink', 'unlinkat', 'rename', 'std::remove', 'std::rename', 'std::filesystem::remove'}
SYS = WRITES | READS | SEEKS | OPENS | CLOSES | REMOVES
COPIES = {'memcpy', 'memmove', 'std::memcpy', 'std::memmove'}
POS = ('gvar', '#position')


def sysname(n, qn):
    """the operating-system function a call names, if any"""
    if n['k'] != 'call':
        return None
    q = strip_tmpl(qn)
    return q if q in SYS else None


def buf_of(v):
    """(base location, offset term) of a pointer value"""
    if v is None:
        return None, None
    off = C0
    if v[0] == 'op' and v[1] == '+' and len(v) == 4:
        v, off = v[2], v[3]
    if v[0] == 'addr' and v[1][0] == 'idx':
        off = arith('+', v[1][2], off)
        v = ('addr', v[1][1])
    return (v[1] if v[0] == 'addr' else ('at', v)), off


def bits(t, leaf, width=32):
    """where each bit of a term comes from: an index into `leaf`, '0', or None when unknown"""
    if t == leaf:
        return list(range(width))
    k = t[0]
    if k == 'c':
        return ['0' if not (t[1] >> i) & 1 else '1' for i in range(width)]
    if k == 'cast':
        return bits(t[3], leaf, width)
    if k == 'm' and 'bswap32' in t[1] and len(t) == 3:
        b = bits(t[2], leaf, width)
        return [b[(3 - i // 8) * 8 + i % 8] for i in range(32)]
    if k == 'op' and t[1] in ('<<', '>>') and t[3][0] == 'c':
        b, s = bits(t[2], leaf, width), t[3][1]
        return (['0'] * s + b)[:width] if t[1] == '<<' else (b[s:] + ['0'] * s)[:width]
    if k == 'op' and t[1] in ('&', '|', '^', '+'):
        a, b = bits(t[2], leaf, width), bits(t[3], leaf, width)
        out = []
        for x, y in zip(a, b):
            if t[1] == '&':
                out.append('0' if '0' in (x, y) else (x if y == '1' else (y if x == '1' else (x if x == y else None))))
            else:
                out.append(y if x == '0' else (x if y == '0' else (x if x == y and t[1] == '|' else None)))
        return out
    return [None] * width


SWAPPED = [(3 - i // 8) * 8 + i % 8 for i in range(32)]


def crc_of(t):
    """the checksum term inside t, if t is that checksum in file byte order"""
    for x in subterms(t):
        if x and x[0] == 'crc':
            if bits(t, x) == SWAPPED:
                return x
    return None


class Disk(Rule):
    """models the file position and checksum computation"""

    def __init__(self):
        self.calls = set()

    def sys(self, I, st, n, name, vs):
        """default effect of an operating-system call"""
        self.calls.add((n['fid'], n['nid']))
        st = st.untag(('failed',)).cp()
        before = st.heap.get(POS)
        if name in SEEKS:
            whence = vs[2] if len(vs) > 2 else None
            st.heap[POS] = vs[1] if whence == C0 else ('v', 'position', I.site(n))
        elif name in READS | WRITES:
            st.heap[POS] = ('v', 'position', I.site(n))
        if name in READS and len(vs) > 1:
            base, _ = buf_of(vs[1])
            st = I.kill(st, base, ('call', I.site(n)))
            st = self.touched(I, st, n, base)
        st, r = I.fresh(st, n, ty=n['t'])
        if name in READS | WRITES and before is not None and n['t'] in ('i32', 'i64'):
            bad = st.assume(cmp_('<', r, C0)).cp()          # a transfer that failed leaves the position alone
            bad.heap[POS] = before
            return [(st.assume(cmp_('<=', C0, r)), r), (bad.tag(('failed',)), r)]
        return [(st, r)]

    def touched(self, I, st, n, base):
        return st

    def on_call(self, I, st, n, qn, obj, vs):
        name = sysname(n, qn)
        if name:
            return self.sys(I, st, n, name, [I.val_of(st, v) for v in vs])
        q = strip_tmpl(qn)
        if q == 'CRC::Calculate' or q == 'CRC::CalculateBits':
            base, off = buf_of(I.val_of(st, vs[0]))
            t = ('crc', base, off, I.val_of(st, vs[1]))
            return [(self.summed(I, st, n, base, t), t)]
        if q in ('__builtin_bswap32', 'bswap_32', '__bswap_32', '_byteswap_ulong', 'htonl', 'ntohl'):
            return [(st, ('m', 'bswap32', I.val_of(st, vs[0])))]
        if q in COPIES or q in ('memset', 'std::memset'):
            v0, v1, v2 = [I.val_of(st, v) for v in vs[:3]]
            return self.copy(I, st, n, v0, v1 if q in COPIES else None, v2, v1)
        return None

    def summed(self, I, st, n, base, t):
        return st

    def copy(self, I, st, n, dst, src, cnt, val):
        base, _ = buf_of(dst)
        st = I.kill(st, base, ('call', I.site(n)))
        return [(self.touched(I, st, n, base), dst)]


def cf_methods(P):
    out = [f for f in P.project_fns() if f.get('cls') == CF and not f.get('static') and f['kind'] != 'dtor']
    if len(out) < 12:
        raise Broken('only %d member functions of %s found' % (len(out), CF))
    return sorted(out, key=lambda f: f['l'])


def call_sites(P, names):
    """every call in the project of one of the named library functions"""
    out = []
    for f in P.project_fns():
        for n in fn_nodes(f):
            if n['k'] == 'call' and n.get('id') not in P.fn and strip_tmpl(n.get('qn', '')) in names:
                out.append((f, n))
    return out


def no_view(P, this):
    """a file that is written is not a view of memory (those are read-only, see P05)"""
    rec = P.rec.get(CF)
    return State(heap={('fld', ('at', this), x['n']): C0 for x in (rec['fs'] if rec else []) if 'BufferView' in x['t']})


# ---------------------------------------------------------------------------------------------------------- P01
class PageWrite(Disk):
    def __init__(self, c):
        super().__init__()
        self.c = c

    def summed(self, I, st, n, base, t):
        if t[2] == C0 and st.ent(cmp_('==', t[3], C(1020))):
            return st.untag_if(lambda x: x[0] in ('sum', 'sealed') and x[1] == base).tag(('sum', base))
        return st

    def touched(self, I, st, n, base):
        return st.untag_if(lambda x: x[0] in ('sum', 'sealed') and x[1] == base)

    def seal(self, I, st, base, off, val):
        if off is not None and st.ent(cmp_('==', off, C(1020))) and ('sum', base) in st.tags:
            t = crc_of(val)
            if t is not None and t[1] == base:
                return st.tag(('sealed', base))
        return self.touched(I, st, None, base)

    def on_store(self, I, st, loc, val, node):
        if loc[0] == 'idx':
            return self.seal(I, st, loc[1], loc[2], val)
        if loc[0] in ('at', 'new') or root(loc)[0] == 'at':
            return self.touched(I, st, node, root(loc))
        return st

    def copy(self, I, st, n, dst, src, cnt, val):
        base, off = buf_of(dst)
        if src is not None and src[0] == 'addr' and cnt == C(4):
            v = I.load(st, src[1])
            st2 = I.store(st, ('idx', base, off), v)
            return [(self.seal(I, st2, base, off, v), dst)]
        return super().copy(I, st, n, dst, src, cnt, val)

    def sys(self, I, st, n, name, vs):
        if name in WRITES and not I.silent:
            c = self.c
            w = node_where(I.P, n)
            key = I.P.fn[n['fid']]['qn'].replace('e57::', '')
            if name not in ('write', '_write'):
                c.report('page-write', key + '/' + name, w, 'the file is changed by %s, which bypasses page writing' % name,
                         I.path())
                return super().sys(I, st, n, name, vs)
            base, off = buf_of(vs[1])
            pos = st.heap.get(POS)
            c.instance('page-write', '%s line %d, from %s' % (key, n['l'], I.P.fn[I.stack[0][0]]['qn']))
            if not st.ent(cmp_('==', vs[2], C(1024))):
                c.report('page-length', key, w, 'a write to the file is not one physical page (1024 bytes) long', I.path())
            ok = False
            if pos is not None:
                l = lin(pos)
                ok = l[0] % 1024 == 0 and all(co % 1024 == 0 for _, co in l[1])
            if not ok:
                c.report('page-position', key, w,
                         'a page is written without the file having just been positioned at a multiple of the page size',
                         I.path())
            if off != C0 or ('sealed', base) not in st.tags:
                c.report('page-checksum', key, w,
                         'a page is written whose last four bytes are not the checksum (CRC-32C of its first 1020 bytes, '
                         'byte-swapped) of its present contents', I.path())
        return super().sys(I, st, n, name, vs)


CRC32C = [0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, 1, 1]


def p01(c):
    """At every operating-system write the analysed state must prove: one page long, positioned at a page multiple, and the
    buffer sealed, i.e. its last word was stored from the byte-swapped CRC of its first 1020 bytes and nothing in the buffer
    was touched since. Every call that can change a file is one of those writes; the checksum parameters are CRC-32C."""
    P = c.P
    seen = set()
    for f in cf_methods(P):
        r = PageWrite(c)
        this = ('this', CF, False)
        I, _ = outcomes(P, r, f, this=this, st=no_view(P, this))
        c.used(I.stats['fns'])
        seen |= r.calls
    for f, n in call_sites(P, WRITES):
        c.instance('write-site', '%s calls %s' % (f['qn'], n['qn']))
        if (f['id'], n['nid']) not in seen:
            c.report('write-site', f['qn'], P.where(f, n['l']), '%s writes to a file outside the page layer' % f['qn'])
    for f in P.project_fns():
        for n in fn_nodes(f):
            if n['k'] == 'ctor' and strip_tmpl(n['t']).startswith(('R:std::basic_ofstream', 'R:std::basic_fstream')):
                c.report('write-site', f['qn'], P.where(f, n['l']), '%s opens a file stream for writing' % f['qn'])
    c.floor('page-write', 1)
    c.floor('write-site', 1)
    for f in P.project_fns():
        for n in fn_nodes(f):
            if n['k'] in ('ilist', 'ctor') and strip_tmpl(n['t']) == 'R:CRC::Parameters' and len(n['as']) == 5:
                vals = [x.get('cv') for x in n['as']]
                c.instance('crc-parameters', '%s line %d' % (f['qn'], n['l']))
                if None in vals or [int(v) for v in vals] != CRC32C:
                    c.report('crc-parameters', f['qn'], P.where(f, n['l']),
                             'the checksum parameters %s are not those of CRC-32C' % vals)
            if n['k'] == 'call' and strip_tmpl(n.get('qn', '')) == 'CRC::CRC_32_C':
                c.instance('crc-parameters', '%s line %d' % (f['qn'], n['l']))
    c.floor('crc-parameters', 1)


# ---------------------------------------------------------------------------------------------------------- P02
class PageRead(Disk):
    """tags: ('ver', base) the page in the buffer matched its checksum; ('bad',) a mismatch was seen"""

    def __init__(self, c, mod, policy):
        super().__init__()
        self.c, self.mod, self.policy = c, mod, policy

    def touched(self, I, st, n, base):
        return st.untag_if(lambda x: x == ('ver', base))

    def on_store(self, I, st, loc, val, node):
        r = root(loc)
        base = loc[1] if loc[0] == 'idx' else r
        if base[0] != 'var' or loc[0] == 'idx':
            st = self.touched(I, st, node, base)
        if loc[0] == 'idx' and external(loc):
            for x in subterms(val):
                if x and x[0] == 'ld' and x[1][0] == 'idx' and not external(x[1]):
                    self.deliver(I, st, node, x[1][1])
        return st

    def on_assume(self, I, st, node, cond):
        if cond[0] in ('eq', 'ne'):
            for a, b in ((cond[1], cond[2]), (cond[2], cond[1])):
                t = crc_of(a) if a[0] != 'ld' else None
                if t is not None and b[0] == 'ld' and b[1][0] == 'idx':
                    if b[1][1] == t[1] and lin(b[1][2]) == lin(C(1020)) and t[2] == C0 and lin(t[3]) == lin(C(1020)):
                        return st.tag(('ver', t[1])) if cond[0] == 'eq' else st.tag(('bad',))
        return st

    def copy(self, I, st, n, dst, src, cnt, val):
        if src is not None:
            sb, _ = buf_of(src)
            db, _ = buf_of(dst)
            if not external(sb) and root(sb)[0] in ('var', 'new', 'tmp') and external(db):
                self.deliver(I, st, n, sb)
        return super().copy(I, st, n, dst, src, cnt, val)

    def deliver(self, I, st, n, base):
        if I.silent:
            return
        c = self.c
        fn = I.P.fn[n['fid']]['qn'].replace('e57::', '')
        c.instance('deliver', '%s line %d, policy %d' % (fn, n['l'], self.policy))
        w = node_where(I.P, n)
        if ('bad',) in st.tags:
            c.report('deliver-bad', fn, w, 'bytes of a page are handed to the caller after its checksum did not match', I.path())
        if ('ver', base) in st.tags:
            return
        if self.policy == 0:
            return
        if self.mod is None:
            c.report('deliver-unverified', '%s/%d' % (fn, self.policy), w,
                     'with checksum policy %d the bytes of a page reach the caller without the page having been verified'
                     % self.policy, I.path())
            return
        pos = st.heap.get(POS)
        page = st.heap.get(('gvar', '#page'))
        if page is None or not st.ent(cmp_('!=', arith('%', page, C(self.mod)), C0)):
            c.report('deliver-unverified', '%s/%d' % (fn, self.policy), w,
                     'with checksum policy %d a page that the policy selects (every %d. page) can reach the caller unverified'
                     % (self.policy, self.mod), I.path())

    def sys(self, I, st, n, name, vs):
        outs = super().sys(I, st, n, name, vs)
        return self.page_mark(outs) if name in SEEKS else outs

    def on_enter(self, I, st, fn, node, vs):
        if fn['qn'] == 'e57::BufferView::seek' and len(vs) == 2 and I.val_of(st, vs[1]) == C0:
            st = st.cp()
            st.heap[POS] = I.val_of(st, vs[0])
            return self.page_mark([(st, None)])[0][0]
        return st

    def page_mark(self, outs):
        res = []
        for st, v in outs:
            pos = st.heap.get(POS)
            if pos is not None:
                pg = None
                while pos[0] == 'cast':
                    pos = pos[3]
                if pos[0] == 'op' and pos[1:2] + pos[3:] in (('*', C(1024)), ('<<', C(10))):
                    pg = pos[2]
                if pg is not None:
                    st = st.cp()
                    st.heap[('gvar', '#page')] = pg
            res.append((st, v))
        return res


def p02(c):
    """CheckedFile::read is analysed once per checksum policy (the policy member fixed). Whenever bytes leave a page buffer
    for the caller, the state must prove that the stored and computed checksum of that buffer were compared equal since it
    was filled; under a partial policy, or else that the page number is not selected. A state in which they differed must
    end in ErrorBadChecksum. The policy given by the user reaches that member unchanged."""
    P = c.P
    rec = P.rec.get(CF)
    pol = [x['n'] for x in rec['fs'] if 'olicy' in x['n']] if rec else []
    if len(pol) != 1:
        raise Broken('the checksum policy member of CheckedFile was not found')
    for policy, mod in ((100, None), (50, 2), (25, 4)):
        for f in P.some(CF + '::read'):
            r = PageRead(c, mod, policy)
            this = ('this', CF, False)
            st = State(heap={('fld', ('at', this), pol[0]): C(policy)})
            I, outs = outcomes(P, r, f, this=this, st=st)
            c.used(I.stats['fns'])
            for o in outs:
                if ('bad',) in o.st.tags:
                    c.instance('mismatch', 'policy %d' % policy)
                    if o.kind == 'return':
                        c.report('mismatch', 'read/%d' % policy, P.where(f), 'read can return normally after a page checksum '
                                 'did not match')
                    elif o.code not in ('ErrorBadChecksum', 'ErrorSeekFailed'):
                        c.report('mismatch', 'read/%d' % policy, throw_line(P, o),
                                 'a checksum mismatch is reported as %s instead of ErrorBadChecksum' % o.code)
    for f in P.some(CF + '::read'):
        this = ('this', CF, False)
        I, outs = outcomes(P, PageRead(c, 1 << 62, 0), f, this=this, st=State(heap={('fld', ('at', this), pol[0]): C0}))
        c.instance('no-verification', short(f))
        for o in outs:
            if o.code == 'ErrorBadChecksum' or ('bad',) in o.st.tags:
                c.report('no-verification', short(f), P.where(f), 'checksums are compared although the policy is to verify none')
                break
    c.floor('deliver', 1)
    c.floor('mismatch', 1)
    # the policy chosen by the user is the one applied
    for f in P.fns(CF + '::CheckedFile'):
        ps = [p for p in f['ps'] if 'olicy' in p['n']] or [p for p in f['ps'] if p['t'] == 'i32']
        if len(ps) < 1:
            continue
        this = ('this', CF, False)
        I, outs = outcomes(P, Disk(), f, this=this)
        c.used(I.stats['fns'])
        c.instance('policy-kept', short(f))
        for o in outs:
            if o.kind == 'return':
                v = I.load(o.st, ('fld', ('at', this), pol[0]))
                if v not in [('sym', 'arg:' + p['n']) for p in ps]:
                    c.report('policy-kept', short(f), P.where(f), 'the checksum policy given to the file is not the one it keeps')
    for f in P.fns('e57::ImageFile::ImageFile'):
        ps = [p for p in f['ps'] if p['t'] == 'i32']
        if len(ps) != 1:
            continue
        r = PolicyArg(ps[0]['n'])
        I, outs = outcomes(P, r, f, maxdepth=6, noinline=('e57::ImageFileImpl::readFileHeader',))
        c.used(I.stats['fns'])
        for ok, w, path in r.seen:
            c.instance('policy-passed', short(f))
            if not ok:
                c.report('policy-passed', short(f), w, 'the file is opened with a checksum policy other than the one given by '
                         'the user (limited to 0..100)', path)
    c.floor('policy-passed', 2)


class PolicyArg(Rule):
    def __init__(self, name):
        self.sym = ('sym', 'arg:' + name)
        self.seen = []

    def inline(self, I, fn, node):
        return fn['qn'].startswith(('e57::ImageFileImpl::ImageFileImpl', 'e57::ImageFileImpl::construct')) or \
            fn['file'].endswith(('ImageFile.cpp', 'ImageFileImpl.cpp')) and not fn['qn'].endswith('Impl::readFileHeader')

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == CF + '::CheckedFile':
            v = I.val_of(st, vs[-1])
            ok = self.sym in subterms(v) and all(x[0] != 'ld' for x in subterms(v) if x) and clamp_ok(v, self.sym)
            self.seen.append((ok, node_where(I.P, n), I.path()))
        return None


def clamp_ok(v, sym):
    """the value is the argument itself, possibly limited to 0..100"""
    def val(t, x):
        if t == sym:
            return x
        if t[0] == 'c':
            return t[1]
        if t[0] in ('min', 'max'):
            a, b = val(t[1], x), val(t[2], x)
            return None if a is None or b is None else (min if t[0] == 'min' else max)(a, b)
        if t[0] == 'ite':
            q = t[1]
            if q[0] in ('lt', 'le'):
                a, b = val(q[1], x), val(q[2], x)
                if a is None or b is None:
                    return None
                return val(t[2] if (a < b or (q[0] == 'le' and a == b)) else t[3], x)
        return None
    return all(val(v, x) == x for x in (0, 25, 50, 100))


# ---------------------------------------------------------------------------------------------------------- P03
class Results(Disk):
    """tags: ('sys', name, result, requested) the result of a call that is not yet known to be a success"""

    def __init__(self, c):
        super().__init__()
        self.c = c

    def goal(self, t):
        _, name, r, req, _ = t
        if name in ('fopen', 'fopen64', 'freopen', 'fdopen', 'mmap'):
            return cmp_('!=', r, C0)
        if name == 'BufferView::seek':
            return r
        if name in READS | WRITES and req is not None:
            return cmp_('==', ('cast', 'u64', 'i64', r), req)
        return cmp_('<=', C0, r)

    def success(self, st, t):
        if t[1] in READS | WRITES and t[3] is not None:
            return st.ent(cmp_('==', t[2], t[3])) or \
                st.ent(('and', cmp_('<=', C0, t[2]), cmp_('==', ('cast', 'u64', 'i64', t[2]), t[3])))
        return st.ent(self.goal(t))

    def sys(self, I, st, n, name, vs):
        if name in REMOVES:
            return super().sys(I, st, n, name, vs)
        key = (n['nid'],)
        for t in st.tags:
            if t[0] == 'sys' and t[4] == n['nid']:
                if not st.ent(cmp_('<', t[2], C0)):         # a call known to have failed may be repeated
                    self.fail(I, t, n)
                st = st.untag(t)
        outs = []
        for s, r in super().sys(I, st, n, name, vs):
            req = vs[2] if name in READS | WRITES and len(vs) > 2 else None
            self.note(I, n, name)
            outs.append((s.tag(('sys', name, r, req, n['nid'])), r))
        return outs

    def note(self, I, n, name):
        if not I.silent:
            self.c.instance('result', '%s in %s' % (name, I.P.fn[n['fid']]['qn'].replace('e57::', '')))

    def on_call(self, I, st, n, qn, obj, vs):
        return super().on_call(I, st, n, qn, obj, vs)

    def on_exit(self, I, st, fn, node, val):
        for t in [t for t in st.tags if t[0] == 'sys']:
            if self.success(st, t):
                st = st.untag(t)
        if fn['qn'] == 'e57::BufferView::seek' and val is not None and not I.silent:
            self.c.instance('result', 'BufferView::seek')
        return st

    def fail(self, I, t, n=None):
        fid = None
        for f in I.P.project_fns():
            for x in fn_nodes(f):
                if x['nid'] == t[4] and x['k'] == 'call':
                    fid, n = f, x
        self.c.report('result', '%s/%s' % (fid['qn'].replace('e57::', ''), t[1]), I.P.where(fid, n['l']),
                      'the result of %s is not known to be %s when %s returns normally' %
                      (t[1], 'the number of bytes asked for' if t[3] is not None else 'a success', fid['qn']))


class ViewSeek(Rule):
    def __init__(self):
        self.sites = []

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == 'e57::BufferView::seek':
            if not I.silent:
                self.sites.append(n)
            st, r = I.fresh(st, n, ty='b')
            return [(st.tag(('vs', r)), r)]
        return None


def p03(c):
    """Typestate per operating-system call: its result starts unverified and may only be forgotten when the facts on the path
    prove success (not negative; for transfers: equal to the number of bytes asked for). A normal return of a storage
    function with an unverified result is reported. Removing a file that is given up is exempt, as documented.
    Reading and moving past the end of a file held in memory fail as well. No handler outside destructors catches a failure
    of the storage and goes on, and a written image is closed before the object that would close it is destroyed."""
    P = c.P
    seen = set()
    tops = cf_methods(P) + [f for f in P.project_fns() if f.get('cls') == CF and f['kind'] == 'dtor']
    ids = {f['id'] for f in tops}
    for f, n in call_sites(P, SYS - REMOVES):
        if f['id'] not in ids:
            tops.append(f)
            ids.add(f['id'])
    for f in tops:
        r = Results(c)
        I, outs = outcomes(P, r, f)
        c.used(I.stats['fns'])
        seen |= r.calls
        for o in outs:
            if o.kind != 'return':
                continue
            for t in o.st.tags:
                if f['kind'] == 'dtor':
                    continue     # nothing can be reported from a destructor
                if t[0] == 'sys' and not (o.value is not None and t[2] in subterms(o.value)):
                    r.fail(I, t)
    # a result returned to the caller must be looked at there: every caller is analysed with the callee in place
    for f in tops:
        v = ViewSeek()
        I, outs = outcomes(P, v, f)
        for o in outs:
            if o.kind == 'return':
                for t in o.st.tags:
                    if t[0] == 'vs':
                        c.instance('view-seek', f['qn'])
                        if not o.st.ent(t[1]):
                            c.report('view-seek', f['qn'], P.where(f), '%s returns normally although positioning in the '
                                     'memory buffer may have failed' % f['qn'])
    c.floor('result', 5)
    from .packets import memory
    memory(c, P, 'memory', True)
    swallowed(c, P)
    left_open(c, P)


def swallowed(c, P):
    """no handler turns a failure of the storage into a success"""
    from .errors import Thrown, quiet_query, in_dtor
    codes = {x['n']: int(x['v']) for x in P.enum.get('e57::ErrorCode', {'es': []})['es']}
    code = codes.get('ErrorWriteFailed')
    touch = reaching(P, {f['id'] for f, n in call_sites(P, SYS - REMOVES)})
    if code is None:
        return

    class Failing(Thrown):
        def opaque_throws(self, I, st, n, qn):
            return False if I.excinfo or n.get('id') not in touch else super().opaque_throws(I, st, n, qn)
    for f in sorted(P.project_fns(True), key=lambda f: f['id']):
        trys = [n for n in fn_nodes(f) if n['k'] == 'try']
        if not any(x.get('id') in touch for n in trys for x in walk(n['a'])) or in_dtor(P, f) or quiet_query(f):
            continue
        c.instance('swallowed', f['qn'])
        I, outs = outcomes(P, Failing(P, code), f, cls=concrete(P, f)[0] if f.get('cls') else None)
        c.used(I.stats['fns'])
        for o in outs:
            if o.kind == 'return' and any(t[0] == 'caught' for t in o.st.tags):
                c.report('swallowed', f['qn'], P.where(f), '%s can catch a failure to read or write the file and return as if it had '
                         'succeeded' % f['qn'])


class Leaving(Rule):
    """('closed',): the file has been closed; ('lost',): it was destroyed open, so that nobody learns whether closing it worked"""

    def __init__(self, closers):
        self.closers = closers

    def inline(self, I, fn, node):
        return fn.get('cls') == IMG

    def on_call(self, I, st, n, qn, obj, vs):
        if n.get('id') in self.closers:
            s, v = I.fresh(st, n, ty=n.get('t'))
            return [(s.tag(('closed',)), v)]
        return None

    def on_delete(self, I, st, n, v):
        t = (n.get('a') or {}).get('t', '')
        if n['k'] == 'delete' and t.replace('c:', '') == '*R:' + CF and ('closed',) not in st.tags:
            return st.tag(('lost', n['l']))
        return st


def left_open(c, P):
    """a written image is closed where a failure can be reported, not by a destructor"""
    rec = P.rec.get(IMG)
    wr = [x['n'] for x in rec['fs'] if x['t'] == 'b' and 'riter' in x['n']] if rec else []
    fl = [x['n'] for x in rec['fs'] if CF in x['t']] if rec else []
    if len(wr) != 1 or len(fl) != 1:
        return
    shut = {f['id'] for f, n in call_sites(P, {'close', '_close', 'fclose'})}
    closers = {x for x in reaching(P, shut) if P.fn[x].get('cls') == CF and P.fn[x]['kind'] != 'dtor'}
    this = ('this', IMG, False)
    for f in P.some(IMG + '::close'):
        st = State()
        st.heap[('fld', ('at', this), wr[0])] = C(1)
        st.heap[('fld', ('at', this), fl[0])] = ('sym', 'file')
        st = st.assume(cmp_('!=', ('sym', 'file'), C0)) or st
        c.instance('left-open', f['qn'])
        I, outs = outcomes(P, Leaving(closers), f, this=this, st=st, cls=IMG)
        c.used(I.stats['fns'])
        for o in outs:
            for t in o.st.tags:
                if o.kind == 'return' and t[0] == 'lost':
                    c.report('left-open', f['qn'], '%s:%d' % (P.rel(f), t[1]), '%s leaves closing the file to its destructor, which cannot '
                             'report that it failed' % f['qn'])


# ---------------------------------------------------------------------------------------------------------- P05
O_ACCMODE, O_CREAT, O_TRUNC, O_APPEND = 3, 0o100, 0o1000, 0o2000


class ReadOnly(Disk):
    def __init__(self, c, what):
        super().__init__()
        self.c, self.what = c, what
        self.opens = []

    def sys(self, I, st, n, name, vs):
        if not I.silent:
            w = node_where(I.P, n)
            if name in WRITES | REMOVES:
                self.c.report('read-only-effect', '%s/%s' % (self.what, name), w,
                              '%s reaches %s on a file opened for reading' % (self.what, name), I.path())
            if name in OPENS:
                self.opens.append((n, name, vs, I.path()))
        return super().sys(I, st, n, name, vs)


def p05(c):
    """The read-mode constructors are analysed for the flags they open with and for the read-only member they leave set; every
    member function of CheckedFile is then analysed with that member set, and every member function of ImageFileImpl with its
    writer member clear: no operating-system write or removal may be reachable, and writing functions must raise
    ErrorFileReadOnly. Public operations documented to raise ErrorFileReadOnly must do so on such an image."""
    P = c.P
    rec = P.rec.get(CF)
    ro = [x['n'] for x in rec['fs'] if x['t'] == 'b' and 'eadOnly' in x['n']] if rec else []
    if len(ro) != 1:
        raise Broken('the read-only member of CheckedFile was not found')
    ro = ro[0]
    modes = {x['n']: int(x['v']) for x in P.enum.get(CF + '::Mode', {'es': []})['es']}
    if 'Read' not in modes:
        raise Broken('CheckedFile::Mode::Read not found')
    this = ('this', CF, False)
    for f in P.some(CF + '::CheckedFile'):
        args = []
        isbuf = True
        for p in f['ps']:
            if p['t'] == 'E:' + CF + '::Mode':
                args.append(C(modes['Read']))
                isbuf = False
            elif p['t'].startswith('&'):
                args.append(('refto', ('at', ('sym', 'ref:' + p['n']))))
            else:
                args.append(('sym', 'arg:' + p['n']))
        r = ReadOnly(c, short(f))
        I, outs = outcomes(P, r, f, this=this, args=args)
        c.used(I.stats['fns'])
        for n, name, vs, path in r.opens:
            c.instance('open-flags', short(f))
            fl_ = vs[1] if len(vs) > 1 else None
            if name in ('open', 'open64') and fl_ is not None and fl_[0] == 'c':
                if fl_[1] & O_ACCMODE or fl_[1] & (O_CREAT | O_TRUNC | O_APPEND):
                    c.report('open-flags', short(f), node_where(P, n), 'a file to be read is opened with flags 0%o: not '
                             'read-only, or creating or truncating it' % fl_[1], path)
            elif name.startswith(('fopen', 'freopen')) and fl_ is not None and fl_[0] == 's':
                if fl_[1] not in ('r', 'rb'):
                    c.report('open-flags', short(f), node_where(P, n), 'a file to be read is opened in mode %r' % fl_[1], path)
            else:
                c.report('open-flags', short(f), node_where(P, n), 'a file to be read is not opened read-only', path)
        c.instance('read-only-set', short(f))
        for o in outs:
            if o.kind == 'return' and I.load(o.st, ('fld', ('at', this), ro)) != C1:
                c.report('read-only-set', short(f), P.where(f), 'the read-only member is not set when a file is opened for reading')
    for f in cf_methods(P):
        if f['kind'] == 'ctor' or f['n'] in ('open64', 'unlink'):
            continue
        w = f['n'] in ('write', 'extend') or f['n'] == 'operator<<'
        r = ReadOnly(c, short(f))
        if 'hysical' in f['n'] and 'rite' in f['n']:
            continue             # only reached through the public ones, which are analysed with it in place
        I, outs = outcomes(P, r, f, this=this, st=State(heap={('fld', ('at', this), ro): C1}))
        c.used(I.stats['fns'])
        c.instance('read-only-file', short(f))
        if w:
            for o in outs:
                if o.kind == 'return':
                    c.report('read-only-refused', short(f), P.where(f), '%s completes normally on a read-only file' % f['qn'])
                elif o.code != 'ErrorFileReadOnly':
                    c.report('read-only-refused', short(f), throw_line(P, o), '%s on a read-only file raises %s instead of '
                             'ErrorFileReadOnly' % (f['qn'], o.code))
    # the image layer
    irec = P.rec.get('e57::ImageFileImpl')
    wr = [x['n'] for x in irec['fs'] if x['t'] == 'b' and 'riter' in x['n']] if irec else []
    if len(wr) != 1:
        raise Broken('the writer member of ImageFileImpl was not found')
    wr = wr[0]
    it = ('this', 'e57::ImageFileImpl', True)

    def image(c, fid):
        f = P.fn[fid]
        r = ReadOnlyImage(c, short(f), wr, ro)
        I, outs = outcomes(P, r, f, this=it, noinline=('e57::ImageFileImpl::pathNameParse',))
        c.used(I.stats['fns'])
        c.instance('read-only-image', short(f))
    c.each([f['id'] for f in P.project_fns() if f.get('cls') == 'e57::ImageFileImpl' and not f.get('static') and
            f['kind'] != 'ctor' and f['n'] != 'construct2'], image)
    for f in P.fns('e57::ImageFileImpl::construct2'):
        args = [('s', 'r') if p['n'] == 'mode' else
                (('refto', ('at', ('sym', 'ref:' + p['n']))) if p['t'].startswith('&') else ('sym', 'arg:' + p['n']))
                for p in f['ps']]
        r = Construct(c, modes['Read'])
        I, outs = outcomes(P, r, f, this=it, args=args, maxdepth=3)
        c.used(I.stats['fns'])
        for what, ok, w, path in r.seen:
            c.instance('construct-read', '%s %s' % (short(f), what))
            if not ok:
                c.report('construct-read', short(f), w, 'an image opened with mode "r" opens its file for writing', path)
        for o in outs:
            if o.kind == 'return' and I.load(o.st, ('fld', ('at', it), wr)) != C0:
                c.report('construct-read', short(f), P.where(f), 'an image opened for reading is marked as a writer')
    # documented refusals
    def documented(c, fid):
        f = P.fn[fid]
        codes = P.doc_throws(f)
        r = ReadOnlyImage(c, short(f), wr, ro)
        I, outs = outcomes(P, r, f, maxdepth=16, noinline=NOPARSE)
        c.used(I.stats['fns'])
        c.instance('read-only-documented', short(f))
        for o in outs:
            if o.kind == 'return':
                c.report('read-only-documented', short(f), P.where(f), '%s can complete normally on an image opened for '
                         'reading instead of raising ErrorFileReadOnly' % f['qn'])
            elif o.code != 'ErrorFileReadOnly' and o.code not in codes:
                c.report('read-only-documented', short(f), throw_line(P, o), '%s on an image opened for reading raises %s '
                         'instead of ErrorFileReadOnly' % (f['qn'], o.code))
        if not any(o.code == 'ErrorFileReadOnly' or o.kind == 'return' for o in outs):
            c.report('read-only-documented', short(f), P.where(f), '%s on an image opened for reading never raises '
                     'ErrorFileReadOnly' % f['qn'])
    c.each([f['id'] for f in P.project_fns() if 'ErrorFileReadOnly' in P.doc_throws(f) and f['kind'] != 'dtor'], documented)
    c.floor('open-flags', 1)
    c.floor('read-only-image', 8)
    c.floor('read-only-documented', 1)


NOPARSE = ('e57::ImageFileImpl::pathNameParse', 'e57::ImageFileImpl::elementNameParse',
           'e57::ImageFileImpl::checkElementNameLegal', 'e57::ImageFileImpl::pathNameUnparse')


class ReadOnlyImage(ReadOnly):
    def __init__(self, c, what, wr, ro):
        super().__init__(c, what)
        self.wr, self.ro = wr, ro

    def on_load(self, I, st, loc, n):
        if loc[0] == 'fld' and loc[2] == self.wr and st.heap.get(loc) is None:
            st = st.cp()
            st.heap[loc] = C0
        if loc[0] == 'fld' and loc[2] == self.ro and st.heap.get(loc) is None:
            st = st.cp()
            st.heap[loc] = C1
        return st

    def expand(self, I, node):
        return True


class Construct(Rule):
    def __init__(self, c, read):
        self.c, self.read, self.seen = c, read, []

    def inline(self, I, fn, node):
        return fn['file'].endswith('ImageFileImpl.cpp') and fn['n'] != 'readFileHeader'

    def on_call(self, I, st, n, qn, obj, vs):
        if qn == CF + '::CheckedFile':
            f = I.P.fn.get(n.get('id'))
            ok = True
            if f is not None and not I.silent:
                for p, v in zip(f['ps'], vs):
                    if p['t'] == 'E:' + CF + '::Mode':
                        ok = I.val_of(st, v) == C(self.read)
                self.seen.append((short(f), ok, node_where(I.P, n), I.path()))
            return [(st, None)]
        return None
