"""Abstract interpreter over the exported syntax trees.

Domain: value numbers (terms) for every location, a conjunction of facts about them, and a
set of tags (typestate) that rules attach.  Control-flow joins merge states that carry the
same tags (property simulation); loops run to a fixpoint with widening to join terms; calls
to project functions are analysed in place, everything else is an opaque transformer with a
modification summary.  No path is enumerated to the end and no solver is involved.
"""
import math
import re
import struct

from .terms import *
from .facts import walk, children, Broken

MAXSTATES = 12


class State:
    __slots__ = ('heap', 'ep', 'facts', 'tags', 'live')

    def __init__(self, heap=None, ep=None, facts=frozenset(), tags=frozenset(), live=()):
        self.heap = heap if heap is not None else {}
        self.ep = ep if ep is not None else {}
        self.facts = facts
        self.tags = tags
        self.live = live

    def cp(self):
        return State(dict(self.heap), dict(self.ep), self.facts, self.tags, self.live)

    def tag(self, *ts):
        s = State(self.heap, self.ep, self.facts, self.tags | frozenset(ts), self.live)
        return s

    def untag(self, *ts):
        return State(self.heap, self.ep, self.facts, self.tags - frozenset(ts), self.live)

    def untag_if(self, pred):
        return State(self.heap, self.ep, self.facts, frozenset(t for t in self.tags if not pred(t)), self.live)

    def assume(self, cond):
        fs = fact_norm(cond)
        new = [f for f in fs if f not in self.facts]
        if not new:
            return self
        return State(self.heap, self.ep, self.facts | frozenset(new), self.tags, self.live)

    def ent(self, goal):
        return entails(self.facts, goal)

    def same(self, o):
        return self.heap == o.heap and self.ep == o.ep and self.facts == o.facts and self.tags == o.tags and self.live == o.live


class Rule:
    """base class for analyses; override what you need"""

    def on_call(self, I, st, node, qn, obj, args):
        """return None for default treatment, or a list of (state, value)"""
        return None

    def after_call(self, I, st, node, qn, obj, args, val):
        """after an opaque call; return the (possibly tagged) state"""
        return st

    def on_store(self, I, st, loc, val, node):
        return st

    def on_load(self, I, st, loc, node):
        return st

    def on_out(self, I, st, node, i):
        """the value a library function leaves in its argument i, where known"""
        return None

    def on_throw(self, I, st, node, code):
        return st

    def on_cast(self, I, st, node, val):
        return None

    def on_return(self, I, st, node, fn, val):
        return st

    def on_delete(self, I, st, node, val):
        return st

    def on_own(self, I, st, node, val):
        """a smart pointer takes a raw pointer over"""
        return st

    def on_disown(self, I, st, node, val):
        """a smart pointer gives its object up"""
        return st

    def on_new(self, I, st, node, val):
        return st

    def on_enter(self, I, st, fn, node, args):
        return st

    def on_exit(self, I, st, fn, node, val):
        return st

    def on_arith(self, I, st, node, op, a, b):
        return None

    def on_deref(self, I, st, node, ptr):
        return None

    def on_branch(self, I, st, node, cond):
        return None

    def decide(self, I, st, node, cond):
        """the assumed outcome of a condition that is open (None: either)"""
        return None

    def on_assume(self, I, st, node, cond):
        """a branch has just been taken under `cond`"""
        return st

    def opaque_throws(self, I, st, node, qn):
        return False

    def inline(self, I, fn, node):
        return True

    def initial(self, I, loc, ep):
        """what a location not written so far is assumed to hold (None: anything)"""
        return None

    recursion = 0    # how often a function may be entered again while it is being analysed

    texts = False    # follow strings character by character and lists element by element where they are known

    unroll = 0          # loops whose conditions are decided are followed for up to this many rounds
    fork = False        # ... and also those whose conditions are open, as long as they end within that number of rounds

    def elements(self, I, st, loc, ty):
        """how many elements the container at loc is assumed to have (None: any number)"""
        return None

    def expand(self, I, node):
        """analyse every overrider of a virtual call whose receiver class is unknown"""
        return False


PURE = {'std::min', 'std::max', 'std::abs', 'std::isnan', 'std::isfinite', 'std::floor', 'std::ceil', 'std::round',
        'floor', 'ceil', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'std::numeric_limits', 'toString', 'e57::hexString',
        'e57::binaryString', 'e57::space', 'std::tie', 'std::make_pair', 'std::to_string', 'std::move', 'std::forward',
        'fabs', 'sqrt', 'pow', 'std::pow', 'isnan', 'isinf', 'std::isinf', 'strerror', 'std::strerror', 'std::distance',
        'std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', '__errno_location'}
PTRLIKE = ('R:std::shared_ptr', 'R:std::__shared_ptr', 'R:std::weak_ptr', 'R:std::unique_ptr', 'R:std::__weak_ptr',
           'R:std::__shared_ptr_access')
READONLY_METHODS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'c_str', 'size', 'length', 'empty',
                    'front', 'back', 'at', 'find', 'count', 'get', 'lock', 'expired', 'top', 'str', 'use_count',
                    'shared_from_this', 'weak_from_this', 'rdbuf', 'getloc', 'capacity', 'native'}
ALGORITHMS = {'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if', 'std::for_each'}
def parts(v):
    """characters of a known text or elements of a known list"""
    if v is not None and v[0] in ('txt', 'vec'):
        return v[1:]
    if v is not None and v[0] == 's' and all(ord(x) < 128 for x in v[1]):
        return tuple(C(ord(x)) for x in v[1])
    return None


def text(es):
    es = tuple(es)
    if all(x[0] == 'c' for x in es):
        return ('s', ''.join(chr(x[1] & 255) for x in es))
    return ('txt',) + es


def text_eq(a, b):
    """equality of two known texts as a term"""
    a, b = parts(a), parts(b)
    if len(a) != len(b):
        return C0
    r = C1
    for x, y in zip(a, b):
        e = cmp_('==', x, y)
        if truth(e) is False:
            return C0
        if truth(e) is not True:
            r = e if r == C1 else ('and', r, e)
    return r


NPOS = C(2 ** 64 - 1)


def search(name, s, w, pos):
    """the search methods of a string on known texts (-1: not found)"""
    back = name == 'rfind' or 'last' in name
    if name in ('find', 'rfind'):
        hit = lambda i: s.startswith(w, i)
    else:
        hit = lambda i: i < len(s) and (s[i] in w) != name.endswith('not_of')
    if back:
        idx = range(min(len(s), len(s) if pos is None else pos), -1, -1)
    else:
        idx = range(pos or 0, len(s) + 1)
    return next((i for i in idx if hit(i)), -1)


REF_METHODS = {'front', 'back', 'at', 'top'}


def to_single(x):
    """x rounded to single precision"""
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def strip_tmpl(q):
    out, d = [], 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def is_ptrlike(t):
    t = t.lstrip('&')
    return t.startswith(PTRLIKE)


def root(loc):
    while loc[0] in ('fld', 'idx'):
        loc = loc[1]
    return loc


class Interp:
    def __init__(self, P, rule, maxdepth=24, noinline=(), name='', base=0):
        self.P = P
        self.base = base         # first context number, so that objects of several runs can be told apart
        self.rule = rule
        self.maxdepth = maxdepth
        self.noinline = set(noinline)
        self.silent = 0
        self.stack = []          # (fn id, ctx, this, node)
        self.ctxs = {}
        self.coll = []           # exception collectors
        self.excinfo = []        # current exception in handlers
        self.scopes = 0
        self.modsets = ModSets.of(P)
        self.steps = 0
        self.maxsteps = 2500000
        self.stats = {'inlined': 0, 'opaque': 0, 'loops': 0, 'branches': 0, 'fns': set()}
        self.lamnodes = {}
        self.trace = False

    # ------------------------------------------------------------------ context
    def ctx(self):
        return self.stack[-1][1]

    def newctx(self, node):
        key = (self.stack[-1][1] if self.stack else 0, node['nid'] if node else None)
        return self.ctxs.setdefault(key, len(self.ctxs) + 2 + self.base)

    def site(self, node):
        return (node['nid'], self.ctx())

    def path(self):
        """call chain for reports"""
        out = []
        for fid, _, _, node in self.stack:
            f = self.P.fn[fid]
            out.append('%s%s' % (f['qn'], '' if node is None else ' (called at line %d)' % node['l']))
        return out

    def cur(self):
        return self.P.fn[self.stack[-1][0]]

    # ------------------------------------------------------------------ fresh values
    def fresh(self, st, node, kind='v', extra=(), ty=None):
        t = (kind, self.site(node)) + tuple(extra)
        st = self.retire(st, t)
        if ty:
            TYPES[t] = ty
        return st, t

    def retire(self, st, t):
        """an old value of the same name becomes ('old', t)"""
        hit_h = [k for k, v in st.heap.items() if t in subterms(v) or t in subterms(k)]
        hit_f = [f for f in st.facts if t in subterms(f)]
        if not hit_h and not hit_f:
            return st
        o = ('old', t)
        if t in TYPES:
            TYPES[o] = TYPES[t]
        facts = set()
        for f in st.facts:
            if o in subterms(f):
                continue
            facts.add(subst1(f, t, o))
        heap = {}
        for k, v in st.heap.items():
            if o in subterms(k):
                continue
            v2 = subst1(v, o, ('older', t)) if o in subterms(v) else v
            heap[subst1(k, t, o)] = subst1(v2, t, o)
        return State(heap, st.ep, frozenset(facts), st.tags, st.live)

    # ------------------------------------------------------------------ memory
    def epoch(self, st, loc):
        if loc[0] == 'fld':
            return st.ep.get(loc[2]) or self.epoch_root(st, loc)
        return self.epoch_root(st, loc)

    def epoch_root(self, st, loc):
        r = root(loc)
        return st.ep.get(r)

    def load(self, st, loc, ty=None, node=None):
        v = st.heap.get(loc)
        if v is None:
            if loc[0] == 'gvar':
                g = self.P.gvar.get(loc[1])
                if g and g.get('const') and g.get('i'):
                    if 'cv' in g['i']:
                        return C(int(g['i']['cv']))
                    if 'cf' in g['i']:
                        return ('fc', float(g['i']['cf']))
                    if g['i']['k'] == 'str':
                        return ('s', g['i'].get('v', ''))
            # inherited from an enclosing object?
            if loc[0] in ('fld', 'idx'):
                b = loc[1]
                suffix = [loc]
                while True:
                    pv = st.heap.get(b)
                    if pv is not None:
                        if pv[0] == 'objval':
                            nl = pv[1]
                            for x in reversed(suffix):
                                nl = (x[0], nl, x[2])
                            return self.load(st, nl, ty)
                        if pv[0] in ('txt', 's', 'vec') and loc[0] == 'idx' and loc[1] == b and loc[2][0] == 'c' and self.rule.texts:
                            es = parts(pv)
                            if es is not None and 0 <= loc[2][1] < len(es):
                                return es[loc[2][1]]
                            if es is not None and loc[2][1] == len(es) and pv[0] != 'vec':
                                return C0
                            break
                        if pv[0] in ('mem', 'zeroinit'):
                            if pv[0] == 'zeroinit':
                                return C0
                            t = self.rule.initial(self, loc, pv)
                            if t is not None:
                                return t
                            t = ('ld', loc, pv)
                            if ty:
                                TYPES[t] = ty
                            return t
                        break
                    if b[0] in ('fld', 'idx'):
                        suffix.append(b)
                        b = b[1]
                    else:
                        break
            ep = self.epoch(st, loc)
            t = self.rule.initial(self, loc, ep)
            if t is not None:
                return t
            t = ('ld', loc, ep)
            if ty:
                TYPES[t] = ty
            return t
        if v[0] == 'refto':
            return self.load(st, v[1], ty)
        return v

    def store(self, st, loc, val, node=None):
        st = st.cp()
        h = st.heap
        for k in [k for k in h if self.may_overlap(k, loc)]:
            if k != loc:
                del h[k]
        if loc[0] == 'fld' and root(loc)[0] == 'at':
            # other objects' fields of the same name may be the same object
            pass
        h[loc] = val
        if node is not None:
            st = self.rule.on_store(self, st, loc, val, node)
        return st

    def may_overlap(self, k, loc):
        """may a store to `loc` change what is recorded for `k`?"""
        if k == loc:
            return True
        # k inside loc
        b = k
        while b[0] in ('fld', 'idx'):
            b = b[1]
            if b == loc:
                return True
        if k[0] == 'fld' and loc[0] == 'fld' and k[2] == loc[2]:
            rk, rl = root(k), root(loc)
            if rk == rl and k[1][0] != 'idx' and loc[1][0] != 'idx':
                return False if k[1] != loc[1] else True
            loc_known = rl[0] in ('var', 'new', 'tmp')
            k_known = rk[0] in ('var', 'new', 'tmp')
            if loc_known and k_known:
                return rk == rl
            if rk[0] == 'var' or rl[0] == 'var' or rk[0] == 'tmp' or rl[0] == 'tmp':
                return False
            if rk[0] == 'at' and rl[0] == 'at' and rk[1][0] == 'this' and rl[1][0] == 'this':
                return rk == rl
            if rk[0] == 'at' and rl[0] == 'at' and rk[1][0] == 'new' and rl[1][0] == 'new':
                return rk == rl         # made at different places
            return True
        if k[0] == 'idx' and loc[0] == 'idx':
            if k[1] == loc[1]:
                a, b = k[2], loc[2]
                if a[0] == 'c' and b[0] == 'c':
                    return a == b
                la, lb = lin(a), lin(b)
                d = lin_add(la, lb, -1)
                if not d[1] and d[0] != 0:
                    return False
                return True
        if k[0] == 'at' and loc[0] == 'at':
            return k[1] == loc[1]
        return False

    def kill(self, st, loc, why):
        """contents of loc become unknown"""
        st = self.retire(st, ('mem', why)).cp()
        for k in [k for k in st.heap if self.may_overlap(k, loc)]:
            del st.heap[k]
        st.heap[loc] = ('mem', why)
        return st

    def kill_field(self, st, name, why):
        if st.ep.get(name) == why:
            st = self.retire(st, why)
        st = st.cp()
        for k in list(st.heap):
            b = k
            hit = False
            while b[0] in ('fld', 'idx'):
                if b[0] == 'fld' and b[2] == name:
                    hit = True
                    break
                b = b[1]
            if hit and root(k)[0] not in ('var', 'tmp'):
                del st.heap[k]
        st.ep[name] = why
        return st

    def copy_obj(self, st, dst, src):
        if dst == src:
            return st
        st = st.cp()
        h = st.heap
        for k in [k for k in h if self.may_overlap(k, dst)]:
            del h[k]

        def inside(k):
            b = k
            while b[0] in ('fld', 'idx'):
                b = b[1]
                if b == src:
                    return True
            return False

        def rebase(k):
            if k == src:
                return dst
            return (k[0], rebase(k[1]), k[2])
        add = {}
        for k, v in h.items():
            if inside(k):
                add[rebase(k)] = v
        pv = h.get(src)
        h.update(add)
        if pv is not None and pv[0] in ('objval', 'mem', 'zeroinit'):
            h[dst] = pv
        else:
            h[dst] = ('objval', src)
        return st

    # ------------------------------------------------------------------ merging
    def merge2(self, a, b, site, cond=None):
        heap = {}
        ka, kb = a.heap, b.heap
        for k in ka.keys() | kb.keys():
            va, vb = ka.get(k), kb.get(k)
            if va == vb:
                heap[k] = va
                continue
            if va is not None and vb is not None and (va[0] in ('refto',) or vb[0] in ('refto',)):
                heap[k] = va
                continue
            if va is None:
                va = self.load(a, k)
            if vb is None:
                vb = self.load(b, k)
            if va == vb:
                heap[k] = va
                continue
            if va[0] in ('objval', 'mem', 'zeroinit') or vb[0] in ('objval', 'mem', 'zeroinit'):
                heap[k] = ('mem', ('join', site, k))
                continue
            if cond is not None and size(va) + size(vb) + size(cond) < 120:
                heap[k] = ite(cond, va, vb)
                ta = TYPES.get(va) or TYPES.get(vb)
                if ta:
                    TYPES[heap[k]] = ta
            else:
                t = ('phi', site, k)
                if va == t or vb == t:
                    pass
                ta = TYPES.get(va) or TYPES.get(vb)
                if ta:
                    TYPES[t] = ta
                heap[k] = t
        ep = dict(a.ep)
        for k in set(a.ep) | set(b.ep):
            if a.ep.get(k) != b.ep.get(k):
                ep[k] = ('j', site, k)
        facts = set(a.facts & b.facts)
        for x, y in ((a.facts - b.facts, b), (b.facts - a.facts, a)):
            for f in x:
                if quick(y.facts, f):
                    facts.add(f)
        phis = set(v for v in heap.values() if (v[0] == 'phi' and v[1] == site) or
                   (v[0] == 'mem' and v[1][0] == 'join' and v[1][1] == site))
        if phis:
            facts = set(f for f in facts if not (subterms(f) & phis))
            for k, v in list(heap.items()):
                if v not in phis and v[0] not in ('refto', 'objval'):
                    for t in subterms(v) & phis:
                        v = heap[k] = subst1(v, t, ('old', t))
            # interval hull for freshly joined values
            for k, t in heap.items():
                if t in phis:
                    va = ka.get(k) or self.load(a, k)
                    vb = kb.get(k) or self.load(b, k)
                    for f in hull(a.facts, va, b.facts, vb, t):
                        facts.add(f)
        live = a.live if len(a.live) <= len(b.live) else b.live
        return State(heap, ep, frozenset(facts), a.tags & b.tags if a.tags != b.tags else a.tags, live)

    def merge(self, sts, site, cond=None):
        """merge states with equal tags; cap the number of partitions"""
        if len(sts) <= 1:
            return list(sts)
        groups = {}
        for s in sts:
            key = (s.tags, s.live)
            if key in groups:
                g = groups[key]
                if not g.same(s):
                    groups[key] = self.merge2(g, s, site, cond if len(sts) == 2 else None)
            else:
                groups[key] = s
        out = list(groups.values())
        while len(out) > MAXSTATES:
            b = out.pop()
            out[-1] = self.merge2(out[-1], b, site)
        return out

    def merge_vals(self, outs, node):
        """merge (state, value) results with equal tags; values keep apart when constant"""
        if len(outs) <= 1:
            return outs
        groups = {}
        for s, v in outs:
            key = (s.tags, s.live, v if (v is not None and v[0] in ('c', 's')) else '*')
            groups.setdefault(key, []).append((s, v))
        res = []
        site = self.site(node)
        for key, lst in groups.items():
            s, v = lst[0]
            for s2, v2 in lst[1:]:
                if v == v2:
                    s = s if s.same(s2) else self.merge2(s, s2, site)
                else:
                    slot = ('tmp', 'ret', site)
                    s = State({**s.heap, slot: v}, s.ep, s.facts, s.tags, s.live) if v is not None else s
                    s2 = State({**s2.heap, slot: v2}, s2.ep, s2.facts, s2.tags, s2.live) if v2 is not None else s2
                    s = self.merge2(s, s2, site)
                    if v is not None:
                        v = s.heap.pop(slot, v)
            res.append((s, v))
        if len(res) > MAXSTATES:
            res = res[:MAXSTATES - 1] + self._collapse(res[MAXSTATES - 1:], site)
        return res

    def _collapse(self, lst, site):
        s, v = lst[0]
        for s2, v2 in lst[1:]:
            s = self.merge2(s, s2, site)
            if v != v2:
                v = ('v', site, 'collapsed')
        return [(s, v)]

    # ------------------------------------------------------------------ branching
    def branch(self, n, st):
        """evaluate a condition: (states where true, states where false)"""
        k = n['k']
        if 'cv' in n and k != 'call':
            return ([st], []) if int(n['cv']) else ([], [st])
        if k == 'un' and n['op'] == '!':
            t, f = self.branch(n['a'], st)
            return f, t
        if k == 'bin' and n['op'] == '&&':
            t, f = self.branch(n['a'], st)
            T, F = [], list(f)
            for s in t:
                a, b = self.branch(n['b'], s)
                T += a
                F += b
            return self.merge(T, self.site(n)), self.merge_or(F, n)
        if k == 'bin' and n['op'] == '||':
            t, f = self.branch(n['a'], st)
            T, F = list(t), []
            for s in f:
                a, b = self.branch(n['b'], s)
                T += a
                F += b
            return self.merge_or(T, n), self.merge(F, self.site(n))
        if k == 'cast' and n['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'UserDefinedConversion'):
            return self.branch_term([(s, v) for s, v in self.ev(n['a'], st)], n)
        return self.branch_term(self.ev(n, st), n)

    def merge_or(self, sts, n):
        """join of the alternatives of a disjunction, keeping the disjunction as a fact"""
        if len(sts) == 2 and sts[0].tags == sts[1].tags and sts[0].live == sts[1].live:
            a, b = sts
            da = a.facts - b.facts
            db = b.facts - a.facts
            m = self.merge(sts, self.site(n))
            if len(m) == 1 and 0 < len(da) <= 3 and 0 < len(db) <= 4:
                def conj(fs):
                    r = None
                    for f in sorted(fs, key=repr):
                        f = fact_term(f)
                        r = f if r is None else ('and', r, f)
                    return r
                m[0] = m[0].assume(('or', conj(da), conj(db)))
            return m
        return self.merge(sts, self.site(n))

    def branch_term(self, outs, n):
        T, F = [], []
        self.stats['branches'] += 1
        for s, v in outs:
            tv = truth(v)
            if tv is None:
                self.rule.on_branch(self, s, n, v)
                if s.ent(v):
                    tv = True
                elif s.ent(neg(v)):
                    tv = False
                else:
                    tv = self.rule.decide(self, s, n, v)
            if tv is True:
                T.append(s)
            elif tv is False:
                F.append(s)
            else:
                T.append(self.rule.on_assume(self, s.assume(v), n, v))
                F.append(self.rule.on_assume(self, s.assume(neg(v)), n, neg(v)))
        return T, F

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        """rvalue evaluation -> [(state, value)]"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Broken('analysis budget exceeded')
        if n is None:
            return [(st, None)]
        if 'cv' in n:
            return [(st, C(int(n['cv'])))]
        if 'cf' in n:
            try:
                return [(st, ('fc', float(n['cf'])))]
            except ValueError:
                pass
        m = getattr(self, 'ev_' + n['k'], None)
        if m is None:
            return self.ev_opaque(n, st)
        return m(n, st)

    def evs(self, ns, st):
        """evaluate a list -> [(state, [values])]"""
        outs = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev_int(self, n, st):
        return [(st, ('v', 'int', n['nid']))]

    def ev_float(self, n, st):
        return [(st, ('v', 'flt', n['nid']))]

    def ev_enum(self, n, st):
        return [(st, ('sym', n['qn']))]

    def ev_str(self, n, st):
        return [(st, ('s', n.get('v', '')))]

    def ev_null(self, n, st):
        return [(st, C0)]

    def ev_zero(self, n, st):
        if is_float_t(n['t']):
            return [(st, ('fc', 0.0))]
        return [(st, C0)]

    def ev_fref(self, n, st):
        return [(st, ('fn', n['id']))]

    def ev_this(self, n, st):
        return [(st, self.stack[-1][2])]

    def ev_lambda(self, n, st):
        t = ('lam', n['nid'], self.ctx())
        self.lamnodes[n['nid']] = n
        return [(st, t)]

    def isrec(self, t):
        return t.startswith('R:') and (t[2:] in self.P.rec)

    def rval(self, st, loc, n):
        """value of a location for an expression of type n['t']"""
        t = n['t']
        st = self.rule.on_load(self, st, loc, n)
        if t.startswith('A'):
            return st, ('addr', loc)
        if self.isrec(t):
            v = st.heap.get(loc)
            if v is not None and v[0] == 'refto':
                loc = v[1]
            return st, ('rec', loc)
        return st, self.load(st, loc, t, n)

    def ev_ref(self, n, st):
        out = []
        for s, loc in self.lv(n, st):
            out.append(self.rval(s, loc, n))
        return out

    ev_mem = ev_ref
    ev_idx = ev_ref

    def lv(self, n, st):
        """lvalue evaluation -> [(state, location)]"""
        k = n['k']
        if k == 'ref':
            if n.get('g'):
                return [(st, ('gvar', n.get('qn', n['n'])))]
            loc = self.varloc(n['id'])
            v = st.heap.get(loc)
            if v is not None and v[0] == 'refto':
                return [(st, v[1])]
            return [(st, loc)]
        if k == 'mem':
            outs = []
            if n.get('arrow'):
                for s, v in self.ev(n['b'], st):
                    self.rule.on_deref(self, s, n, v)
                    outs.append((s, ('fld', self.deref(v), n['n'])))
            else:
                for s, l in self.lv_or_tmp(n['b'], st):
                    outs.append((s, ('fld', l, n['n'])))
            res = []
            for s, l in outs:
                v = s.heap.get(l)
                if v is not None and v[0] == 'refto':
                    l = v[1]
                res.append((s, l))
            return res
        if k == 'un' and n['op'] == '*':
            out = []
            for s, v in self.ev(n['a'], st):
                self.rule.on_deref(self, s, n, v)
                out.append((s, self.deref(v)))
            return out
        if k == 'un' and n['op'] in ('++', '--'):
            out = []
            for s, v in self.ev(n, st):
                for s2, l in self.lv(n['a'], s):
                    out.append((s2, l))
            return out
        if k == 'idx':
            out = []
            a, b = n['a'], n['b']
            if a['t'].startswith(('i', 'u')) and not a['t'].startswith('A'):
                a, b = b, a
            for s, p in self.ev(a, st):
                for s2, i in self.ev(b, s):
                    self.rule.on_deref(self, s2, n, arith('+', p, i))
                    if p[0] == 'addr':
                        out.append((s2, ('idx', p[1], i)))
                    else:
                        out.append((s2, ('idx', ('at', p), i)))
            return out
        if k in ('asg', 'casg'):
            out = []
            for s, v in self.ev(n, st):
                out += self.lv(n['a'], s)
            return out
        if k == 'cond':
            t, f = self.branch(n['c'], st)
            out = []
            for s in t:
                out += self.lv_or_tmp(n['a'], s)
            for s in f:
                out += self.lv_or_tmp(n['b'], s)
            return out
        if k == 'cast':
            return self.lv_or_tmp(n['a'], st)
        if k == 'bin' and n['op'] == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out += self.lv_or_tmp(n['b'], s)
            return out
        if k in ('call', 'mcall', 'opcall'):
            out = []
            for s, v in self.call(n, st, want_loc=True):
                if v is not None and v[0] == 'refto':
                    out.append((s, v[1]))
                elif v is not None and v[0] == 'rec':
                    out.append((s, v[1]))
                else:
                    tl = ('tmp', self.site(n))
                    s = s.cp()
                    s.heap[tl] = v if v is not None else ('v', self.site(n))
                    out.append((s, tl))
            return out
        return self.lv_or_tmp(n, st, force=True)

    def lv_or_tmp(self, n, st, force=False):
        if n.get('lv') and not force and n['k'] not in ('str', 'ilist'):
            return self.lv(n, st)
        out = []
        for s, v in self.ev(n, st):
            if v is not None and v[0] == 'rec':
                out.append((s, v[1]))
            elif v is not None and v[0] == 'refto':
                out.append((s, v[1]))
            else:
                tl = ('tmp', self.site(n))
                s = s.cp()
                s.heap[tl] = v if v is not None else C0
                out.append((s, tl))
        return out

    def varloc(self, vid):
        # lambdas run in the frame that created them
        return ('var', self.stack[-1][1], vid)

    def deref(self, v):
        if v is None:
            return ('at', ('sym', 'none'))
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'it':
            return ('idx', v[1], v[2])
        if v[0] == 'op' and v[1] == '+' and len(v) == 4:
            return ('idx', self.deref(v[2]), v[3])
        return ('at', v)

    def addr(self, loc):
        if loc[0] == 'at':
            return loc[1]
        return ('addr', loc)

    def ev_un(self, n, st):
        op = n['op']
        if op == '&':
            out = []
            if n['a']['k'] == 'fref':
                return [(st, ('fn', n['a']['id']))]
            for s, l in self.lv(n['a'], st):
                if l[0] == 'idx':
                    out.append((s, ptr_add('+', self.addr(l[1]), l[2])))
                else:
                    out.append((s, self.addr(l)))
            return out
        if op == '*':
            out = []
            for s, l in self.lv(n, st):
                out.append(self.rval(s, l, n))
            return out
        if op == '!':
            return [(s, neg(as_bool(v))) for s, v in self.ev(n['a'], st)]
        if op == '-':
            out = []
            for s, v in self.ev(n['a'], st):
                if v[0] == 'fc':
                    out.append((s, ('fc', -v[1])))
                else:
                    out.append((s, arith('-', C0, v, n['t']) if v[0] == 'c' else ('neg', v)))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(n['a'], st):
                old = self.load(s, l, n['a']['t'])
                self.rule.on_arith(self, s, n, op[0], old, C1)
                new = ptr_add(op[0], old, C1) if n['a']['t'].startswith('*') else arith(op[0], old, C1)
                s = self.store(s, l, new, n)
                out.append((s, old if n.get('post') else new))
            return out
        if op == '~':
            return [(s, ('op', '~', v, C0) if v[0] != 'c' else C(wrap(~v[1], n['t']))) for s, v in self.ev(n['a'], st)]
        return self.ev(n['a'], st)

    def ev_bin(self, n, st):
        op = n['op']
        if op == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out += self.ev(n['b'], s)
            return out
        if op in ('&&', '||'):
            outs = []
            for s, a in self.ev(n['a'], st):
                a = as_bool(a)
                ta = truth(a)
                if ta is None:
                    ta = True if s.ent(a) else (False if s.ent(neg(a)) else None)
                if op == '&&' and ta is False:
                    outs.append((s, C0))
                    continue
                if op == '||' and ta is True:
                    outs.append((s, C1))
                    continue
                s1 = s if ta is not None else s.assume(a if op == '&&' else neg(a))
                rs = self.ev(n['b'], s1)
                simple = len(rs) == 1 and rs[0][0].heap == s.heap and rs[0][0].tags == s.tags
                if simple:
                    b = as_bool(rs[0][1])
                    if ta is not None:
                        outs.append((rs[0][0], b))
                    else:
                        tb = truth(b)
                        if tb is not None:
                            v = (a if tb else C0) if op == '&&' else (C1 if tb else a)
                        else:
                            v = ('and' if op == '&&' else 'or', a, b)
                        outs.append((s, v))
                else:
                    for s2, b in rs:
                        outs.append((s2, as_bool(b)))
                    if ta is None:
                        outs.append((s.assume(neg(a) if op == '&&' else a), C0 if op == '&&' else C1))
            return outs
        out = []
        F = is_float_t(n['a']['t']) or is_float_t(n['b']['t'])
        for s, a in self.ev(n['a'], st):
            for s2, b in self.ev(n['b'], s):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    out.append((s2, cmp_(op, a, b, F)))
                else:
                    self.rule.on_arith(self, s2, n, op, a, b)
                    if F:
                        if a[0] == 'fc' and b[0] == 'fc':
                            try:
                                r = {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1],
                                     '/': a[1] / b[1] if b[1] else None}.get(op)
                            except OverflowError:
                                r = None
                            if r is not None:
                                out.append((s2, ('fc', r)))
                                continue
                        out.append((s2, ('fop', op, a, b)))
                    elif n['t'].startswith('*'):
                        if not n['a']['t'].startswith(('*', 'A')):
                            a, b = b, a
                        out.append((s2, ptr_add(op, a, b)))
                    else:
                        out.append((s2, arith(op, a, b, n['t'] if n['t'] in INT else None)))
        return out

    def ev_asg(self, n, st):
        out = []
        for s, v in self.ev(n['b'], st):
            for s2, l in self.lv(n['a'], s):
                if v is not None and v[0] == 'rec':
                    s2 = self.copy_obj(s2, l, v[1])
                    s2 = self.rule.on_store(self, s2, l, v, n)
                else:
                    s2 = self.store(s2, l, v, n)
                out.append((s2, v))
        return out

    def ev_casg(self, n, st):
        out = []
        F = is_float_t(n['ct'])
        for s, v in self.ev(n['b'], st):
            for s2, l in self.lv(n['a'], s):
                old = self.load(s2, l, n['a']['t'])
                self.rule.on_arith(self, s2, n, n['op'], old, v)
                if n['t'].startswith('*'):
                    new = ptr_add(n['op'], old, v)
                elif F:
                    new = ('fop', n['op'], old, v)
                else:
                    new = arith(n['op'], old, v, n['t'] if n['t'] in INT else None)
                s2 = self.store(s2, l, new, n)
                out.append((s2, new))
        return out

    def ev_cond(self, n, st):
        cs = self.ev(n['c'], st)
        outs = []
        for s, c in cs:
            c = as_bool(c)
            T, F = self.branch_term([(s, c)], n['c'])
            ra, rb = [], []
            for x in T:
                ra += self.ev(n['a'], x)
            for x in F:
                rb += self.ev(n['b'], x)
            if len(ra) == 1 and len(rb) == 1 and ra[0][0].heap == rb[0][0].heap and ra[0][0].tags == rb[0][0].tags and \
                    ra[0][1] is not None and rb[0][1] is not None and ra[0][1][0] != 'rec':
                va, vb = ra[0][1], rb[0][1]
                outs.append((s if (ra[0][0].heap == s.heap) else self.merge2(ra[0][0], rb[0][0], self.site(n), c),
                             select(c, va, vb)))
            else:
                outs += ra + rb
        return outs

    def ev_cast(self, n, st):
        ck = n['ck']
        out = []
        for s, v in self.ev(n['a'], st):
            r = self.rule.on_cast(self, s, n, v)
            if r is not None:
                out.append((s, r))
                continue
            out.append((s, self.cast(ck, n['t'], n['ft'], v, s)))
        return out

    def cast(self, ck, t, ft, v, st=None):
        if v is None:
            return v
        if ck == 'IntegralCast':
            if v[0] == 'c':
                return C(wrap(v[1], t))
            rt, rf = INT.get(t), INT.get(ft)
            if rt and rf and rt[0] <= rf[0] and rf[1] <= rt[1]:
                return v
            if t.startswith('E:') or ft.startswith('E:') or ft == 'b':
                return v
            r = rng(v)
            if r and rt and rt[0] <= r[0] and r[1] <= rt[1]:
                return v
            if t == ft:
                return v
            if v[0] == 'cast' and v[2] == t and v[1] == ft and t[1:] == ft[1:]:
                return v[3]         # to the other signedness and back
            return ('cast', t, ft, v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return as_bool(v)
        if ck == 'FloatingToIntegral':
            r = INT.get(t)
            if v[0] == 'fc' and math.isfinite(v[1]) and (r is None or r[0] <= int(v[1]) <= r[1]):
                return C(int(v[1]))
            return ('f2i', t, v)
        if ck == 'IntegralToFloating':
            if v[0] == 'c':
                x = float(v[1])
                return ('fc', to_single(x) if t == 'f32' else x)
            return ('i2f', t, v)
        if ck == 'FloatingCast':
            if v[0] == 'fc':
                return ('fc', to_single(v[1])) if t == 'f32' else v
            if t == 'f64' and ft == 'f32':
                return v
            return ('f2f', t, v)
        return v

    def ev_ilist(self, n, st):
        t = n['t']
        if not t.startswith(('A', 'R:')) and len(n['as']) == 1:
            return self.ev(n['as'][0], st)
        if not n['as']:
            if self.isrec(t):
                loc = ('tmp', self.site(n))
                s = st.cp()
                s.heap[loc] = ('zeroinit',)
                return [(s, ('rec', loc))]
            return [(st, C0 if not is_float_t(t) else ('fc', 0.0))]
        loc = ('tmp', self.site(n))
        outs = []
        rec = self.P.rec.get(t[2:]) if t.startswith('R:') else None
        refs = {i for i, x in enumerate(rec['fs']) if x['t'].startswith('&')} if rec and len(rec['fs']) == len(n['as']) else ()
        pre = [(st, [])]
        for i, a in enumerate(n['as'] if refs else ()):
            pre = [(s2, vs + [('refto', v) if i in refs else v]) for s, vs in pre for s2, v in (self.lv_or_tmp(a, s) if i in refs else self.ev(a, s))]
        for s, vs in pre if refs else self.evs(n['as'], st):
            s = s.cp()
            for k in [k for k in s.heap if self.may_overlap(k, loc)]:
                del s.heap[k]
            for i, v in enumerate(vs):
                if v is None:
                    continue
                if rec and i < len(rec['fs']):
                    key = ('fld', loc, rec['fs'][i]['n'])
                else:
                    key = ('idx', loc, C(i))
                if v[0] == 'rec':
                    s = self.copy_obj(s, key, v[1])
                else:
                    s.heap[key] = v
            if not rec:
                s.heap[loc] = ('zeroinit',) if t.startswith('A') else ('mem', self.site(n))
            if rec or t.startswith('A'):
                outs.append((s, ('rec', loc)))
            else:
                outs.append((s, ('ilist', self.site(n)) + tuple(v for v in vs if v is not None)))
        return outs

    def ev_opaque(self, n, st):
        for c in n.get('as', []):
            r = self.ev(c, st)
            st = r[0][0]
        st, t = self.fresh(st, n, ty=n.get('t'))
        return [(st, t)]

    def ev_throw(self, n, st):
        if n.get('a') is None:
            info = self.excinfo[-1] if self.excinfo else {'code': None, 'cls': '?'}
            self.raise_(st, dict(info, node=n, re=True), n)
            return []
        code, cls = self.throw_code(n['a'])
        outs = self.ev(n['a'], st)
        for s, v in outs:
            if v is not None and v[0] == 'rec':
                e = s.heap.get(v[1])
                if e is not None and e[0] == 'exc':
                    code = e[1]
            s = self.rule.on_throw(self, s, n, code)
            self.raise_(s, {'code': code, 'cls': cls, 'node': n, 'fn': self.stack[-1][0]}, n)
        return []

    def throw_code(self, a):
        cls = a.get('t', '')
        code = None
        for x in walk(a):
            if x['k'] == 'enum' and x.get('t') == 'E:e57::ErrorCode':
                code = x['n']
                break
        return code, cls

    def raise_(self, st, info, n):
        if st is None:
            return
        if self.coll:
            self.coll[-1].append((st, info))

    # ------------------------------------------------------------------ new / delete
    def ev_new(self, n, st):
        outs = []
        t = n['at']
        pre = [(st, None)]
        if n.get('n'):
            pre = self.ev(n['n'], st)
        for s, cnt in pre:
            if self.rule.opaque_throws(self, s, n, 'operator new'):
                self.raise_(s, {'code': None, 'cls': 'R:std::bad_alloc', 'node': n, 'fn': self.stack[-1][0]}, n)
            v = ('new', t, self.site(n))
            s = self.retire(s, v)
            loc = ('new', t, self.site(n))
            i = n.get('i')
            res = [s]
            if i is not None:
                if i['k'] == 'ctor' and not n.get('arr'):
                    res = self.construct(i, s, ('at', v), t)
                else:
                    res = []
                    for s2, iv in self.ev(i, s):
                        s2 = s2.cp()
                        if n.get('arr'):
                            s2.heap[('at', v)] = ('zeroinit',)
                        elif iv is not None and iv[0] == 'rec':
                            s2 = self.copy_obj(s2, ('at', v), iv[1])
                        elif iv is not None:
                            s2.heap[('at', v)] = iv
                        res.append(s2)
            for s2 in res:
                self.newcount = cnt
                s2 = self.rule.on_new(self, s2, n, v)
                outs.append((s2, v))
        return outs

    def ev_delete(self, n, st):
        outs = []
        for s, v in self.ev(n['a'], st):
            s = self.rule.on_delete(self, s, n, v)
            pt = n.get('pt', '')
            res = [s]
            if pt.startswith('R:') and truth(v) is not False:
                d = self.dtor_of(pt[2:])
                if d and self.can_inline(d, n) and not (s.ent(cmp_('==', v, C0))):
                    res = [x for x, _ in self.call_fn(d, v, [], s, n)]
            outs += [(x, None) for x in res]
        return outs

    def dtor_of(self, cls):
        for f in self.P.fns(cls + '::~' + cls.split('::')[-1].split('<')[0]):
            return f
        short = strip_tmpl(cls).split('::')[-1]
        for f in self.P.fn.values():
            if f['kind'] == 'dtor' and f.get('cls') == cls:
                return f
        return None

    # ------------------------------------------------------------------ construction
    def ev_ctor(self, n, st):
        t = n['t']
        if is_ptrlike(t):
            if not n['as']:
                return [(st, C0)]
            outs = self.ev(n['as'][0], st)
            if n['as'][0]['t'].startswith('*'):
                outs = [(self.rule.on_own(self, s, n, v), v) for s, v in outs]
            return outs
        if not self.isrec(t):
            # opaque class (std:: etc.)
            if n.get('copy') and len(n['as']) == 1:
                return self.ev(n['as'][0], st)
            outs = []
            for s, vs in self.evs(n['as'], st):
                if t.startswith('R:std::__cxx11::basic_string') or t.startswith('R:std::basic_string'):
                    if not vs:
                        outs.append((s, ('s', '')))
                        continue
                    if vs[0] is not None and vs[0][0] == 'addr' and vs[0][1][0] == 'gvar' and n['as'][0]['t'][0] in 'A*':
                        g = self.P.gvar.get(vs[0][1][1])
                        if g and g.get('const') and g.get('i') and g['i']['k'] == 'str':
                            vs = [('s', g['i'].get('v', ''))] + vs[1:]
                    if vs[0] is not None and vs[0][0] == 's':
                        v = vs[0]
                        if len(vs) > 1 and vs[1] is not None and vs[1][0] == 'c' and n['as'][0]['t'][0] in 'A*':
                            v = ('s', v[1][:vs[1][1]])
                        outs.append((s, v))
                        continue
                    nonempty = [v for v in vs if v is not None]
                    outs.append((s, ('str',) + tuple(nonempty)))
                    continue
                if len(vs) == 1 and vs[0] is not None and vs[0][0] == 'it' and 'iterator' in t:
                    outs.append((s, vs[0]))
                    continue
                if self.rule.texts and not vs and t.startswith('R:std::vector<'):
                    outs.append((s, ('vec',)))
                    continue
                s, r = self.opaque_call(n, s, n['qn'], None, vs, True)
                outs.append((s, r))
            return outs
        loc = ('tmp', self.site(n))
        return [(s, ('rec', loc)) for s in self.construct(n, st, loc, t)]

    def construct(self, n, st, loc, t):
        """run constructor call `n` on storage `loc` -> [states]"""
        if is_ptrlike(t) or not self.isrec(t):
            outs = []
            for s, v in self.ev(n, st):
                s = s.cp()
                s.heap[loc] = v if v is not None else C0
                outs.append(s)
            return outs
        if t == 'R:e57::E57Exception':
            return self.construct_exc(n, st, loc)
        f = self.P.fn.get(n['id'])
        st = st.cp()
        for k in [k for k in st.heap if self.may_overlap(k, loc)]:
            del st.heap[k]
        if n.get('copy') and (f is None or f['imp']):
            outs = []
            for s, l in self.lv_or_tmp(n['as'][0], st):
                outs.append(self.copy_obj(s, loc, l))
            return outs
        if f is None:
            outs = []
            for s, vs in self.evs(n['as'], st):
                s = self.default_init(s, loc, t[2:], n)
                outs.append(s)
            return outs
        outs = []
        for s, vs in self.args_for(f, n['as'], st):
            r = self.rule.on_call(self, s, n, f['qn'], self.addr(loc), vs)
            if r is not None:
                outs += [x for x, _ in r]
                continue
            if not self.can_inline(f, n):
                s, _ = self.opaque_call(n, s, f['qn'], self.addr(loc), vs, False, f)
                outs.append(s)
                continue
            outs += [x for x, _ in self.call_fn(f, self.addr(loc), vs, s, n)]
        return outs

    def construct_exc(self, n, st, loc):
        """an exception object is represented by its error code"""
        outs = []
        if n['as'] and n['as'][0]['t'].lstrip('&') == 'R:e57::E57Exception':
            for s, l in self.lv_or_tmp(n['as'][0], st):
                s = s.cp()
                v = s.heap.get(l)
                s.heap[loc] = v if v is not None and v[0] == 'exc' else ('exc', None)
                outs.append(s)
            return outs
        for s, vs in self.evs(n['as'], st):
            for code in self.codes_of(self.val_of(s, vs[0]) if vs else None):
                x = s.cp()
                x.heap[loc] = ('exc', code)
                outs.append(x)
        return outs

    def codes_of(self, v):
        if v is not None and v[0] == 'c':
            return [self.P.enum_name('e57::ErrorCode', v[1])]
        if v is not None and v[0] == 'cast':
            return self.codes_of(v[3])
        if v is not None and v[0] == 'ite':
            return sorted(set(self.codes_of(v[2]) + self.codes_of(v[3])), key=str)
        return [None]

    def default_init(self, st, loc, cls, node):
        r = self.P.rec.get(cls)
        st = st.cp()
        st.heap[loc] = ('mem', ('ctor', self.site(node)))
        if r:
            for fd in r['fs']:
                if fd.get('i') is not None and 'cv' in fd['i']:
                    st.heap[('fld', loc, fd['n'])] = C(int(fd['i']['cv']))
        return st

    # ------------------------------------------------------------------ calls
    def args_for(self, f, argn, st):
        """evaluate arguments against the parameter types -> [(state, values)]; references
        become ('refto', location)"""
        outs = [(st, [])]
        for i, a in enumerate(argn):
            pt = f['ps'][i]['t'] if f is not None and i < len(f['ps']) else None
            nxt = []
            for s, vs in outs:
                if pt is not None and pt.startswith('&'):
                    for s2, l in self.lv_or_tmp(a, s):
                        nxt.append((s2, vs + [('refto', l)]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def val_of(self, st, v):
        """look through reference bindings"""
        if v is not None and v[0] == 'refto':
            return self.load(st, v[1])
        return v

    def can_inline(self, f, node):
        if f['qn'] in self.noinline or f['id'] in self.noinline:
            return False
        if strip_tmpl(f['qn']) in ('e57::toString', 'e57::hexString', 'e57::binaryString', 'e57::space', 'toString'):
            return False
        if f['n'] == 'dump' or f['qn'].startswith('e57::E57Exception::'):
            return False
        if sum(1 for x in self.stack if x[0] == f['id']) > self.rule.recursion:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        return self.rule.inline(self, f, node)

    def ev_call(self, n, st):
        return self.deref_results(n, self.call(n, st))

    ev_mcall = ev_call
    ev_opcall = ev_call

    def deref_results(self, n, outs):
        res = []
        for s, v in outs:
            if v is not None and v[0] == 'refto':
                s, v = self.rval(s, v[1], n)
            res.append((s, v))
        return res

    def targets(self, n, objv):
        """project functions a call may reach"""
        fid = n.get('id')
        if fid is None:
            return None, False
        f = self.P.fn.get(fid)
        if n['k'] == 'mcall' and n.get('virt'):
            cls = None
            if objv is not None and objv[0] == 'new':
                cls = objv[1][2:]
            if objv is not None and objv[0] == 'this' and len(objv) > 2 and objv[2]:
                cls = objv[1]
            if cls:
                g = self.resolve(fid, cls)
                if g:
                    return g, True
            ov = [self.P.fn[x] for x in self.P.overriders(fid) if x in self.P.fn]
            allc = ([f] if f else []) + ov
            if len(allc) == 1:
                return allc[0], True
            return None, True
        return f, f is not None

    def resolve(self, fid, cls):
        """the implementation of virtual method fid in class cls"""
        cand = {fid} | set(self.P.overriders(fid))
        order = [cls] + self.P.bases(cls)
        for c in order:
            for x in cand:
                f = self.P.fn.get(x)
                if f and f.get('cls') == c:
                    return f
        return None

    def call(self, n, st, want_loc=False):
        k = n['k']
        qn = n.get('qn', '?')
        if k == 'mcall':
            outs = []
            objn = n.get('o')
            if objn is None:
                pre = [(st, None)]
            elif n.get('arrow') or objn['t'].startswith('*'):
                pre = self.ev(objn, st)
            else:
                pre = [(s, self.addr(l)) for s, l in self.lv_or_tmp(objn, st)]
            for s, ov in pre:
                if ov is not None and n.get('arrow'):
                    self.rule.on_deref(self, s, n, ov)
                outs += self.call_on(n, s, qn, ov, n['as'])
            return outs
        if k == 'opcall':
            return self.opcall(n, st)
        # free call
        if n.get('fn') is not None:
            outs = []
            for s, fv in self.ev(n['fn'], st):
                outs += self.call_value(n, s, fv, n['as'])
            return outs
        return self.call_on(n, st, qn, None, n['as'])

    def call_value(self, n, st, fv, argn):
        if fv is not None and fv[0] == 'lam':
            return self.call_lambda(n, st, fv, argn)
        if fv is not None and fv[0] == 'fn' and fv[1] in self.P.fn:
            f = self.P.fn[fv[1]]
            outs = []
            for s, vs in self.args_for(f, argn, st):
                outs += self.do_call(n, s, f, f['qn'], None, vs)
            return outs
        outs = []
        for s, vs in self.evs(argn, st):
            outs.append(self.opaque_call(n, s, '?', None, vs, False))
        return outs

    def call_lambda(self, n, st, fv, argn, argvals=None):
        ln = self.lamnodes.get(fv[1])
        if ln is None or sum(1 for x in self.stack if x[3] is ln) > 0:
            st, t = self.fresh(st, n)
            return [(st, t)]
        outs = [(st, [])]
        if argvals is not None:
            outs = [(st, argvals)]
        else:
            for i, a in enumerate(argn):
                pt = ln['ps'][i]['t'] if i < len(ln['ps']) else '?'
                nxt = []
                for s, vs in outs:
                    if pt.startswith('&'):
                        nxt += [(s2, vs + [('refto', l)]) for s2, l in self.lv_or_tmp(a, s)]
                    else:
                        nxt += [(s2, vs + [v]) for s2, v in self.ev(a, s)]
                outs = nxt
        res = []
        cur = self.stack[-1]
        # the body runs in the creating frame
        frame = None
        for x in reversed(self.stack):
            if x[1] == fv[2]:
                frame = x
                break
        if frame is None:
            st, t = self.fresh(st, n)
            return [(st, t)]
        self.stack.append((frame[0], frame[1], frame[2], ln))
        try:
            for s, vs in outs:
                s = s.cp()
                for p, v in zip(ln['ps'], vs):
                    s.heap[('var', frame[1], p['id'])] = v if v is not None else C0
                flow = self.exec(ln['body'], s)
                for x in flow['n']:
                    res.append((x, None))
                for x, v in flow['ret']:
                    res.append((x, v))
        finally:
            self.stack.pop()
        return self.merge_vals(res, n)

    def opcall(self, n, st):
        op = n['op']
        as_ = n['as']
        a0t = as_[0]['t'] if as_ else ''
        if op == '()':
            if n.get('lam'):
                outs = []
                for s, fv in self.ev(as_[0], st):
                    outs += self.call_value(n, s, fv, as_[1:])
                return outs
        if is_ptrlike(a0t):
            if op == '->':
                return self.ev(as_[0], st)
            if op == '*':
                out = []
                for s, v in self.ev(as_[0], st):
                    self.rule.on_deref(self, s, n, v)
                    out.append((s, ('refto', self.deref(v))))
                return out
            if op == '=':
                out = []
                for s, v in self.ev(as_[1], st):
                    for s2, l in self.lv(as_[0], s):
                        s2 = self.store(s2, l, v, n)
                        out.append((s2, v))
                return out
        if op in ('==', '!=') and (is_ptrlike(a0t) or (len(as_) > 1 and is_ptrlike(as_[1]['t']))):
            out = []
            for s, vs in self.evs(as_, st):
                out.append((s, cmp_(op, vs[0], vs[1])))
            return out
        f = self.P.fn.get(n.get('id'))
        if f is not None and not f['imp']:
            if n.get('meth'):
                outs = []
                for s, l in self.lv_or_tmp(as_[0], st):
                    for s2, vs in self.args_for(f, as_[1:], s):
                        outs += self.do_call(n, s2, f, f['qn'], self.addr(l), vs)
                return outs
            outs = []
            for s, vs in self.args_for(f, as_, st):
                outs += self.do_call(n, s, f, f['qn'], None, vs)
            return outs
        if op == '=' and n.get('meth'):
            out = []
            if self.isrec(a0t):
                for s, src in self.lv_or_tmp(as_[1], st):
                    for s2, l in self.lv(as_[0], s):
                        s2 = self.copy_obj(s2, l, src)
                        s2 = self.rule.on_store(self, s2, l, ('rec', src), n)
                        out.append((s2, ('refto', l)))
                return out
            for s, v in self.ev(as_[1], st):
                for s2, l in self.lv(as_[0], s):
                    s2 = self.store(s2, l, v, n)
                    out.append((s2, ('refto', l)))
            return out
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(as_) == 2:
            out = []
            for s, vs in self.evs(as_, st):
                if self.rule.texts and op in ('==', '!=') and parts(vs[0]) is not None and parts(vs[1]) is not None:
                    e = text_eq(vs[0], vs[1])
                    out.append((s, e if op == '==' else neg(e)))
                    continue
                out.append((s, cmp_(op, vs[0], vs[1])))
            return out
        if op == '[]':
            out = []
            for s, l in self.lv_or_tmp(as_[0], st):
                for s2, i in self.ev(as_[1], s):
                    r = self.rule.on_call(self, s2, n, n.get('qn', ''), self.addr(l), [i])
                    if r is not None:
                        out += r
                        continue
                    out.append((s2, ('refto', ('idx', l, i))))
            return out
        if op == '*' and len(as_) == 1:
            out = []
            for s, v in self.ev(as_[0], st):
                out.append((s, ('refto', self.deref(v) if v[0] == 'it' else ('at', v))))
            return out
        if op == '->':
            return self.ev(as_[0], st)
        if op in ('++', '--'):
            out = []
            for s, l in self.lv_or_tmp(as_[0], st):
                old = self.load(s, l)
                if old[0] == 'it':
                    t = ('it', old[1], arith(op[0], old[2], C1))
                else:
                    s, t = self.fresh(s, n)
                s = self.store(s, l, t, n)
                out.append((s, ('refto', l) if len(as_) == 1 or old[0] != 'it' else old))
            return out
        if op in ('+', '-') and len(as_) == 2 and 'iterator' in a0t:
            out = []
            for s, vs in self.evs(as_, st):
                if vs[0][0] == 'it' and vs[1][0] == 'it' and vs[0][1] == vs[1][1]:
                    out.append((s, arith('-', vs[0][2], vs[1][2])))
                elif vs[0][0] == 'it':
                    out.append((s, ('it', vs[0][1], arith(op, vs[0][2], vs[1]))))
                else:
                    out.append((s, ('m', op) + tuple(vs)))
            return out
        if op == '+=' and n.get('meth'):
            out = []
            for s, l in self.lv_or_tmp(as_[0], st):
                for s2, v in self.ev(as_[1], s):
                    old = self.load(s2, l)
                    if self.rule.texts and parts(old) is not None and (parts(v) is not None or v[0] == 'c'):
                        s2 = self.store(s2, l, text(parts(old) + (parts(v) if parts(v) is not None else (v,))), n)
                        out.append((s2, ('refto', l)))
                        continue
                    s2 = self.store(s2, l, ('cat', old, v) if size(old) < 40 else ('v', self.site(n)), n)
                    out.append((s2, ('refto', l)))
            return out
        if op == '+' and len(as_) == 2:
            out = []
            for s, vs in self.evs(as_, st):
                t = ('cat', vs[0], vs[1])
                if self.rule.texts and parts(vs[0]) is not None and parts(vs[1]) is not None:
                    t = text(parts(vs[0]) + parts(vs[1]))
                if size(t) > 60:
                    t = ('big', hash(t))
                out.append((s, t))
            return out
        # streams and the rest
        outs = []
        for s, vs in self.evs(as_, st):
            r = self.rule.on_call(self, s, n, n.get('qn', ''), vs[0] if vs else None, vs[1:])
            if r is not None:
                outs += r
                continue
            s2, v = self.opaque_call(n, s, n.get('qn', ''), None, vs, op in ('-', '<<', '>>'))
            if op in ('<<', '>>') and vs:
                for s3, l in self.lv_or_tmp(as_[0], s2):
                    outs += self.out_args(n, [(s3, ('refto', l))], as_, (0,)) if n.get('mr') else [(s3, ('refto', l))]
            else:
                outs.append((s2, v))
        return outs

    def call_on(self, n, st, qn, objv, argn):
        f, project = self.targets(n, objv)
        decl = f or self.P.fn.get(n.get('id'))
        base = strip_tmpl(qn)
        name = n.get('n', '')
        if objv is not None and n.get('qn') == 'e57::E57Exception::errorCode':
            v = st.heap.get(self.deref(objv))
            if v is not None and v[0] == 'exc':
                code = self.P.enum_value('e57::ErrorCode', v[1])
                if code is not None:
                    return [(st, C(code))]
        # modelled library functions
        if not project:
            r = self.model(n, st, base, name, objv, argn)
            if r is not None:
                return r
        outs = []
        if decl is None and n.get('virt') is not None:
            ps = self.method_params(n.get('id'))
            pseudo = {'ps': [{'t': t} for t in ps]} if ps is not None else None
            pre = self.args_for(pseudo, argn, st) if pseudo else self.evs(argn, st)
        else:
            pre = self.args_for(decl, argn, st) if decl is not None else self.evs(argn, st)
        if decl is None and base in ('std::swap', 'std::iter_swap') and len(argn) == 2 and not self.isrec(argn[0]['t']):
            for s, a in self.lv_or_tmp(argn[0], st):
                for s2, b in self.lv_or_tmp(argn[1], s):
                    x, y = self.load(s2, a), self.load(s2, b)
                    s2 = self.store(s2, a, y, n)
                    outs.append((self.store(s2, b, x, n), None))
            return outs
        for s, vs in pre:
            outs += self.do_call(n, s, f, qn, objv, vs)
        if decl is None and n.get('mr') and name not in ('emplace_back', 'emplace', 'emplace_front', 'make_shared', 'make_unique', 'forward'):
            outs = self.out_args(n, outs, argn)
        return outs

    def out_args(self, n, outs, argn, skip=()):
        """a library function may have changed what was passed to it by reference"""
        res = []
        for s, v in outs:
            sts = [s]
            for i in n['mr']:
                if i >= len(argn) or i in skip:
                    continue
                nxt = []
                for s2 in sts:
                    for s3, l in self.lv_or_tmp(argn[i], s2):
                        s3 = self.kill(s3, l, ('out', self.site(n), i))
                        if not self.isrec(argn[i]['t']):
                            t = self.rule.on_out(self, s3, n, i)
                            if t is None:
                                s3, t = self.fresh(s3, n, extra=('out', i), ty=argn[i]['t'].lstrip('&'))
                            s3 = self.store(s3, l, t, n)
                        nxt.append(s3)
                sts = nxt
            res += [(x, v) for x in sts]
        return res

    def method_params(self, fid):
        m = self.modsets.method_sig.get(fid)
        return m

    def do_call(self, n, st, f, qn, objv, vs):
        r = self.rule.on_call(self, st, n, qn, objv, vs)
        if r is not None:
            return r
        if f is None and n['k'] == 'mcall' and n.get('virt') and self.rule.expand(self, n):
            fid = n['id']
            cands = ([self.P.fn[fid]] if fid in self.P.fn else []) + \
                [self.P.fn[x] for x in self.P.overriders(fid) if x in self.P.fn]
            cands = [c for c in cands if self.can_inline(c, n)]
            if cands and len(cands) <= 12:
                outs = []
                for c in cands:
                    outs += self.call_fn(c, objv, vs, st, n)
                return self.merge_vals(outs, n)
        if f is not None and self.can_inline(f, n):
            return self.call_fn(f, objv, vs, st, n)
        pure = n.get('cm', False) if f is None else False
        s, v = self.opaque_call(n, st, qn, objv, vs, pure, f)
        if s is None:
            return []
        return [(s, v)]

    def model(self, n, st, base, name, objv, argn):
        """library functions with known meaning"""
        if base in ('std::min', 'std::max') and len(argn) == 2:
            out = []
            for s, vs in self.evs(argn, st):
                a, b = vs
                if a[0] == 'c' and b[0] == 'c':
                    out.append((s, C((min if base == 'std::min' else max)(a[1], b[1]))))
                elif a == b:
                    out.append((s, a))
                else:
                    if repr(a) > repr(b):
                        a, b = b, a
                    t = (base[5:], a, b)
                    TYPES[t] = n['t']
                    out.append((s, t))
            return out
        if base.split('::')[-1] in ('nearbyint', 'round', 'rint', 'floor', 'ceil', 'trunc', 'lround', 'llround') and len(argn) == 1:
            import math
            g = {'nearbyint': round, 'rint': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}
            out = []
            for s, vs in self.evs(argn, st):
                if vs[0] is None or vs[0][0] != 'fc':
                    return None
                x = vs[0][1]
                r = g.get(base.split('::')[-1], lambda y: math.floor(y + 0.5) if y >= 0 else math.ceil(y - 0.5))(x)
                out.append((s, ('fc', float(r)) if is_float_t(n['t']) else C(int(r))))
            return out
        if base in ('std::move', 'std::forward') and len(argn) == 1:
            return [(s, ('refto', l)) for s, l in self.lv_or_tmp(argn[0], st)]
        if base in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast'):
            out = []
            for s, v in self.ev(argn[0], st):
                r = self.rule.on_call(self, s, n, n.get('qn', base), None, [v])
                if r is not None:
                    out += r
                elif base == 'std::dynamic_pointer_cast':
                    out.append((s, ('dyncast', n['t'], v)))
                else:
                    out.append((s, v))
            return out
        if base in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
            return self.make_shared(n, st, argn)
        if objv is not None and n['k'] == 'mcall':
            ot = (n['o']['t'] if n.get('o') else '').lstrip('*&')
            if is_ptrlike(ot):
                l = self.deref(objv)
                st = self.rule.on_load(self, st, l, n)
                v = self.load(st, l)
                if name in ('get', 'lock'):
                    return [(st, v)]
                if name == 'operator bool':
                    return [(st, as_bool(v))]
                if name == 'reset':
                    out = []
                    for s, vs in self.evs(argn, st):
                        s = self.rule.on_delete(self, s, n, v)
                        if vs:
                            s = self.rule.on_own(self, s, n, vs[0])
                        out.append((self.store(s, l, vs[0] if vs else C0, n), None))
                    return out
                if name == 'release':
                    st = self.rule.on_disown(self, st, n, v)
                    return [(self.store(st, l, C0, n), v)]
                if name == 'expired':
                    return [(st, cmp_('==', v, C0))]
            if name in ('shared_from_this', 'weak_from_this'):
                return [(st, objv)]
            if not self.P.rec.get(ot[2:] if ot.startswith('R:') else ot):
                # library object
                if self.rule.texts:
                    r = self.known(n, st, name, self.deref(objv), argn)
                    if r is not None:
                        return r
                if name in ('begin', 'cbegin', 'end', 'cend') and not argn:
                    l = self.deref(objv)
                    k = self.rule.elements(self, st, l, ot)
                    return [(st, ('it', l, C0 if 'begin' in name else C(k) if k is not None else ('m', 'size', self.load(st, l))))]
                if name in ('size', 'empty', 'length') and not argn:
                    k = self.rule.elements(self, st, self.deref(objv), ot)
                    if k is not None:
                        return [(st, C(k if name != 'empty' else int(k == 0)))]
                if name in REF_METHODS and (n.get('lv') or True) and name != 'str':
                    out = []
                    l = self.deref(objv)
                    for s, vs in self.evs(argn, st):
                        r = self.rule.on_call(self, s, n, n.get('qn', ''), objv, vs)
                        if r is not None:
                            out += r
                        else:
                            i = vs[0] if vs else (C0 if name == 'front' else ('m', name, self.load(s, l)))
                            out.append((s, ('refto', ('idx', l, i))))
                    return out
                if name in ('c_str', 'data') and not n['o']['t'].lstrip('&').startswith('R:std::vector') and \
                        'string' in ot:
                    return [(st, self.load(st, self.deref(objv)))]
                if name == 'data' or (name == 'begin' and 'vector' in ot):
                    if name == 'data':
                        return [(st, self.addr_first(self.deref(objv)))]
        if base in ALGORITHMS and len(argn) == 3:
            r = self.algorithm(n, st, base, argn)
            if r is not None:
                return r
        return None

    def known(self, n, st, name, l, argn):
        """methods of a string or vector whose contents are known part by part"""
        v = self.load(st, l)
        es = parts(v)
        lst = v[0] == 'vec'
        if name == 'clear' and not argn and 'vector<' in n['o']['t'] + str(n.get('qn')):
            return [(self.store(st, l, ('vec',), n), None)]
        if es is None:
            return None
        if name in ('size', 'length', 'empty') and not argn:
            return [(st, C(len(es) if name != 'empty' else int(not es)))]
        if name in ('begin', 'cbegin', 'end', 'cend') and not argn:
            return [(st, ('it', l, C0 if 'begin' in name else C(len(es))))]
        if name in ('front', 'back') and es:
            return [(st, ('refto', ('idx', l, C0 if name == 'front' else C(len(es) - 1))))]
        if name not in ('push_back', 'emplace_back', 'pop_back', 'append', 'substr', 'find', 'find_first_of', 'find_last_of', 'rfind', 'erase',
                        'clear', 'compare', 'find_first_not_of', 'find_last_not_of'):
            return None
        out = []
        for s, vs in self.evs(argn, st):
            vs = [self.val_of(s, x) for x in vs]
            if name == 'clear':
                out.append((self.store(s, l, ('s', ''), n), None))
            elif name in ('push_back', 'emplace_back') and len(vs) == 1 and len(es) < 40:
                r = self.rule.on_call(self, s, n, n.get('qn', ''), ('addr', l), vs)
                if r is not None:
                    out += r
                    continue
                out.append((self.store(s, l, ('vec',) + es + (vs[0],) if lst else text(es + (vs[0],)), n), None))
            elif name == 'pop_back' and es:
                out.append((self.store(s, l, ('vec',) + es[:-1] if lst else text(es[:-1]), n), None))
            elif name == 'append' and len(vs) == 1 and parts(vs[0]) is not None:
                out.append((self.store(s, l, text(es + parts(vs[0])), n), ('refto', l)))
            elif name == 'compare' and len(vs) == 1 and parts(vs[0]) is not None and not lst:
                e = text_eq(v, vs[0])
                t = truth(e)
                if t is None:
                    return None
                out.append((s, C0 if t else C1))
            elif name == 'erase' and lst and len(vs) == 1 and vs[0][0] == 'it' and vs[0][1] == l and vs[0][2][0] == 'c' and es:
                i = vs[0][2][1]
                out.append((self.store(s, l, ('vec',) + es[:i] + es[i + 1:], n), vs[0]))
            elif name == 'substr' and all(x[0] == 'c' for x in vs) and not lst:
                p = vs[0][1] if vs else 0
                k = vs[1][1] % 2 ** 64 if len(vs) > 1 else 2 ** 64
                if p > len(es):
                    return None
                out.append((s, text(es[p:p + k])))
            elif name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and v[0] == 's' and \
                    vs and (vs[0][0] == 's' or name.endswith('not_of')):
                w = vs[0][1] if vs[0][0] == 's' else chr(vs[0][1]) if vs[0][0] == 'c' else None
                if w is None or len(vs) > 2 or len(vs) > 1 and vs[1][0] != 'c':
                    return None
                out.append((s, C(search(name, v[1], w, vs[1][1] % 2 ** 64 if len(vs) > 1 else None) % 2 ** 64)))
            elif name in ('find', 'find_first_of', 'find_last_of', 'rfind') and not lst and vs:
                w = vs[0]
                if parts(w) is not None:
                    if len(parts(w)) != 1:
                        return None
                    w = parts(w)[0]
                back = name in ('find_last_of', 'rfind')
                if len(vs) > 1 and vs[1][0] != 'c' or len(vs) > 2:
                    return None
                lo = vs[1][1] % 2 ** 64 if len(vs) > 1 else (2 ** 64 - 1 if back else 0)
                idx = range(min(lo, len(es) - 1), -1, -1) if back else range(lo, len(es))
                sts = [s]
                for i in idx:
                    T, F = self.branch_term([(x, cmp_('==', es[i], w)) for x in sts], n)
                    out += [(x, C(i)) for x in T]
                    sts = F
                    if not sts:
                        break
                out += [(x, NPOS) for x in sts]
            else:
                return None
        return out

    def algorithm(self, n, st, base, argn):
        """a search over a container with a known number of elements"""
        out = []
        for s, vs in self.evs(argn, st):
            a, b, fn = vs
            if not (a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2][0] == 'c' and b[2][0] == 'c' and fn[0] == 'lam') or \
                    b[2][1] - a[2][1] > 3:
                return None
            todo = [(s, 0)]
            for i in range(a[2][1], b[2][1]):
                nxt = []
                for s2, cnt in todo:
                    ln = self.lamnodes.get(fn[1])
                    if ln is None or len(ln['ps']) != 1:
                        return None
                    l = ('idx', a[1], C(i))
                    arg = ('refto', l) if ln['ps'][0]['t'].startswith('&') else self.load(s2, l)
                    for s3, v in self.call_lambda(n, s2, fn, None, [arg]):
                        if base == 'std::for_each':
                            nxt.append((s3, cnt))
                            continue
                        for want, sts in zip((True, False), self.branch_term([(s3, as_bool(v))], n)):
                            for s4 in sts:
                                if base == 'std::count_if':
                                    nxt.append((s4, cnt + want))
                                elif want == (base != 'std::all_of'):
                                    out.append((s4, {'std::any_of': C1, 'std::all_of': C0, 'std::none_of': C0}.get(base, ('it', a[1], C(i)))))
                                else:
                                    nxt.append((s4, cnt))
                todo = nxt
            for s2, cnt in todo:
                out.append((s2, {'std::any_of': C0, 'std::all_of': C1, 'std::none_of': C1, 'std::count_if': C(cnt),
                                 'std::for_each': fn}.get(base, b)))
        return out

    def addr_first(self, l):
        return ('addr', l)

    def make_shared(self, n, st, argn):
        t = n['t']
        inner = None
        for pre in ('R:std::shared_ptr<', 'R:std::unique_ptr<'):
            if t.startswith(pre):
                inner = t[len(pre):-1]
                d = 0
                for i, ch in enumerate(inner):
                    if ch == '<':
                        d += 1
                    elif ch == '>':
                        d -= 1
                    elif ch == ',' and d == 0:
                        inner = inner[:i]
                        break
        v = ('new', 'R:' + (inner or '?'), self.site(n))
        st = self.retire(st, v)
        cands = [f for f in self.P.fn.values() if f['kind'] == 'ctor' and f.get('cls') == inner and not f['imp'] and
                 len(f['ps']) == len(argn)]
        outs = []
        if inner in self.P.rec and len(cands) == 1:
            f = cands[0]
            for s, vs in self.args_for(f, argn, st):
                r = self.rule.on_call(self, s, n, f['qn'], v, vs)
                if r is not None:
                    res = [x for x, _ in r]
                elif self.can_inline(f, n):
                    res = [x for x, _ in self.call_fn(f, v, vs, s, n)]
                else:
                    res = [self.opaque_call(n, s, f['qn'], v, vs, False, f)[0]]
                for s2 in res:
                    s2 = self.rule.on_new(self, s2, n, v)
                    outs.append((s2, v))
            return outs
        for s, vs in self.evs(argn, st):
            s = self.rule.on_new(self, s, n, v)
            outs.append((s, v))
        return outs

    def opaque_call(self, n, st, qn, objv, vs, pure, f=None):
        """unknown effect bounded by the modification summary"""
        self.stats['opaque'] += 1
        base = strip_tmpl(qn)
        name = n.get('n', '')
        if n.get('noret'):
            self.raise_(st, {'code': None, 'cls': 'abort', 'node': n, 'fn': self.stack[-1][0]}, n)
            return None, None
        fid = n.get('id')
        project = fid in self.modsets.known
        thr = self.rule.opaque_throws(self, st, n, qn)
        if thr:
            info = {'code': None, 'cls': 'unknown', 'node': n, 'fn': self.stack[-1][0]}
            if isinstance(thr, dict):
                info.update(thr)            # the rule says what is thrown
            self.raise_(st, info, n)
        vv = [self.val_of(st, v) for v in vs]
        if project and f is None and fid in self.P.fn:
            f = self.P.fn[fid]
        if project:
            mods, outp = self.modsets.effects(fid)
            why = ('call', self.site(n))
            for m in mods:
                st = self.kill_field(st, m, why)
            sig = [p['t'] for p in f['ps']] if f is not None else (self.method_params(fid) or [])
            for v, t in zip(vs, sig):
                if v is None:
                    continue
                if v[0] == 'refto' and root(v[1])[0] in ('var', 'tmp'):
                    if self.modsets.writes_param(fid, len(st.tags) and 0, vs.index(v)):
                        st = self.kill(st, v[1], ('call', self.site(n)))
                elif v[0] == 'addr' and root(v[1])[0] in ('var', 'tmp'):
                    if self.modsets.writes_param(fid, 0, vs.index(v)):
                        st = self.kill(st, v[1], ('call', self.site(n)))
                elif v[0] == 'op' and v[2][0] == 'addr':
                    st = self.kill(st, v[2][1], ('call', self.site(n)))
            st, t = self.fresh(st, n, ty=n.get('t'))
            if self.modsets.is_pure(fid):
                t = ('pc', qn, objv) + tuple(vv)
                if objv is not None:
                    t = t + self.eps(st, mods_read=self.modsets.reads(fid))
                if size(t) > 80:
                    t = ('big', hash(t))
                TYPES[t] = n.get('t')
        else:
            ispure = pure or base in PURE or name in READONLY_METHODS or base in ('std::numeric_limits::max',)
            if n['k'] == 'ctor':
                # value of a library class built from its arguments
                st, t = self.fresh(st, n, ty=n.get('t'))
                if vv and all(v is not None for v in vv):
                    t = ('ctor', n.get('cls', qn), self.site(n)) + tuple(v for v in vv)
                    if size(t) > 80:
                        t = ('v', self.site(n))
            elif ispure:
                ov = ()
                if objv is not None:
                    ov = (self.load(st, self.deref(objv)),)
                t = ('m', name) + ov + tuple(v for v in vv if v is not None)
                if size(t) > 80:
                    t = ('big', hash(t))
                TYPES.setdefault(t, n.get('t'))
            else:
                st, t = self.fresh(st, n, ty=n.get('t'))
                if objv is not None and n['k'] == 'mcall' and not n.get('cm'):
                    l = self.deref(objv)
                    old = st.heap.get(l)
                    nv = ('mut', self.site(n))
                    st = self.retire(st, nv)
                    st = self.store(st, l, nv, None)
                    # children of a mutated container are gone as well
                for v in vs:
                    if v is None:
                        continue
                    if v[0] == 'refto' and root(v[1])[0] in ('var', 'tmp', 'new'):
                        st = self.kill(st, v[1], ('call', self.site(n)))
                    elif v[0] == 'addr':
                        st = self.kill(st, v[1], ('call', self.site(n)))
                    elif v[0] == 'op' and v[2][0] == 'addr':
                        st = self.kill(st, v[2][1], ('call', self.site(n)))
                if base in ('memcpy', 'memset', 'memmove', 'read', 'std::memcpy', 'std::memset', 'std::memmove') and vs \
                        and vs[0] is not None:
                    d = vs[0] if base not in ('read',) else (vs[1] if len(vs) > 1 else None)
                    if d is not None and d[0] not in ('addr',):
                        b = d
                        while b[0] == 'op' and b[1] in ('+', '-'):
                            b = b[2]
                        st = self.kill(st, self.deref(b), ('call', self.site(n)))
                # callbacks: run a lambda argument once as a possible loop body
                for v in vs:
                    if v is not None and v[0] == 'lam':
                        st = self.run_callback(n, st, v)
        st = self.rule.after_call(self, st, n, qn, objv, vs, t)
        if n.get('t') == 'v':
            t = None
        return st, t

    def eps(self, st, mods_read=()):
        return tuple(sorted((repr((m, st.ep.get(m))) for m in mods_read if st.ep.get(m) is not None)))

    def run_callback(self, n, st, lam):
        ln = self.lamnodes.get(lam[1])
        if ln is None:
            return st
        vals = []
        for i, p in enumerate(ln['ps']):
            if p['t'].startswith('&'):
                vals.append(('refto', ('tmp', self.site(n), 'cb', i)))
            else:
                vals.append(('v', self.site(n), 'cb', i))
        res = self.call_lambda(n, st, lam, [], vals)
        sts = [st] + [s for s, _ in res]
        m = self.merge(sts, self.site(n))
        r = m[0]
        for x in m[1:]:
            r = self.merge2(r, x, self.site(n))
        return r

    def call_fn(self, f, this, vs, st, node):
        """analyse a project function in place -> [(state, value)]"""
        self.stats['inlined'] += 1
        self.stats['fns'].add(f['id'])
        c = self.newctx(node) if self.stack else 1 + self.base
        if this is None and f.get('cls') and not f.get('static') and f['kind'] != 'func':
            this = ('sym', 'this?')
        st = st.cp()
        for p, v in zip(f['ps'], vs):
            loc = ('var', c, p['id'])
            if v is None:
                continue
            if v[0] == 'rec':
                st = self.copy_obj(st, loc, v[1])
            else:
                if p['t'].startswith('&') and v[0] != 'refto':
                    st.heap[loc] = v
                elif not p['t'].startswith('&') and v[0] == 'refto':
                    st.heap[loc] = self.load(st, v[1])
                else:
                    st.heap[loc] = v
        self.stack.append((f['id'], c, this, node))
        st = self.rule.on_enter(self, st, f, node, vs)
        outer_live = st.live
        st.live = ()
        ncoll = []
        self.coll.append(ncoll)
        try:
            sts = [st]
            if f['kind'] == 'ctor':
                sts = self.ctor_inits(f, this, sts)
            outs = []
            for s in sts:
                flow = self.exec(f['body'], s)
                for x in flow['n']:
                    outs.append((x, None))
                outs += flow['ret']
            res = []
            for s, v in outs:
                s = self.rule.on_return(self, s, node, f, v)
                s = self.rule.on_exit(self, s, f, node, v)
                res.append((s, v))
            if f['kind'] == 'dtor':
                r2 = []
                for s, v in res:
                    for s2 in self.member_dtors(f, this, s, node):
                        r2.append((s2, v))
                res = r2
        finally:
            self.coll.pop()
            self.stack.pop()
        # exceptions leave the function
        if ncoll:
            grouped = {}
            for s, info in ncoll:
                s = self.drop_frame(s, c)
                s.live = outer_live
                key = (s.tags, info.get('code'), info.get('cls'), id(info.get('node')))
                if key in grouped:
                    s0, i0 = grouped[key]
                    grouped[key] = (s0 if s0.same(s) else self.merge2(s0, s, (f['l'], c)), i0)
                else:
                    grouped[key] = (s, info)
            if self.coll:
                self.coll[-1] += list(grouped.values())
        final = []
        for s, v in res:
            if v is not None and v[0] == 'rec' and node is not None:
                tl = ('tmp', (node['nid'], self.ctx() if self.stack else 0))
                s = self.copy_obj(s, tl, v[1])
                v = ('rec', tl)
            s = self.drop_frame(s, c)
            s.live = outer_live
            final.append((s, v))
        if not self.stack:
            return final
        return self.merge_vals(final, node)

    def member_dtors(self, f, this, st, node):
        """destructors of members that are owning project objects"""
        return [st]

    def drop_frame(self, st, c):
        heap = {}
        for k, v in st.heap.items():
            r = root(k)
            if r[0] == 'var' and r[1] == c:
                continue
            heap[k] = v
        return State(heap, st.ep, st.facts, st.tags, st.live)

    def ctor_inits(self, f, this, sts):
        loc = self.deref(this)
        for i in f.get('inits', []):
            nxt = []
            for s in sts:
                if i.get('f'):
                    fl = ('fld', loc, i['f'])
                    e = i.get('e')
                    if e is None:
                        nxt.append(s)
                    elif e['k'] == 'ctor' and self.isrec(e['t']):
                        nxt += self.construct(e, s, fl, e['t'])
                    elif i['ft'].startswith('&'):
                        for s2, l in self.lv_or_tmp(e, s):
                            s2 = s2.cp()
                            s2.heap[fl] = ('refto', l)
                            nxt.append(s2)
                    else:
                        for s2, v in self.ev(e, s):
                            if v is not None and v[0] == 'rec':
                                s2 = self.copy_obj(s2, fl, v[1])
                                s2 = self.rule.on_store(self, s2, fl, v, e)
                            elif v is not None:
                                s2 = self.store(s2, fl, v, e)
                            nxt.append(s2)
                elif i.get('b') or i.get('d'):
                    e = i.get('e')
                    if e is not None and e['k'] == 'ctor' and e['id'] in self.P.fn:
                        nxt += self.construct_base(e, s, this)
                    else:
                        nxt.append(s)
                else:
                    nxt.append(s)
            sts = self.merge(nxt, ((f['n'], 'init'), self.ctx()))
        return sts

    def construct_base(self, e, st, this):
        f = self.P.fn[e['id']]
        outs = []
        for s, vs in self.args_for(f, e['as'], st):
            r = self.rule.on_call(self, s, e, f['qn'], this, vs)
            if r is not None:
                outs += [x for x, _ in r]
            elif self.can_inline(f, e):
                outs += [x for x, _ in self.call_fn(f, this, vs, s, e)]
            else:
                s2, _ = self.opaque_call(e, s, f['qn'], this, vs, False, f)
                outs.append(s2)
        return outs

    # ------------------------------------------------------------------ statements
    def flow(self):
        return {'n': [], 'brk': [], 'cont': [], 'ret': []}

    def exec(self, n, st):
        """-> flow dict; exceptions go to the current collector"""
        if n is None or st is None:
            f = self.flow()
            f['n'] = [st] if st is not None else []
            return f
        self.steps += 1
        return getattr(self, 'x_' + n['k'], self.x_opaque)(n, st)

    def x_opaque(self, n, st):
        f = self.flow()
        f['n'] = [st]
        return f

    x_null = x_opaque
    x_goto = x_opaque

    def x_label(self, n, st):
        return self.exec(n['a'], st)

    def x_expr(self, n, st):
        f = self.flow()
        f['n'] = self.merge([s for s, _ in self.ev(n['e'], st)], self.site(n))
        return f

    def x_decl(self, n, st):
        f = self.flow()
        sts = [st]
        for v in n['vs']:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s, n)
            sts = self.merge(nxt, self.site(n))
        f['n'] = sts
        return f

    def declare(self, v, st, n):
        loc = self.varloc(v['id'])
        t = v['t']
        i = v.get('i')
        st = st.cp()
        for k in [k for k in st.heap if self.may_overlap(k, loc)]:
            del st.heap[k]
        if v.get('static') and (not v.get('const') or i is not None and 'cv' not in i):
            # what an earlier call left
            st.heap[loc] = ('ld', ('gvar', 'static:' + v['n']), None)
            return [st]
        if t.startswith('&'):
            outs = []
            for s, l in self.lv_or_tmp(i, st):
                s = s.cp()
                s.heap[loc] = ('refto', l)
                outs.append(s)
            return outs
        if i is None:
            st.heap[loc] = ('undef', self.site(n), v['id'])
            if self.isrec(t):
                st.heap[loc] = ('mem', ('decl', self.site(n)))
            return [st]
        outs = []
        if i['k'] == 'ctor' and self.isrec(t):
            for s in self.construct(i, st, loc, t):
                outs.append(self.live_local(s, loc, t))
            return outs
        for s, val in self.ev(i, st):
            if val is not None and val[0] == 'rec':
                s = self.copy_obj(s, loc, val[1])
            elif val is not None:
                s = s.cp()
                s.heap[loc] = val
                s = self.rule.on_store(self, s, loc, val, n)
            outs.append(self.live_local(s, loc, t))
        return outs

    def live_local(self, st, loc, t):
        if t.startswith('R:'):
            cls = t[2:]
            if cls in self.P.rec and not self.P.rec[cls]['tdtor']:
                d = self.dtor_of(cls)
                if d is not None and not d['imp']:
                    return State(st.heap, st.ep, st.facts, st.tags, st.live + ((self.scopes, loc, cls),))
            elif t.startswith('R:std::unique_ptr'):
                return State(st.heap, st.ep, st.facts, st.tags, st.live + ((self.scopes, loc, 'unique_ptr'),))
        return st

    def end_scope(self, st, depth, node):
        """run destructors of locals declared at scope depth >= depth"""
        sts = [st]
        while True:
            nxt, again = [], False
            for s in sts:
                if s.live and s.live[-1][0] >= depth:
                    _, loc, cls = s.live[-1]
                    s = State(s.heap, s.ep, s.facts, s.tags, s.live[:-1])
                    again = True
                    if cls == 'unique_ptr':
                        nxt.append(self.rule.on_delete(self, s, node, self.load(s, loc)))
                        continue
                    d = self.dtor_of(cls)
                    if d is not None and self.can_inline(d, node):
                        nxt += [x for x, _ in self.call_fn(d, ('addr', loc), [], s, node)]
                    else:
                        nxt.append(s)
                else:
                    nxt.append(s)
            sts = nxt
            if not again:
                return sts

    def x_blk(self, n, st):
        self.scopes += 1
        depth = self.scopes
        ncoll = []
        self.coll.append(ncoll)
        f = self.flow()
        try:
            cur = [st]
            for c in n['s']:
                nxt = []
                for s in cur:
                    g = self.exec(c, s)
                    nxt += g['n']
                    f['brk'] += g['brk']
                    f['cont'] += g['cont']
                    f['ret'] += g['ret']
                cur = self.merge(nxt, self.site(c)) if c is not None else nxt
                if not cur:
                    break
            f['n'] = cur
        finally:
            self.coll.pop()
            self.scopes -= 1
        for key in ('n', 'brk', 'cont'):
            out = []
            for s in f[key]:
                out += self.end_scope(s, depth, n)
            f[key] = out
        rets = []
        for s, v in f['ret']:
            for s2 in self.end_scope(s, depth, n):
                rets.append((s2, v))
        f['ret'] = rets
        if self.coll:
            for s, info in ncoll:
                for s2 in self.end_scope(s, depth, n):
                    self.coll[-1].append((s2, info))
        return f

    def cond_states(self, n, st):
        """handle init / condition variable, then branch"""
        sts = [st]
        if n.get('i') is not None and n['k'] in ('if', 'switch'):
            sts = self.exec(n['i'], st)['n']
        if n.get('cvar'):
            nxt = []
            for s in sts:
                nxt += self.declare(n['cvar'], s, n)
            sts = nxt
        return sts

    def x_if(self, n, st):
        f = self.flow()
        nrm = []
        for s in self.cond_states(n, st):
            # keep the condition as a term when evaluation is effect-free, for value selection
            T, F = self.branch(n['c'], s)
            cond = None
            if len(T) == 1 and len(F) == 1:
                d = T[0].facts - F[0].facts
                if len(d) == 1:
                    cond = fact_term(next(iter(d)))
            for x in T:
                g = self.exec(n['a'], x)
                self.addflow(f, g)
                nrm.append(('t', g['n']))
            for x in F:
                g = self.exec(n['b'], x) if n.get('b') is not None else {'n': [x], 'brk': [], 'cont': [], 'ret': []}
                self.addflow(f, g)
                nrm.append(('f', g['n']))
            ts = [x for k, xs in nrm if k == 't' for x in xs]
            fs = [x for k, xs in nrm if k == 'f' for x in xs]
            if len(ts) == 1 and len(fs) == 1 and cond is not None:
                f['n'] += self.merge([ts[0], fs[0]], self.site(n), cond)
            else:
                f['n'] += ts + fs
            nrm = []
        f['n'] = self.merge(f['n'], self.site(n))
        return f

    def addflow(self, f, g):
        f['brk'] += g['brk']
        f['cont'] += g['cont']
        f['ret'] += g['ret']

    def x_ret(self, n, st):
        f = self.flow()
        fn = self.cur()
        # inside a lambda the declared type is not the function's
        inlam = self.stack[-1][3] is not None and self.stack[-1][3].get('k') == 'lambda'
        if n.get('e') is not None and not inlam and fn['ret'].startswith('&'):
            f['ret'] = [(s, ('refto', l)) for s, l in self.lv_or_tmp(n['e'], st)]
        else:
            f['ret'] = self.ev(n['e'], st) if n.get('e') is not None else [(st, None)]
        return f

    def x_break(self, n, st):
        f = self.flow()
        f['brk'] = [st]
        return f

    def x_continue(self, n, st):
        f = self.flow()
        f['cont'] = [st]
        return f

    # loops ------------------------------------------------------------
    def x_for(self, n, st):
        self.scopes += 1
        depth = self.scopes
        try:
            sts = [st]
            if n.get('i') is not None:
                sts = self.exec(n['i'], st)['n']
            f = self.flow()
            for s in sts:
                g = self.loop(n, s, n.get('c'), n.get('n'), n['a'], False)
                f['n'] += g['n']
                f['ret'] += g['ret']
        finally:
            self.scopes -= 1
        f['n'] = self.merge(f['n'], self.site(n))
        return f

    def x_while(self, n, st):
        return self.loop(n, st, n['c'], None, n['a'], False)

    def x_do(self, n, st):
        return self.loop(n, st, n['c'], None, n['a'], True)

    def x_rfor(self, n, st):
        f = self.flow()
        outs = self.lv_or_tmp(n['r'], st)
        for s, l in outs:
            k = self.rule.elements(self, s, l, n['r']['t'].lstrip('&'))
            if k is None and self.rule.texts and parts(self.load(s, l)) is not None:
                k = len(parts(self.load(s, l)))
            if k is None and self.rule.unroll:
                v = self.load(s, l)
                if v is not None and v[0] == 'ctor' and 'vector<' in v[1] and len(v) > 3 and v[3][0] == 'c':
                    k = v[3][1]
            top = max(3, getattr(self.rule, 'unroll_range', 0))
            t = n['r']['t'].lstrip('&')
            if k is None and t.startswith('A') and t[1:].split(':')[0].isdigit():
                k, top = int(t[1:].split(':')[0]), min(self.rule.unroll, 64)
            if k is not None and k <= top:
                self.unroll(n, s, l, k, f)
                continue
            g = self.loop(n, s, None, None, n['a'], False, rng=(l, n['v']))
            f['n'] += g['n']
            f['ret'] += g['ret']
        f['n'] = self.merge(f['n'], self.site(n))
        return f

    def unroll(self, n, st, l, k, f):
        """a range loop over a container with a known number of elements"""
        sts = [st]
        loc = self.varloc(n['v']['id'])
        for i in range(k):
            nxt = []
            for s in sts:
                s = s.cp()
                for x in [x for x in s.heap if self.may_overlap(x, loc)]:
                    del s.heap[x]
                el = ('idx', l, C(i))
                if not n['v']['t'].startswith(('&', 'R:')):
                    s = self.rule.on_load(self, s, el, dict(n['r'], t=n['v']['t'])).cp()
                s.heap[loc] = ('refto', el) if n['v']['t'].startswith('&') else self.load(s, el)
                g = self.exec(n['a'], s)
                f['n'] += g['brk']
                f['ret'] += g['ret']
                nxt += g['n'] + g['cont']
            sts = self.merge(nxt, self.site(n))
        f['n'] += sts

    def loop_body(self, n, H, cond, inc, body, post, rng_):
        """one symbolic pass -> (back states, exit states, returns)"""
        back, ex, rets = [], [], []
        if rng_ is not None:
            l, v = rng_
            # zero or more iterations
            ex.append(H)
            s, it = self.fresh(H, n, 'it')
            s = s.cp()
            loc = self.varloc(v['id'])
            for k in [k for k in s.heap if self.may_overlap(k, loc)]:
                del s.heap[k]
            if v['t'].startswith('&'):
                s.heap[loc] = ('refto', ('idx', l, it))
            else:
                s.heap[loc] = self.load(s, ('idx', l, it))
            T = [s]
        elif post:
            T = [H]
        elif cond is None:
            T = [H]
        else:
            sts = [H]
            if n.get('cvar'):
                sts = self.declare(n['cvar'], H, n)
            T = []
            for s in sts:
                t, f = self.branch(cond, s)
                T += t
                ex += f
        for s in self.merge(T, self.site(n)):
            g = self.exec(body, s)
            rets += g['ret']
            ex += g['brk']
            nx = self.merge(g['n'] + g['cont'], self.site(body) if body else self.site(n))
            if post:
                nx2 = []
                for x in nx:
                    t, f = self.branch(cond, x)
                    nx2 += t
                    ex += f
                nx = nx2
            if inc is not None:
                nx = [y for x in nx for y, _ in self.ev(inc, x)]
            back += nx
        return back, ex, rets

    def follow(self, n, st, cond, inc, body, post):
        """a loop whose condition is decided in every round, round by round (None: it is not)"""
        marks = [len(x) for x in self.coll]
        f = self.flow()
        sts = [st]
        for i in range(self.rule.unroll + 1):
            if not (post and i == 0):
                T, F = [], []
                for s in sts:
                    a, b = self.branch(cond, s)
                    T += a
                    F += b
                if T and F and not self.rule.fork or T and i == self.rule.unroll:
                    break
                f['n'] += F
                if not T:
                    f['n'] = self.merge(f['n'], self.site(n))
                    return f
                sts = T
            nxt = []
            for s in self.merge(sts, self.site(n)):
                g = self.exec(body, s)
                f['ret'] += g['ret']
                f['n'] += g['brk']
                nxt += g['n'] + g['cont']
            sts = self.merge(nxt, self.site(n))
            if inc is not None:
                sts = [y for x in sts for y, _ in self.ev(inc, x)]
            if not sts:
                f['n'] = self.merge(f['n'], self.site(n))
                return f
        for x, m in zip(self.coll, marks):
            del x[m:]
        return None

    def loop(self, n, st, cond, inc, body, post, rng=None):
        self.stats['loops'] += 1
        if self.rule.unroll and rng is None and cond is not None and not n.get('cvar'):
            f = self.follow(n, st, cond, inc, body, post)
            if f is not None:
                return f
        site = ('loop', n['nid'], self.ctx())
        # names of join terms at this loop from an earlier execution become old
        for t in [v for v in self.phis_of(st, site)]:
            st = self.retire(st, t)
        heads = {st.tags: st}
        entry = {st.tags: st}
        self.silent += 1
        saved = self.coll
        try:
            for it in range(8):
                self.coll = saved + [[]]
                changed = False
                newheads = {}
                allback = []
                for H in list(heads.values()):
                    back, ex, rets = self.loop_body(n, H, cond, inc, body, post, rng)
                    allback += back
                pend = dict(heads)
                for b in allback:
                    h = pend.get(b.tags)
                    if h is None:
                        if len(pend) >= MAXSTATES:
                            h = next(iter(pend.values()))
                            b = State(b.heap, b.ep, b.facts, h.tags, b.live)
                        else:
                            pend[b.tags] = State(b.heap, b.ep, b.facts, b.tags, st.live)
                            changed = True
                            continue
                    m = self.widen(h, State(b.heap, b.ep, b.facts, b.tags, h.live), site, entry.get(h.tags))
                    if not m.same(h):
                        pend[h.tags] = m
                        changed = True
                heads = pend
                if not changed:
                    break
        finally:
            self.silent -= 1
            self.coll = saved
        f = self.flow()
        ex = []
        for H in heads.values():
            back, e, rets = self.loop_body(n, H, cond, inc, body, post, rng)
            ex += e
            f['ret'] += rets
        ex = [State(x.heap, x.ep, x.facts, x.tags, x.live) for x in ex]
        f['n'] = self.merge(ex, self.site(n))
        return f

    def phis_of(self, st, site):
        out = set()
        for k, v in st.heap.items():
            for x in subterms(v) | subterms(k):
                if x[0] == 'phi' and x[1] == site:
                    out.add(x)
        for fct in st.facts:
            for x in subterms(fct):
                if x[0] == 'phi' and x[1] == site:
                    out.add(x)
        return out

    def widen(self, h, b, site, entry):
        """join of head and back-edge state with stable join terms"""
        heap = {}
        newfacts = set()
        fresh_phi = set()
        for k in h.heap.keys() | b.heap.keys():
            va, vb = h.heap.get(k), b.heap.get(k)
            if va == vb:
                heap[k] = va
                continue
            t = ('phi', site, k)
            if va == t and vb is not None and vb[0] not in ('objval', 'mem', 'zeroinit', 'refto'):
                heap[k] = t
                # keep induction facts that are still justified
                continue
            if va is None:
                # not recorded at the head: created by the body; drop locals, keep memory if equal
                if root(k)[0] in ('var', 'tmp'):
                    continue
                va = self.load(h, k)
                if va == vb:
                    heap[k] = vb
                    continue
            if vb is None:
                vb = self.load(b, k)
                if va == vb:
                    heap[k] = va
                    continue
            if va[0] == 'refto' or vb[0] == 'refto':
                heap[k] = va if va[0] == 'refto' else vb
                continue
            if va[0] in ('objval', 'mem', 'zeroinit') or vb[0] in ('objval', 'mem', 'zeroinit'):
                heap[k] = ('mem', ('loop', site, k))
                continue
            ta = TYPES.get(va) or TYPES.get(vb)
            if ta:
                TYPES[t] = ta
            heap[k] = t
            if va != t:
                fresh_phi.add(t)
        ep = dict(h.ep)
        for k in set(h.ep) | set(b.ep):
            if h.ep.get(k) != b.ep.get(k):
                ep[k] = ('l', site, k)
        # epochs: loads through changed epochs are automatically different terms
        facts = set()
        bf = b.facts
        phis = set(v for v in heap.values() if v[0] == 'phi' and v[1] == site)
        for f in h.facts:
            inv = subterms(f) & phis
            if not inv:
                if f in bf or quick(bf, f):
                    facts.add(f)
            else:
                # inductive? substitute the back-edge values
                g = f
                ok = True
                for p in inv:
                    vb = b.heap.get(p[2])
                    if vb is None:
                        vb = self.load(b, p[2])
                    if p in fresh_phi:
                        ok = False
                        break
                    g = subst1(g, p, vb)
                if ok and (entails(bf, fact_term(g))):
                    facts.add(f)
        # candidate induction facts for new join terms
        for k, t in heap.items():
            if t in fresh_phi:
                va = h.heap.get(k) or self.load(h, k)
                vb = b.heap.get(k) or self.load(b, k)
                d = lin_add(lin(vb), lin(va), -1)
                if not d[1]:
                    if d[0] >= 0:
                        facts.add(('le', va, t, False))
                    if d[0] <= 0:
                        facts.add(('le', t, va, False))
                facts |= set(hull(h.facts, va, b.facts, vb, t))
        return State(heap, ep, frozenset(facts), h.tags, h.live)

    # switch -----------------------------------------------------------
    def x_switch(self, n, st):
        f = self.flow()
        labels = []     # (values or None for default, index in flat)
        flat = []

        def flatten(s):
            if s is None:
                return
            if s['k'] == 'case':
                labels.append((s['v'], len(flat)))
                flatten(s['a'])
            elif s['k'] == 'default':
                labels.append((None, len(flat)))
                flatten(s['a'])
            else:
                flat.append(s)
        body = n['a']
        for s in (body['s'] if body['k'] == 'blk' else [body]):
            flatten(s)
        vals = [int(v['cv']) for v, _ in labels if v is not None and 'cv' in v]
        exits = []
        for s0 in self.cond_states(n, st):
            for s, c in self.ev(n['c'], s0):
                starts = []
                for v, i in labels:
                    if v is None:
                        x = s
                        dead = False
                        for w in vals:
                            q = cmp_('==', c, C(w))
                            tv = truth(q)
                            if tv is None and x.ent(q):
                                tv = True
                            if tv is True:
                                dead = True
                                break
                            x = x.assume(neg(q))
                        if not dead:
                            starts.append((x, i))
                    else:
                        q = cmp_('==', c, C(int(v['cv']))) if 'cv' in v else ('v', self.site(v))
                        tv = truth(q)
                        if tv is None and s.ent(q):
                            tv = True
                        if tv is None and s.ent(neg(q)):
                            tv = False
                        if tv is not False:
                            starts.append((s.assume(q), i))
                if not any(v is None for v, _ in labels):
                    x = s
                    dead = False
                    for w in vals:
                        q = cmp_('==', c, C(w))
                        if truth(q) is True or (truth(q) is None and x.ent(q)):
                            dead = True
                            break
                        x = x.assume(neg(q))
                    if not dead:
                        exits.append(x)
                # fall-through execution
                pending = {}
                for x, i in starts:
                    pending.setdefault(i, []).append(x)
                cur = []
                for i, stmt in enumerate(flat):
                    cur = self.merge(cur + pending.get(i, []), self.site(stmt))
                    nxt = []
                    for x in cur:
                        g = self.exec(stmt, x)
                        nxt += g['n']
                        exits += g['brk']
                        f['cont'] += g['cont']
                        f['ret'] += g['ret']
                    cur = nxt
                exits += cur
        f['n'] = self.merge(exits, self.site(n))
        return f

    x_case = x_opaque

    # exceptions -------------------------------------------------------
    def x_try(self, n, st):
        ncoll = []
        self.coll.append(ncoll)
        try:
            f = self.exec(n['a'], st)
        finally:
            self.coll.pop()
        groups = {}
        for s, info in ncoll:
            key = (s.tags, info.get('code'), info.get('cls'))
            if key in groups:
                s0, i0 = groups[key]
                groups[key] = (s0 if s0.same(s) else self.merge2(s0, s, self.site(n)), i0)
            else:
                groups[key] = (s, info)
        for s, info in groups.values():
            handled = False
            for h in n['hs']:
                m = self.catches(h, info)
                if not m:
                    continue
                self.excinfo.append(info)
                try:
                    x = s.cp()
                    if h.get('v') is not None:
                        loc = self.varloc(h['v']['id'])
                        x.heap[loc] = ('exc', info.get('code'))
                    x = self.rule.on_catch(self, x, h, info) if hasattr(self.rule, 'on_catch') else x
                    g = self.exec(h['a'], x)
                    f['n'] += g['n']
                    self.addflow(f, g)
                finally:
                    self.excinfo.pop()
                handled = True
                if m == 'yes':
                    break
            else:
                if not handled or True:
                    if self.coll:
                        self.coll[-1].append((s, info))
        f['n'] = self.merge(f['n'], self.site(n))
        return f

    def catches(self, h, info):
        ct = h.get('ct')
        if ct is None:
            return 'yes'
        cls = info.get('cls') or ''
        ct = ct.lstrip('&*')
        if cls == ct:
            return 'yes'
        if ct == 'R:std::exception':
            return 'yes' if cls.startswith('R:std::') or cls == 'R:e57::E57Exception' else 'maybe'
        if cls in ('unknown',):
            return 'maybe'
        return False

    # ------------------------------------------------------------------ entry
    def run(self, f, this=None, args=None, st=None, cls=None):
        """analyse f from an arbitrary state -> ([(state,value)], [(state, exception)])"""
        st = st or State()
        if this is None and f.get('cls') and not f.get('static'):
            this = ('this', cls or f['cls'], bool(cls))
        c = 1
        vs = args
        if vs is None:
            vs = []
            for p in f['ps']:
                sym = ('sym', 'arg:' + p['n'])
                t = p['t']
                if t.startswith('&'):
                    v = ('refto', ('at', ('sym', 'ref:' + p['n'])))
                elif self.isrec(t):
                    v = ('rec', ('at', ('sym', 'val:' + p['n'])))
                else:
                    v = sym
                    TYPES[sym] = t
                vs.append(v)
        ex = []
        self.coll.append(ex)
        try:
            outs = self.call_fn(f, this, vs, st, None)
        finally:
            self.coll.pop()
        return outs, ex


def ptr_add(op, p, i):
    """pointer arithmetic: a base plus one offset"""
    if op == '-':
        i = C(-i[1]) if i[0] == 'c' else ('neg', i)
    if i == C0:
        return p
    if p[0] == 'op' and p[1] == '+' and len(p) == 4:
        i = arith('+', p[3], i)
        if i == C0:
            return p[2]
        p = p[2]
    t = ('op', '+', p, i)
    return t if size(t) < 250 else ('big', hash(t))


def fact_term(f):
    if f[0] == 't':
        return f[1]
    if f[0] == 'f':
        return ('not', f[1])
    return f


def as_bool(v):
    if v is None:
        return ('sym', 'void')
    if is_bool(v):
        return v
    tv = truth(v)
    if tv is not None:
        return C(int(tv))
    if v[0] == 'ite':
        return ite(v[1], as_bool(v[2]), as_bool(v[3]))
    return cmp_('!=', v, C0)


def select(c, a, b):
    """value of c ? a : b with minimum/maximum recognised"""
    if c[0] in ('lt', 'le') and not (len(c) > 3 and c[3]):
        x, y = c[1], c[2]
        if a == x and b == y:
            return tuple(['min'] + sorted((x, y), key=repr))
        if a == y and b == x:
            return tuple(['max'] + sorted((x, y), key=repr))
    return ite(c, a, b)


def quick(facts, f):
    """cheap implication used at joins"""
    if f in facts:
        return True
    k = f[0]
    if k in ('t', 'f'):
        return False
    if k in ('le', 'lt', 'eq', 'ne'):
        # only when operands are simple enough
        if size(f) > 60:
            return False
        return entails(facts, f)
    if k == 'or':
        return entails(facts, f)
    return False


def hull(fa, va, fb, vb, t):
    """simple bounds for a join of va and vb"""
    out = []
    ca = set()
    for facts, v in ((fa, va), (fb, vb)):
        for f in facts:
            if f[0] in ('le', 'lt') and (f[1] == v or f[2] == v):
                ca.add((f[0], 'L' if f[1] == v else 'R', f[2] if f[1] == v else f[1], f[3]))
    if va[0] == 'c' and vb[0] == 'c':
        lo, hi = min(va[1], vb[1]), max(va[1], vb[1])
        return [('le', C(lo), t, False), ('le', t, C(hi), False)]
    for c in (va, vb):
        if c[0] == 'c':
            ca.add(('le', 'R', c, False))
            ca.add(('le', 'L', c, False))
    if len(ca) > 12:
        return out
    for op, side, other, F in ca:
        ga = (op, va, other, F) if side == 'L' else (op, other, va, F)
        gb = (op, vb, other, F) if side == 'L' else (op, other, vb, F)
        if entails(fa, ga) and entails(fb, gb):
            out.append((op, t, other, F) if side == 'L' else (op, other, t, F))
    return out


SCALAR = re.compile(r'([iuf]\d+|b)$')


class ModSets:
    """which fields a function may (transitively) assign; which functions are pure"""
    _cache = {}

    @staticmethod
    def of(P):
        k = id(P)
        if k not in ModSets._cache:
            ModSets._cache[k] = ModSets(P)
        return ModSets._cache[k]

    def __init__(self, P):
        self.P = P
        self.direct = {}
        self.calls = {}
        self.rd = {}
        self.extern = {}
        self.known = set(P.fn)
        self.method_sig = {}
        for r in P.rec.values():
            for m in r['ms']:
                self.method_sig[m['id']] = m['ps']
                self.known.add(m['id'])
        for fid, f in P.fn.items():
            mods, calls, reads, ext = set(), set(), set(), False
            nodes = []
            for rootn in [f['body']] + [i.get('e') for i in f.get('inits', [])]:
                if rootn is not None:
                    nodes += list(walk(rootn))
            for i in f.get('inits', []):
                pass
            for n in nodes:
                k = n['k']
                if k in ('asg', 'casg'):
                    self._lhs(n['a'], mods)
                elif k == 'un' and n['op'] in ('++', '--'):
                    self._lhs(n['a'], mods)
                elif k == 'un' and n['op'] == '&':
                    self._lhs(n['a'], mods)
                elif k in ('call', 'mcall', 'opcall', 'ctor'):
                    cid = n.get('id')
                    if cid:
                        calls.add(cid)
                    if cid not in self.known and k != 'ctor':
                        if k == 'mcall' and not n.get('cm') and n.get('n') not in READONLY_METHODS and n.get('o'):
                            self._lhs(n['o'], mods)
                        if k == 'opcall' and n.get('meth') and not n.get('cm') and n['op'] not in ('[]', '->', '*', '()'):
                            if n['as']:
                                self._lhs(n['as'][0], mods)
                        if k == 'call':
                            if strip_tmpl(n.get('qn', '')) not in PURE:
                                ext = True
                                for i, a in enumerate(n['as']):
                                    if a.get('lv') and (i in n.get('mr', ()) or not SCALAR.match(a['t'])):
                                        self._lhs(a, mods)
                elif k == 'mem':
                    reads.add(n['n'])
                elif k == 'delete':
                    pt = n.get('pt', '')
                    for g in P.fn.values():
                        if g['kind'] == 'dtor' and 'R:' + g.get('cls', '') == pt:
                            calls.add(g['id'])
                    ext = True
                elif k in ('new', 'throw'):
                    pass
            self.direct[fid] = mods
            self.calls[fid] = calls
            self.rd[fid] = reads
            self.extern[fid] = ext
        self._eff = {}
        self._reads = {}
        self._wp = {}

    def _lhs(self, n, mods):
        while n is not None:
            if n['k'] == 'mem':
                mods.add(n['n'])
                return
            if n['k'] == 'idx':
                n = n['a']
            elif n['k'] == 'cast':
                n = n['a']
            elif n['k'] == 'un':
                n = n['a']
            elif n['k'] == 'opcall' and n['as']:
                n = n['as'][0]
            elif n['k'] == 'mcall':
                n = n.get('o')
            else:
                return

    def closure(self, fid):
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.P.overriders(x):
                todo.append(y)
            for y in self.calls.get(x, ()):
                if y in self.known:
                    todo.append(y)
        return seen

    def effects(self, fid):
        if fid not in self._eff:
            mods, outp = set(), False
            for x in self.closure(fid):
                mods |= self.direct.get(x, set())
                outp |= self.extern.get(x, False)
            self._eff[fid] = (frozenset(mods), outp)
        return self._eff[fid]

    def reads(self, fid):
        if fid not in self._reads:
            r = set()
            for x in self.closure(fid):
                r |= self.rd.get(x, set())
            self._reads[fid] = frozenset(r)
        return self._reads[fid]

    def is_pure(self, fid):
        mods, ext = self.effects(fid)
        if mods or ext:
            return False
        # bodies must be available
        return all(x in self.P.fn for x in self.closure(fid) if x in self.known) and fid in self.P.fn or False

    def writes_param(self, fid, _, idx):
        """may the function write through its idx-th parameter?"""
        key = (fid, idx)
        if key in self._wp:
            return self._wp[key]
        self._wp[key] = False
        f = self.P.fn.get(fid)
        res = False
        if f is None:
            sig = self.method_sig.get(fid)
            res = True
            if self.P.overriders(fid):
                res = any(self.writes_param(x, 0, idx) for x in self.P.overriders(fid) if x in self.P.fn)
        elif idx < len(f['ps']):
            pid = f['ps'][idx]['id']

            def rooted(n):
                while n is not None:
                    if n['k'] == 'ref':
                        return n.get('id') == pid
                    if n['k'] in ('mem',):
                        n = n['b']
                    elif n['k'] in ('idx', 'cast', 'un'):
                        n = n['a']
                    elif n['k'] == 'opcall' and n['as']:
                        n = n['as'][0]
                    elif n['k'] == 'bin':
                        n = n['a']
                    else:
                        return False
                return False
            for n in walk(f['body']):
                k = n['k']
                if k in ('asg', 'casg') and rooted(n['a']):
                    res = True
                elif k == 'un' and n['op'] in ('++', '--') and rooted(n['a']):
                    res = True
                elif k == 'opcall' and n['as'] and n.get('meth') and not n.get('cm') and rooted(n['as'][0]):
                    res = True
                elif k == 'opcall' and not n.get('meth') and n['as'] and rooted(n['as'][0]) and n['op'] in ('<<', '>>'):
                    res = True
                elif k == 'mcall' and n.get('o') is not None and rooted(n['o']) and not n.get('cm') and \
                        n.get('n') not in READONLY_METHODS:
                    if n.get('id') in self.P.fn and not n.get('o', {}).get('t', '').startswith('*'):
                        res = True
                    elif n.get('id') not in self.known:
                        res = True
                elif k in ('call', 'mcall', 'ctor'):
                    for j, a in enumerate(n['as']):
                        if rooted(a):
                            if n.get('id') in self.known:
                                if self.writes_param(n['id'], 0, j):
                                    res = True
                            elif k == 'call' and strip_tmpl(n.get('qn', '')) not in PURE:
                                res = True
        self._wp[key] = res
        return res
