"""Terms (value numbers), linear normal forms and entailment between facts.

A fact is one of
   ('le',a,b,F)  a <= b      ('lt',a,b,F)  a < b     ('eq',a,b)  ('ne',a,b)
   ('t',x)  x is true        ('f',x)  x is false
with F true for floating point comparisons.  Arithmetic is ideal (unbounded) except that
sign-changing and narrowing conversions stay opaque until the operand is known to fit.
"""
from fractions import Fraction
from functools import lru_cache

C0 = ('c', 0)
C1 = ('c', 1)


def C(n):
    return ('c', n)


def is_c(t):
    return t[0] == 'c'


INT = {}
for w in (8, 16, 32, 64, 128):
    INT['i%d' % w] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    INT['u%d' % w] = (0, (1 << w) - 1)
INT['b'] = (0, 1)


def is_float_t(t):
    return t in ('f32', 'f64', 'f80', 'f128')


def is_int_t(t):
    return t in INT or t.startswith('E:')


def int_range(t):
    return INT.get(t)


@lru_cache(maxsize=None)
def size(t):
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += size(x)
    return n


@lru_cache(maxsize=None)
def subterms(t):
    s = {t}
    for x in t:
        if isinstance(x, tuple):
            s |= subterms(x)
    return frozenset(s)


def contains(t, sub):
    return sub in subterms(t)


@lru_cache(maxsize=200000)
def subst1(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or a not in subterms(t):
        return t
    return tuple(subst1(x, a, b) if isinstance(x, tuple) else x for x in t)


# ---------------------------------------------------------------- construction
def truth(t):
    """constant truth value or None"""
    if t[0] == 'c':
        return t[1] != 0
    if t[0] == 'fc':
        return t[1] != 0
    if t[0] == 's':
        return True
    if t[0] in ('addr', 'new', 'lam', 'fn'):
        return True
    return None


def neg(t):
    k = t[0]
    if k == 'c':
        return C(0 if t[1] else 1)
    if k == 'not':
        return t[1]
    if k == 'lt':
        return ('le', t[2], t[1], t[3])
    if k == 'le':
        return ('lt', t[2], t[1], t[3])
    if k == 'eq':
        return ('ne', t[1], t[2])
    if k == 'ne':
        return ('eq', t[1], t[2])
    if k == 'and':
        return ('or', neg(t[1]), neg(t[2]))
    if k == 'or':
        return ('and', neg(t[1]), neg(t[2]))
    if truth(t) is not None:
        return C(0 if truth(t) else 1)
    return ('not', t)


def is_bool(t):
    return t[0] in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or') or t in (C0, C1)


def cmp_(op, a, b, F=False):
    if op == '>':
        return cmp_('<', b, a, F)
    if op == '>=':
        return cmp_('<=', b, a, F)
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        return cmp_(op, a[2], b[2])
    va, vb = const_num(a), const_num(b)
    if va is not None and vb is not None:
        r = {'<': va < vb, '<=': va <= vb, '==': va == vb, '!=': va != vb}[op]
        return C(int(r))
    if a == b and not F:
        return C(int(op in ('<=', '==')))
    x, y = ptr_split(a), ptr_split(b)
    if x is not None and y is not None and x[0] == y[0]:
        return C(int({'<': x[1] < y[1], '<=': x[1] <= y[1], '==': x[1] == y[1], '!=': x[1] != y[1]}[op]))
    if op == '<':
        return ('lt', a, b, F)
    if op == '<=':
        return ('le', a, b, F)
    if a[0] == 's' and b[0] == 's':
        return C(int((a[1] == b[1]) == (op == '==')))
    for x, y in ((a, b), (b, a)):
        if x[0] in ('min', 'max') and y in x[1:] and not is_float_t(TYPES.get(x, 'f64')):
            o = x[2] if x[1] == y else x[1]
            r = cmp_('<=', y, o) if x[0] == 'min' else cmp_('<=', o, y)
            return r if op == '==' else neg(r)
    # pointer identities
    if a[0] == 'new' and b[0] == 'new' and a[2] != b[2]:
        return C(int(op == '!='))
    for x, y in ((a, b), (b, a)):
        if y == C0 and truth(x) is True and x[0] in ('addr', 'new', 'lam', 'fn', 's'):
            return C(int(op == '!='))
        if y == C0 and is_bool(x):
            return neg(x) if op == '==' else x
        if y == C1 and is_bool(x):
            return x if op == '==' else neg(x)
    if a[0] == 'c' or (b[0] != 'c' and repr(a) > repr(b)):
        a, b = b, a
    if a[0] == 'ite':
        # comparison of a selection with a constant
        if b[0] == 'c' and a[2][0] == 'c' and a[3][0] == 'c':
            x, y = a[2][1] == b[1], a[3][1] == b[1]
            if op == '!=':
                x, y = not x, not y
            if x and y:
                return C1
            if not x and not y:
                return C0
            return a[1] if x else neg(a[1])
    return ('eq' if op == '==' else 'ne', a, b)


def const_num(t):
    if t[0] == 'c':
        return Fraction(t[1])
    if t[0] == 'fc':
        try:
            return Fraction(t[1])
        except (ValueError, OverflowError):
            return None
    if t[0] == 'i2f':
        return const_num(t[2])
    return None


def arith(op, a, b, ty=None):
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        r = None
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        elif op == '/' and y:
            r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif op == '%' and y:
            r = x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
        elif op == '<<' and 0 <= y < 128:
            r = x << y
        elif op == '>>' and 0 <= y < 128:
            r = x >> y
        elif op == '&':
            r = x & y
        elif op == '|':
            r = x | y
        elif op == '^':
            r = x ^ y
        if r is not None:
            return C(wrap(r, ty))
    if b == C0 and op in ('+', '-', '|', '^', '<<', '>>'):
        return a
    if a == C0 and op in ('+', '|', '^'):
        return b
    if op == '*' and (a == C1 or b == C1):
        return b if a == C1 else a
    if op in ('+', '*', '&', '|', '^') and (a[0] == 'c' or (b[0] != 'c' and repr(a) > repr(b))) and not (
            op == '+' and (is_ptrterm(a) or is_ptrterm(b))):
        a, b = b, a
    if op == '-':
        x, y = ptr_split(a), ptr_split(b)
        if x is not None and y is not None and x[0] == y[0]:
            return C(x[1] - y[1])
    t = ('op', op, a, b)
    if size(t) > 250:
        return ('big', hash(t))
    return t


def ptr_split(t):
    """a pointer into a known object: (object, constant offset)"""
    if is_ptrterm(t):
        return t, 0
    if t[0] == 'op' and t[1] == '+' and len(t) == 4 and t[3][0] == 'c' and is_ptrterm(t[2]):
        return t[2], t[3][1]
    return None


def is_ptrterm(t):
    return t[0] in ('addr', 'new')


def wrap(v, ty):
    r = INT.get(ty)
    if not r:
        return v
    lo, hi = r
    if lo <= v <= hi:
        return v
    m = hi - lo + 1
    v %= m
    if v > hi:
        v -= m
    return v


def ite(c, a, b):
    if a == b:
        return a
    tv = truth(c)
    if tv is not None:
        return a if tv else b
    if a == C1 and b == C0 and is_bool(c):
        return c
    if a == C0 and b == C1:
        return neg(c)
    if is_bool(a) and b == C0:
        return ('and', c, a)
    if is_bool(b) and a == C1:
        return ('or', c, b)
    if is_bool(b) and a == C0:
        return ('and', neg(c), b)
    if is_bool(a) and b == C1:
        return ('or', neg(c), a)
    t = ('ite', c, a, b)
    if size(t) > 200:
        return ('big', hash(t))
    return t


# ---------------------------------------------------------------- linear forms
# a linear form is (const, {atom: coef}) as nested hashable: (Fraction, frozenset((atom,coef)))
def _mk(c, d):
    return (c, frozenset((k, v) for k, v in d.items() if v))


def lin_add(x, y, s=1):
    d = dict(x[1])
    for k, v in y[1]:
        d[k] = d.get(k, 0) + s * v
    return _mk(x[0] + s * y[0], d)


def lin_scale(x, s):
    return _mk(x[0] * s, {k: v * s for k, v in x[1]})


@lru_cache(maxsize=200000)
def lin(t, nonneg=frozenset()):
    """linear form; `nonneg`: terms known to be >= 0 (lets conversions to unsigned dissolve)"""
    k = t[0]
    if k == 'c':
        return (Fraction(t[1]), frozenset())
    if k == 'fc':
        try:
            return (Fraction(t[1]), frozenset())
        except (ValueError, OverflowError):
            return (Fraction(0), frozenset([(t, Fraction(1))]))
    if k == 'op':
        op, a, b = t[1], t[2], t[3]
        if op in ('+', '-'):
            return lin_add(lin(a, nonneg), lin(b, nonneg), 1 if op == '+' else -1)
        if op == '*':
            la, lb = lin(a, nonneg), lin(b, nonneg)
            if not la[1]:
                return lin_scale(lb, la[0])
            if not lb[1]:
                return lin_scale(la, lb[0])
        if op in ('/', '>>'):
            lb = lin(b, nonneg)
            if not lb[1] and lb[0] > 0:
                d = lb[0] if op == '/' else Fraction(2) ** int(lb[0])
                la = lin(a, nonneg)
                if la[1] and d.denominator == 1:
                    return (Fraction(0), frozenset([(('div', la, int(d)), Fraction(1))]))
        if op == '%' or op == '&':
            lb = lin(b, nonneg)
            if not lb[1]:
                d = lb[0]
                ok = True
                if op == '&':
                    d = d + 1
                    ok = d > 0 and d.denominator == 1 and (int(d) & (int(d) - 1)) == 0
                if ok and d > 0:
                    la = lin(a, nonneg)
                    if la[1] and d.denominator == 1:
                        q = (('div', la, int(d)), Fraction(1))
                        return lin_add(la, (Fraction(0), frozenset([q])), -d)
            if op == '&' and b[0] == 'op':
                pass
        if op == '<<':
            lb = lin(b, nonneg)
            if not lb[1] and 0 <= lb[0] < 128:
                return lin_scale(lin(a, nonneg), Fraction(2) ** int(lb[0]))
    if k == 'neg':
        return lin_scale(lin(t[1], nonneg), Fraction(-1))
    if k == 'i2f' or k == 'f2f':
        return lin(t[2], nonneg)
    if k == 'cast':
        _, to, fr, a = t
        rt, rf = INT.get(to), INT.get(fr)
        if rt and rf:
            if rt[0] <= rf[0] and rf[1] <= rt[1]:
                return lin(a, nonneg)
            r = rng(a)
            if r and rt[0] <= r[0] and r[1] <= rt[1]:
                return lin(a, nonneg)
            if a in nonneg and rt[1] >= rf[1]:
                return lin(a, nonneg)
            if ('negative', a) in nonneg and rt[0] == 0 and rt[1] >= rf[1]:
                return lin_add(lin(a, nonneg), (Fraction(rt[1] + 1), frozenset()))
            if to == 'i64' and fr == 'u64':
                # sizes and positions: ideal arithmetic
                return lin(a, nonneg)
    if k == 'addr':
        pass
    return (Fraction(0), frozenset([(t, Fraction(1))]))


@lru_cache(maxsize=100000)
def rng(t):
    """crude value range from the term's shape"""
    k = t[0]
    if k == 'c':
        return (t[1], t[1])
    if k == 'cast':
        r = rng(t[3])
        rt = INT.get(t[1])
        if rt:
            if r and rt[0] <= r[0] and r[1] <= rt[1]:
                return r
            return rt
    if k == 'ld' or k == 'v' or k == 'phi' or k == 'sym':
        ty = TYPES.get(t)
        if ty:
            return INT.get(ty)
    if k == 'op':
        a, b = rng(t[2]), rng(t[3])
        if t[1] == '&':
            for r in (a, b):
                if r and r[0] == r[1] and r[0] >= 0:
                    return (0, r[0])
            if a and b and a[0] >= 0 and b[0] >= 0:
                return (0, min(a[1], b[1]))
        if a and b:
            if t[1] == '+':
                return (a[0] + b[0], a[1] + b[1])
            if t[1] == '-':
                return (a[0] - b[1], a[1] - b[0])
            if t[1] == '*':
                c = [x * y for x in a for y in b]
                return (min(c), max(c))
            if t[1] in ('/', '>>') and a[0] >= 0:
                if b[0] == b[1] and b[0] > 0:
                    d = b[0] if t[1] == '/' else 1 << b[0]
                    return (a[0] // d, a[1] // d)
                return (0, a[1])
            if t[1] == '%' and a[0] >= 0 and b[0] == b[1] and b[0] > 0:
                return (0, min(a[1], b[0] - 1))
    if k == 'm' and t[1] in ('size', 'length', 'capacity'):
        return INT['u64']
    if k == 'ite':
        a, b = rng(t[2]), rng(t[3])
        if a and b:
            return (min(a[0], b[0]), max(a[1], b[1]))
    if k in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or'):
        return (0, 1)
    return None


# term -> type code, filled by the interpreter for loads and fresh values
class _Types(dict):
    """a name may stand for something else in the next function analysed; what was derived from its type goes with it"""

    def __setitem__(self, t, ty):
        old = self.get(t)
        if old != ty:
            dict.__setitem__(self, t, ty)
            if old is not None or t[0] == 'sym':
                rng.cache_clear()
                lin.cache_clear()
                _prep.cache_clear()


TYPES = _Types()


# ---------------------------------------------------------------- entailment
def fact_norm(f):
    """split a boolean term known to be true into atomic facts"""
    k = f[0]
    if k == 'and':
        return fact_norm(f[1]) + fact_norm(f[2])
    if k == 'not':
        x = f[1]
        if x[0] in ('lt', 'le', 'eq', 'ne', 'and', 'or'):
            return fact_norm(neg(x))
        return [('f', x)]
    if k == 'c':
        return []
    if k in ('lt', 'le', 'eq', 'ne', 'or'):
        return [f]
    if k == 'ite':
        _, c, a, b = f
        if truth(a) is False:
            return fact_norm(neg(c)) + fact_norm(b)
        if truth(b) is False:
            return fact_norm(c) + fact_norm(a)
    return [('t', f)]


def _cons(f, nn):
    """linear constraints [ (lin, strict) ] meaning lin <= 0 / < 0"""
    k = f[0]
    if k in ('lt', 'le'):
        d = lin_add(lin(f[1], nn), lin(f[2], nn), -1)
        if k == 'lt':
            if f[3]:
                return [(d, True)]
            return [((d[0] + 1, d[1]), False)]
        return [(d, False)]
    if k == 'eq':
        d = lin_add(lin(f[1], nn), lin(f[2], nn), -1)
        return [(d, False), (lin_scale(d, Fraction(-1)), False)]
    return []


def _atoms(l):
    return [a for a, _ in l[1]]


def _side(atom, nn):
    """facts that hold of an atom by itself"""
    out = []
    k = atom[0]
    one = (Fraction(0), frozenset([(atom, Fraction(1))]))
    r = None
    if k == 'div':
        la, d = atom[1], atom[2]
        # d*q <= a <= d*q + d-1   (operands are sizes / positions: non-negative)
        q = lin_scale(one, Fraction(d))
        out.append((lin_add(q, la, -1), False))
        x = lin_add(la, q, -1)
        out.append(((x[0] - (d - 1), x[1]), False))
        out.append((lin_scale(one, Fraction(-1)), False))
        return out
    if k in ('min', 'max'):
        for x in atom[1:]:
            l = lin(x, nn)
            out.append((lin_add(one, l, -1) if k == 'min' else lin_add(l, one, -1), False))
    r = rng(atom) if isinstance(atom, tuple) else None
    if r:
        out.append((lin_add((Fraction(r[0]), frozenset()), one, -1), False))
        out.append((lin_add(one, (Fraction(r[1]), frozenset()), -1), False))
    return out


def _fm_infeasible(cons, limit=400):
    """Fourier-Motzkin: True if the constraints have no rational solution"""
    cons = list(dict.fromkeys(cons))
    for _ in range(40):
        for l, s in cons:
            if not l[1] and (l[0] > 0 or (s and l[0] >= 0)):
                return True
        cons = [c for c in cons if c[0][1]]
        if not cons:
            return False
        # choose variable with the smallest product
        cnt = {}
        for l, s in cons:
            for a, v in l[1]:
                p = cnt.setdefault(a, [0, 0])
                p[0 if v > 0 else 1] += 1
        var = min(cnt, key=lambda a: (cnt[a][0] * cnt[a][1], repr(a)))
        pos, ng, rest = [], [], []
        for l, s in cons:
            co = dict(l[1]).get(var)
            if co is None:
                rest.append((l, s))
            elif co > 0:
                pos.append((l, s, co))
            else:
                ng.append((l, s, -co))
        new = []
        for l1, s1, c1 in pos:
            for l2, s2, c2 in ng:
                x = lin_add(lin_scale(l1, Fraction(1) / c1), lin_scale(l2, Fraction(1) / c2))
                new.append((x, s1 or s2))
        cons = list(dict.fromkeys(rest + new))
        if len(cons) > limit:
            return False
    return False


_ENT = {}


def entails(facts, goal):
    """do the facts imply the boolean term `goal`?"""
    if _CASES[0]:
        return _entails(facts, goal)
    key = (facts, goal)
    r = _ENT.get(key)
    if r is None:
        r = _entails(facts, goal)
        if len(_ENT) > 400000:
            _ENT.clear()
        _ENT[key] = r
    return r


def _entails(facts, goal):
    tv = truth(goal)
    if tv is not None:
        return tv
    k = goal[0]
    if k == 'and':
        return entails(facts, goal[1]) and entails(facts, goal[2])
    if k == 'or':
        if goal in facts:
            return True
        if entails(facts, goal[1]) or entails(facts, goal[2]):
            return True
        # a or b  <=  (not a  =>  b)
        nf = fact_norm(neg(goal[1]))
        return entails(frozenset(set(facts) | set(nf)), goal[2])
    if k == 'not':
        x = goal[1]
        if ('f', x) in facts or goal in facts:
            return True
        if x[0] in ('lt', 'le', 'eq', 'ne', 'and', 'or'):
            return entails(facts, neg(x))
        if entails_num(facts, ('eq', x, C0)):
            return True
        return _by_cases(facts, goal)
    if goal in facts:
        return True
    if k in ('lt', 'le', 'eq', 'ne'):
        if k == 'ne':
            a, b = goal[1], goal[2]
            if b == C0 and (('t', a) in facts):
                return True
            if ('eq', a, b) in facts:
                return False
            if entails_num(facts, ('lt', a, b, False)) or entails_num(facts, ('lt', b, a, False)):
                return True
            return _by_cases(facts, goal)
        if k == 'eq' and goal[2] == C0 and ('f', goal[1]) in facts:
            return True
        return entails_num(facts, goal) or _by_cases(facts, goal)
    # plain boolean atom
    if ('t', goal) in facts:
        return True
    if ('ne', goal, C0) in facts or ('eq', goal, C1) in facts:
        return True
    return _by_cases(facts, goal)


_CASES = [0]
_leafcache = {}


def _leaves(t):
    """the loads and symbols a term talks about"""
    r = _leafcache.get(t)
    if r is None:
        r = frozenset(x for x in subterms(t) if x and x[0] in ('ld', 'sym', 'v', 'phi', 'm', 'pc', 'ite'))
        _leafcache[t] = r
    return r


def _by_cases(facts, goal):
    """use a recorded disjunction that shares a value with the goal (one level)"""
    if _CASES[0] > 0:
        return False
    if goal[0] in ('lt', 'le', 'eq') and not isinstance(goal[1], str):
        for side in (1, 2):
            x = next((y for y in (goal[side],) + tuple(z for z in goal[side][1:] if isinstance(z, tuple)) if y[0] == 'ite'), None)
            if x is None or not is_bool(x[1]):
                continue
            _CASES[0] += 1
            try:
                ok = True
                for br, v in ((x[1], x[2]), (neg(x[1]), x[3])):
                    fs = frozenset(facts | set(fact_norm(br)))
                    g = goal[:side] + (subst1(goal[side], x, v),) + goal[side + 1:]
                    if not (_entails(fs, g) or contradictory(fs, br)):
                        ok = False
                        break
                if ok:
                    return True
            finally:
                _CASES[0] -= 1
    ors = [f for f in facts if f[0] == 'or']
    if not ors:
        return False
    gs = _leaves(goal)
    ors = [f for f in ors if _leaves(f) & gs]
    if not ors or len(ors) > 6:
        return False
    _CASES[0] += 1
    try:
        for f in ors:
            rest = facts - {f}
            ok = True
            for br in (f[1], f[2]):
                fs = frozenset(rest | set(fact_norm(br)))
                if not (_entails(fs, goal) or contradictory(fs, br)):
                    ok = False
                    break
            if ok:
                return True
    finally:
        _CASES[0] -= 1
    return False


def contradictory(facts, focus):
    """do the facts contradict the (just assumed) term?"""
    rest = facts - frozenset(fact_norm(focus))
    return _entails(rest, neg(focus))


@lru_cache(maxsize=20000)
def _prep(facts):
    """(terms known non-negative, linear constraints) of a fact set"""
    nn = set()
    for f in facts:
        if f[0] in ('le', 'lt') and f[1][0] == 'c' and f[1][1] >= (0 if f[0] == 'le' else -1):
            nn.add(f[2])
        if f[0] in ('le', 'lt') and f[2][0] == 'c' and f[2][1] <= (-1 if f[0] == 'le' else 0):
            nn.add(('negative', f[1]))
        if f[0] == 'eq' and f[2][0] == 'c' and f[2][1] >= 0:
            nn.add(f[1])
        if f[0] in ('le', 'lt') and f[1][0] != 'c':
            r = rng(f[1])
            if r and r[0] >= 0:
                nn.add(f[2])
    nn = frozenset(nn)
    allc = []
    for f in facts:
        for c in _cons(f, nn):
            allc.append(c)
    return nn, allc


def entails_num(facts, goal):
    a, b = goal[1], goal[2]
    nn, allc = _prep(facts)
    strictf = goal[0] == 'lt' and len(goal) > 3 and goal[3]
    if goal[0] == 'eq':
        return entails_num(facts, ('le', a, b, False)) and entails_num(facts, ('le', b, a, False))
    d = lin_add(lin(a, nn), lin(b, nn), -1)   # want d <= 0 (or < 0)
    if not d[1]:
        return d[0] < 0 if goal[0] == 'lt' else d[0] <= 0
    # negated goal
    if goal[0] == 'lt':
        ng = (lin_scale(d, Fraction(-1)), False)
    elif len(goal) > 3 and goal[3]:
        ng = (lin_scale(d, Fraction(-1)), True)
    else:
        x = lin_scale(d, Fraction(-1))
        ng = ((x[0] + 1, x[1]), False)
    # relevance closure
    rel = [ng]
    atoms = set(_atoms(ng[0]))
    used = set()
    for _ in range(4):
        grew = False
        for i, c in enumerate(allc):
            if i in used:
                continue
            if any(x in atoms for x in _atoms(c[0])):
                used.add(i)
                rel.append(c)
                grew = True
                for x in _atoms(c[0]):
                    atoms.add(x)
        sides = []
        for x in list(atoms):
            for c in _side(x, nn):
                if c not in rel:
                    rel.append(c)
                    grew = True
                    for y in _atoms(c[0]):
                        atoms.add(y)
        if not grew or len(rel) > 80:
            break
    return _fm_infeasible(rel)


def bounds(facts, t):
    """best constant bounds of t derivable from single facts (lo, hi) or None"""
    lo = hi = None
    r = rng(t)
    if r:
        lo, hi = r
    return lo, hi
