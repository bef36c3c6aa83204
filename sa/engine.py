"""Path-sensitive interprocedural dataflow over LLVM IR.

An abstract interpreter in the style of ESP/property simulation.  The abstract
state is (register values, memory cells, branch facts, checker automaton).
Values live in a value-numbering domain: integer constants, linear forms over
interned opaque terms, comparison terms.  Facts are intervals / excluded values
/ remembered comparison outcomes; there is no solver and nothing is executed.
States that reach the same block with equal live parts are merged; loops are
followed a bounded number of times (constant-trip loops to completion), and the
number of dropped states is reported.  Callees are inlined (context-sensitive);
modelled interfaces fork into their outcomes (success / each failure).
"""
import heapq
import sys
import time
from front import AnalysisError

sys.setrecursionlimit(20000)


EMPTY = frozenset()


class T:
    """interned term; fl = the fresh (not re-derivable) leaves it is built from"""
    __slots__ = ('k', 'a', 'id', 'fl')

    def __repr__(self):
        return show(self)


_intern = {}


def mk(k, *a):
    key = (k,) + a
    t = _intern.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_intern)
        if k == 'sym' or k == 'obj':
            t.fl = frozenset((t,))
        elif k == 'lin':
            fl = EMPTY
            for x, _ in a[0]:
                if x.fl:
                    fl = fl | x.fl if fl else x.fl
            t.fl = fl
        else:
            fl = EMPTY
            for x in a:
                if x.__class__ is T and x.fl:
                    fl = fl | x.fl if fl else x.fl
            t.fl = fl
        _intern[key] = t
    return t


def reset_terms():
    _intern.clear()


def show(v, d=0):
    if isinstance(v, int) or v is None:
        return str(v)
    if d > 6:
        return '..'
    k = v.k
    if k in ('sym', 'arg', 'g', 'f'):
        return str(v.a[0]) if k != 'sym' else f'{v.a[0]}'
    if k == 'obj':
        return f'obj<{v.a[0]}>'
    if k == 'ld':
        return f'[{show(v.a[0], d + 1)}+{v.a[1]}]'
    if k == 'lin':
        s = '+'.join((f'{c}*' if c != 1 else '') + show(t, d + 1) for t, c in v.a[0])
        return f'({s}{"+" + str(v.a[1]) if v.a[1] else ""})'
    return k + '(' + ','.join(show(x, d + 1) if isinstance(x, (T, int)) else str(x) for x in v.a) + ')'


# ----------------------------------------------------------------- arithmetic
def wrap(v, w):
    m = 1 << w
    v &= m - 1
    if w > 1 and v >> (w - 1):
        v -= m
    return v


def uns(v, w):
    return v & ((1 << w) - 1)


def lin_parts(v):
    """-> (dict term->coef, const)"""
    if isinstance(v, int):
        return {}, v
    if v.k == 'lin':
        return dict(v.a[0]), v.a[1]
    return {v: 1}, 0


def lin_make(d, c):
    it = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    c = wrap(c, 64)
    if not it:
        return c
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    return mk('lin', it, c)


def add(a, b, sign=1, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a + sign * b, w)
    if isinstance(b, int):
        if b == 0:
            return a
    d, c = lin_parts(a)
    d2, c2 = lin_parts(b)
    if len(d) + len(d2) > 8:
        return mk('op', 'add' if sign == 1 else 'sub', w, a, b)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + sign * k
    return lin_make(d, c + sign * c2)


def scale(a, k, w=64):
    if isinstance(a, int):
        return wrap(a * k, w)
    if k == 1:
        return a
    if k == 0:
        return 0
    d, c = lin_parts(a)
    return lin_make({t: x * k for t, x in d.items()}, c * k)


def split(v):
    """address value -> (base term, const offset); ints have base 0"""
    if isinstance(v, int):
        return 0, v
    if v.k == 'lin':
        c = v.a[1]
        if c:
            return lin_make(dict(v.a[0]), 0), c
        return v, 0
    return v, 0


def lin_off(k):
    return add(k[0], k[1])


def root_of(base):
    """the pointer-like component of an address base"""
    if isinstance(base, int):
        return base
    if base.k == 'lin':
        best = None
        for t, c in base.a[0]:
            if c == 1:
                if t.k in ('obj', 'g'):
                    return t
                if t.k in ('ld', 'arg', 'sym') and best is None:
                    best = t
        return best if best is not None else base
    return base


def subterms(v, out):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, T) and x not in out:
            out.add(x)
            if x.k == 'lin':
                for t, _ in x.a[0]:
                    st.append(t)
            else:
                for y in x.a:
                    if isinstance(y, T):
                        st.append(y)
    return out


OPAQUE = frozenset(('op', 'cast', 'cmp', 'not', 'lin', 'sym', 'ld', 'undef', 'uninit'))
NNMARK = ('nonnull',)
ANYMARK = ('any',)
ALWAYS_NN = ('obj', 'g', 'f')


class Inter:
    """interval fact: signed [sl,sh], unsigned lower bound ul / upper uh, excluded set"""
    __slots__ = ('sl', 'sh', 'ul', 'uh', 'ex')

    def __init__(self, sl=None, sh=None, ul=0, uh=None, ex=frozenset()):
        self.sl = sl; self.sh = sh; self.ul = ul; self.uh = uh; self.ex = ex

    def key(self):
        return (self.sl, self.sh, self.ul, self.uh, self.ex)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f'<{self.sl}..{self.sh} u{self.ul}..{self.uh} !{set(self.ex)}>'

    def const(self):
        if self.sl is not None and self.sl == self.sh:
            return self.sl
        if self.uh is not None and self.ul == self.uh:
            return self.ul
        return None


class State:
    __slots__ = ('mem', 'facts', 'ts', 'dead', 'trace')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ts = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.facts = self.facts.copy()
        s.ts = self.ts.copy()
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.ts.items()))

    def note(self, what):
        self.trace = (what, self.trace)

    def tracelist(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]


# ------------------------------------------------------------------ facts
def get_fact(st, t):
    return st.facts.get(t)


def known_const(st, v):
    if isinstance(v, int):
        return v
    f = st.facts.get(v)
    if f.__class__ is Inter:
        return f.const()
    return None


def nonnull(st, v):
    if isinstance(v, int):
        return v != 0
    k = v.k
    if k in ALWAYS_NN:
        return True
    if k == 'lin':
        f = st.facts.get(v)
        if f.__class__ is Inter and (0 in f.ex or f.ul > 0 or (f.sl is not None and f.sl > 0)):
            return True
        base, c = split(v)
        if c == 0 and len(v.a[0]) == 1 and v.a[0][0][1] == -1:
            return nonnull(st, v.a[0][0][0])
        r = root_of(base)
        if isinstance(r, T) and r.k in ALWAYS_NN:
            return True
        if isinstance(base, T) and base is not v:
            return nonnull(st, base)
        if r is not base and isinstance(r, T) and r.k != 'lin':
            return nonnull(st, r)
        return False
    f = st.facts.get(v)
    if f.__class__ is Inter:
        if 0 in f.ex or f.ul > 0 or (f.sl is not None and f.sl > 0) or (f.sh is not None and f.sh < 0):
            return True
    if k == 'cast' and v.a[0] in ('zext', 'sext'):
        return nonnull(st, v.a[3])
    if k == 'op' and v.a[0] == 'and':
        # an object's address rounded to an alignment
        for p, m in ((v.a[2], v.a[3]), (v.a[3], v.a[2])):
            if isinstance(p, T) and (isinstance(m, int) and m < 0 or
                                     isinstance(m, T) and m.k == 'op' and m.a[0] == 'xor' and -1 in m.a):
                r = root_of(split(p)[0])
                if isinstance(r, T) and r.k in ALWAYS_NN:
                    return True
    return False


PRED_NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
            'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
PRED_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
             'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def canon(pred, a, b):
    """-> (pred in {eq,slt,ult}, a, b, negated)"""
    if pred == 'ne':
        p, x, y, n = canon('eq', a, b)
        return p, x, y, not n
    if pred == 'eq':
        if isinstance(a, int) or (isinstance(b, T) and b.id < a.id):
            a, b = b, a
        return 'eq', a, b, False
    if pred in ('sgt', 'ugt'):
        return pred[0] + 'lt', b, a, False
    if pred in ('sge', 'uge'):
        return pred[0] + 'lt', a, b, True
    if pred in ('sle', 'ule'):
        return pred[0] + 'lt', b, a, True
    return pred, a, b, False


def simp_cmp(pred, a, b, w):
    """peel casts / offsets before comparing with a constant"""
    for _ in range(8):
        if isinstance(a, int) and isinstance(b, T):
            a, b = b, a
            pred = PRED_SWAP[pred]
        if isinstance(b, int) and isinstance(a, T):
            if a.k == 'cast' and a.a[0] in ('zext', 'sext'):
                iw = a.a[1]
                inner = a.a[3]
                lo, hi = (0, (1 << iw) - 1) if a.a[0] == 'zext' else (-(1 << (iw - 1)), (1 << (iw - 1)) - 1)
                if lo <= b <= hi:
                    if a.a[0] == 'zext' and pred[0] == 's':
                        pred = 'u' + pred[1:]
                    a = inner
                    b = wrap(b, iw)
                    w = iw
                    continue
                if pred == 'eq':
                    return ('const', False)
                if pred == 'ne':
                    return ('const', True)
            if a.k == 'lin' and pred in ('eq', 'ne') and a.a[1] != 0 and len(a.a[0]) == 1 and a.a[0][0][1] == 1:
                # x + c == b  <=> x == b - c
                b = wrap(b - a.a[1], 64)
                a = a.a[0][0][0]
                continue
            if a.k == 'cmp':
                # (bool term) ==/!= const
                if pred in ('eq', 'ne') and b in (0, 1, -1):
                    want = (b != 0) == (pred == 'eq')
                    return ('bool', a, want)
                if pred in ('ugt',) and b == 0:
                    return ('bool', a, True)
        break
    return ('cmp', pred, a, b, w)


def diff_const(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return None
    d = add(a, b, -1)
    return d if isinstance(d, int) else None


def ulow(st, t):
    """known unsigned lower bound"""
    f = st.facts.get(t)
    lo = 0
    if f.__class__ is Inter:
        lo = f.ul
        if lo == 0 and 0 in f.ex:
            lo = 1
    if lo == 0 and nonnull(st, t):
        lo = 1
    return lo


def eval_cmp(st, pred, a, b, w):
    """True / False / None"""
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 'u':
            x, y = uns(a, w), uns(b, w)
        else:
            x, y = a, b
        op = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
    if a is b:
        return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
    ca, cb = known_const(st, a), known_const(st, b)
    if ca is not None and cb is not None and not (isinstance(a, int) and isinstance(b, int)):
        return eval_cmp(st, pred, ca, cb, w)
    p, x, y, neg = canon(pred, a, b)
    m = st.facts.get(('c', p, x, y))
    if m is not None:
        return m ^ neg
    if p == 'eq':
        if isinstance(y, int):
            if y == 0 and nonnull(st, x):
                return neg
            if w == 64 and -4096 <= y < 4096:
                r = root_of(split(x)[0])
                if isinstance(r, T) and r.k in ALWAYS_NN and (r is x or x.k == 'lin'):
                    return neg
            f = st.facts.get(x)
            if f.__class__ is Inter:
                if y in f.ex:
                    return neg
                if f.sl is not None and y < f.sl or f.sh is not None and y > f.sh:
                    return neg
                uy = uns(y, w)
                if uy < f.ul or (f.uh is not None and uy > f.uh):
                    return neg
        elif isinstance(x, T) and isinstance(y, T):
            dc = diff_const(x, y)
            if dc is not None:
                return (dc == 0) ^ neg
            bx, by = root_of(split(x)[0]), root_of(split(y)[0])
            if isinstance(bx, T) and isinstance(by, T) and bx is not by:
                if bx.k in ALWAYS_NN and by.k in ALWAYS_NN:
                    return neg
                # a fresh object cannot equal a pointer known before it was made
                if (bx.k == 'obj' and by.k in ('arg', 'ld')) or (by.k == 'obj' and bx.k in ('arg', 'ld')):
                    return neg
            if ca == 0 and nonnull(st, y) or cb == 0 and nonnull(st, x):
                return neg
        # ult both ways recorded
        if isinstance(y, int):
            return None
        m1 = st.facts.get(('c', 'ult', x, y)) or st.facts.get(('c', 'ult', y, x)) or \
            st.facts.get(('c', 'slt', x, y)) or st.facts.get(('c', 'slt', y, x))
        if m1:
            return neg
        for o in ('ult', 'slt'):
            if st.facts.get(('c', o, x, y)) is False and st.facts.get(('c', o, y, x)) is False:
                return not neg
        return None
    # lt
    signed = p == 'slt'
    if isinstance(y, int) or cb is not None and not isinstance(x, int):
        yv = y if isinstance(y, int) else known_const(st, y)
        if yv is None:
            return None
        r = lt_const(st, x, yv, signed, w)
        return None if r is None else r ^ neg
    if isinstance(x, int) or known_const(st, x) is not None:
        xv = x if isinstance(x, int) else known_const(st, x)
        # xv < y  <=> not (y <= xv) <=> not (y < xv+1)
        if signed:
            r = lt_const(st, y, xv + 1, True, w)
        else:
            ux = uns(xv, w)
            if ux == (1 << w) - 1:
                return False ^ neg
            r = lt_const(st, y, ux + 1, False, w)
        return None if r is None else (not r) ^ neg
    if not signed and isinstance(x, T) and isinstance(y, T):
        # positions inside one allocated object: address arithmetic there does not wrap
        d1, d2 = lin_parts(x)[0], lin_parts(y)[0]
        if any(t.k == 'obj' and c == 1 and d2.get(t) == 1 for t, c in d1.items()):
            d = add(y, x, -1)
            dd, dc = lin_parts(d)
            if all(c > 0 for c in dd.values()) and dc + sum(c * ulow(st, t) for t, c in dd.items()) >= 1:
                return True ^ neg
            if all(c < 0 for c in dd.values()) and dc + sum(c * ulow(st, t) for t, c in dd.items()) <= 0:
                return False ^ neg
    # implied by equality or the reverse strict fact
    if st.facts.get(('c', p, y, x)):
        return neg
    e = st.facts.get(('c',) + canon('eq', x, y)[:3])
    if e:
        return neg
    return None


def lt_const(st, x, c, signed, w):
    f = st.facts.get(x)
    if isinstance(x, T) and x.k == 'cast' and x.a[0] == 'zext' and not signed:
        if c > (1 << x.a[1]) - 1:
            return True
    if isinstance(x, T) and x.k == 'op' and x.a[0] == 'and' and not signed and isinstance(x.a[3], int) and x.a[3] >= 0:
        if x.a[3] < uns(c, w):
            return True
    if signed:
        if x.__class__ is T and x.k == 'lin' and f.__class__ is not Inter and len(x.a[0]) == 1 and x.a[0][0][1] in (1, -1):
            # k +- t with t in a small range
            t, s = x.a[0][0]
            g = st.facts.get(t)
            if g.__class__ is Inter and g.sl is not None and g.sh is not None and max(abs(g.sl), abs(g.sh), abs(x.a[1])) < 1 << 31:
                lo, hi = (g.sl, g.sh) if s == 1 else (-g.sh, -g.sl)
                if hi + x.a[1] < c:
                    return True
                if lo + x.a[1] >= c:
                    return False
        if f.__class__ is Inter:
            if f.sh is not None and f.sh < c:
                return True
            if f.sl is not None and f.sl >= c:
                return False
            if f.uh is not None and f.uh < (1 << (w - 1)):
                if f.ul >= c:
                    return False
                if f.uh < c:
                    return True
        return None
    c = uns(c, w) if c < 0 else c
    if c == 0:
        return False
    if f.__class__ is Inter:
        if f.ul >= c:
            return False
        if f.uh is not None and f.uh < c:
            return True
        if f.sl is not None and f.sl >= 0 and f.sh is not None and f.sh < c:
            return True
        if f.sl is not None and f.sl >= c and f.sh is not None:
            return False
        if c == 1 and nonnull(st, x):
            return False
    elif c == 1 and nonnull(st, x):
        return False
    return None


def assume(st, pred, a, b, w):
    """record that pred(a,b) holds; returns False if contradictory"""
    r = eval_cmp(st, pred, a, b, w)
    if r is not None:
        return r
    p, x, y, neg = canon(pred, a, b)
    if p == 'eq' and isinstance(y, int):
        f = st.facts.get(x)
        if f.__class__ is not Inter:
            f = Inter()
        if not neg:
            st.facts[x] = Inter(y, y, uns(y, w), uns(y, w))
        else:
            st.facts[x] = Inter(f.sl, f.sh, f.ul, f.uh, f.ex | {y})
        if isinstance(x, T) and x.k == 'cmp':
            pass
        return True
    if p == 'eq':
        st.facts[('c', p, x, y)] = not neg
        if not neg:
            for u, v in ((x, y), (y, x)):
                c = known_const(st, u)
                if c is not None:
                    st.facts[v] = Inter(c, c, uns(c, w), uns(c, w))
                elif nonnull(st, u) and not nonnull(st, v):
                    f = st.facts.get(v)
                    if f.__class__ is not Inter:
                        f = Inter()
                    st.facts[v] = Inter(f.sl, f.sh, f.ul, f.uh, f.ex | {0})
        return True
    signed = p == 'slt'
    cx = x if isinstance(x, int) else known_const(st, x)
    cy = y if isinstance(y, int) else known_const(st, y)
    if cy is not None and isinstance(x, T):
        f = st.facts.get(x)
        if f.__class__ is not Inter:
            f = Inter()
        if signed:
            if not neg:
                sh = cy - 1 if f.sh is None else min(f.sh, cy - 1)
                st.facts[x] = tight(Inter(f.sl, sh, f.ul, f.uh, f.ex))
            else:
                sl = cy if f.sl is None else max(f.sl, cy)
                st.facts[x] = tight(Inter(sl, f.sh, f.ul, f.uh, f.ex))
        else:
            c = uns(cy, w)
            if not neg:
                uh = c - 1 if f.uh is None else min(f.uh, c - 1)
                st.facts[x] = tight(Inter(f.sl, f.sh, f.ul, uh, f.ex))
            else:
                st.facts[x] = tight(Inter(f.sl, f.sh, max(f.ul, c), f.uh, f.ex))
        g = st.facts[x]
        return not empty(g)
    if cx is not None and isinstance(y, T):
        f = st.facts.get(y)
        if f.__class__ is not Inter:
            f = Inter()
        if signed:
            if not neg:      # cx < y
                sl = cx + 1 if f.sl is None else max(f.sl, cx + 1)
                st.facts[y] = tight(Inter(sl, f.sh, f.ul, f.uh, f.ex))
            else:            # y <= cx
                sh = cx if f.sh is None else min(f.sh, cx)
                st.facts[y] = tight(Inter(f.sl, sh, f.ul, f.uh, f.ex))
        else:
            c = uns(cx, w)
            if not neg:
                st.facts[y] = tight(Inter(f.sl, f.sh, max(f.ul, c + 1), f.uh, f.ex))
            else:
                uh = c if f.uh is None else min(f.uh, c)
                st.facts[y] = tight(Inter(f.sl, f.sh, f.ul, uh, f.ex))
        g = st.facts[y]
        return not empty(g)
    st.facts[('c', p, x, y)] = not neg
    if not neg and not signed and isinstance(y, T):
        # x < y unsigned  =>  y != 0
        f = st.facts.get(y)
        if f.__class__ is not Inter:
            f = Inter()
        if f.ul < 1:
            st.facts[y] = Inter(f.sl, f.sh, 1, f.uh, f.ex)
    return True


def hull(a, b):
    sl = None if a.sl is None or b.sl is None else min(a.sl, b.sl)
    sh = None if a.sh is None or b.sh is None else max(a.sh, b.sh)
    uh = None if a.uh is None or b.uh is None else max(a.uh, b.uh)
    ul = min(a.ul, b.ul)
    ex = set()
    for x in a.ex | b.ex:
        if all(x in f.ex or (f.sl is not None and x < f.sl) or (f.sh is not None and x > f.sh)
               or (x >= 0 and (x < f.ul or (f.uh is not None and x > f.uh))) for f in (a, b)):
            ex.add(x)
    for x in (0,):
        if x not in ex and all(0 in f.ex or f.ul > 0 or (f.sl is not None and f.sl > 0)
                               or (f.sh is not None and f.sh < 0) for f in (a, b)):
            ex.add(0)
    if sl is None and sh is None and uh is None and ul == 0 and not ex:
        return None
    return Inter(sl, sh, ul, uh, frozenset(ex))


def tight(f):
    sl, sh, ul, uh, ex = f.sl, f.sh, f.ul, f.uh, f.ex
    while sl is not None and sl in ex and (sh is None or sl <= sh):
        sl += 1
    while sh is not None and sh in ex and (sl is None or sl <= sh):
        sh -= 1
    while ul in ex and (uh is None or ul <= uh):
        ul += 1
    while uh is not None and uh in ex and ul <= uh:
        uh -= 1
    return Inter(sl, sh, ul, uh, ex)


def empty(f):
    if f.sl is not None and f.sh is not None and f.sl > f.sh:
        return True
    if f.uh is not None and f.ul > f.uh:
        return True
    if f.uh is not None and f.sl is not None and f.sl > f.uh:
        return True
    return False


class Checker:
    """hooks; override what is needed"""
    relevant_memory = True

    def call(self, eng, st, name, args, ins, ctx):
        """None = not handled; otherwise list of (state, ret)"""
        return None

    def load(self, eng, st, addr, val, ins, ctx):
        pass

    def store(self, eng, st, addr, val, ins, ctx):
        pass

    def deref(self, eng, st, addr, ins, ctx):
        pass

    def enter(self, eng, st, fn, args, ctx):
        pass

    def leave(self, eng, st, fn, ret, ctx):
        pass

    def root_exit(self, eng, st, fn, ret, ins):
        pass

    def lost(self, eng, st, v):
        """a cell holding v may have been overwritten by code we do not see"""
        pass

    def gckeep(self, st):
        """extra terms to keep facts about"""
        return ()


class Budget(Exception):
    pass


class Engine:
    def __init__(self, prog, checker, specs=None, slots=None, unroll=2, maxstates=150, maxdepth=14, maxsteps=4_000_000,
                 inline=True, noinline=(), deadline=None):
        self.prog = prog
        self.ck = checker
        self.specs = specs or {}
        self.slots = slots or {}
        self.unroll = unroll
        self.maxstates = maxstates
        self.maxdepth = maxdepth
        self.steps = 0
        self.maxsteps = maxsteps
        self.noinline = set(noinline)
        self.stat = {'roots': 0, 'exits': 0, 'steps': 0, 'calls_inlined': 0, 'calls_modelled': 0,
                     'calls_opaque': 0, 'icalls': 0, 'dropped_loop': 0, 'dropped_cap': 0, 'merged': 0,
                     'null_deref_paths': 0, 'recursion_cut': 0, 'budget_hits': 0}
        self.covered = set()
        self.tagof = {}
        self.root = None
        self.deadline = deadline
        self.modelled_names = {}
        self.opaque_names = {}

    # -------------------------------------------------------------- values
    def fresh(self, ins, ctx, what=''):
        return mk('sym', what or (ins.res or ins.op), ins.id, ctx)

    def obj(self, kind, ins, ctx):
        return mk('obj', kind, ins.id, ctx)

    def glob_addr(self, mod, name):
        f = mod.fns.get(name)
        if f is not None:
            return mk('f', f.uname)
        g, gm = self.prog.resolve_glob(mod, name)
        if g is not None:
            return mk('g', g.uname)
        f = self.prog.resolve_fn(mod, name)
        if f is not None:
            return mk('f', f.uname)
        if name in mod.decls:
            return mk('f', name)
        return mk('g', name)

    def const(self, mod, v):
        k = v[0]
        if k == 'g':
            return self.glob_addr(mod, v[1])
        if k == 'cgep':
            ops = v[2]
            b = self.operand(mod, None, ops[0])
            return self.gep(mod, v[1], b, [o if isinstance(o, int) else 0 for o in ops[1:]], 64)
        if k == 'undef':
            return mk('undef')
        if k == 'zero':
            return 0
        if k == 'fp':
            return mk('fp', v[1])
        return mk('undef')

    def operand(self, mod, env, v):
        if v.__class__ is int:
            return v
        if v.__class__ is str:
            return env[v]
        return self.const(mod, v)

    def gep(self, mod, ety, base, idx, w):
        off = 0
        ty = ety
        res = base
        first = True
        for i in idx:
            if first:
                sz = mod.size(ty)
                first = False
                if i.__class__ is int:
                    off += i * sz
                else:
                    res = add(res, scale(i, sz))
                continue
            t = mod.resolve(ty)
            if t.k == 'struct':
                off += mod.offsets(t)[0][i]
                ty = t.a[i]
            elif t.k == 'array':
                sz = mod.size(t.a)
                if i.__class__ is int:
                    off += i * sz
                else:
                    res = add(res, scale(i, sz))
                ty = t.a
        return add(res, off) if off else res

    # -------------------------------------------------------------- memory
    def mload(self, st, addr, ty=None, ins=None):
        base, off = split(addr)
        key = (base, off)
        v = st.mem.get(key)
        if v is not None:
            return v
        if isinstance(base, int):
            return mk('undef')
        # constant global initialiser
        if base.k == 'g':
            v = self.glob_init(base.a[0], off)
            if v is not None:
                return v
        # copied ranges / defaults, most recent first
        rng = st.mem.get((base, '@r'))
        if rng:
            for kind, lo, size, x in rng:
                inside = size is None or (lo <= off < lo + size)
                if not inside:
                    continue
                if kind == 'z':
                    return 0
                if kind == 'u':
                    return mk('uninit', base, off)
                if kind == 'c':
                    sb, so = x
                    if sb.__class__ is T and sb.k == 'g':
                        v = self.glob_init(sb.a[0], so + off - lo)
                        if v is not None:
                            return v
                    return mk('ld', sb, so + off - lo, 0)
                if kind == 'h':
                    return mk('ld', base, off, x)
        if self.cold and base.k == 'g':
            v = self.glob_init(base.a[0], off, True)
            if v is not None:
                return v
        return mk('ld', base, off, 0)

    def mstore(self, st, addr, v):
        base, off = split(addr)
        if isinstance(base, int):
            return
        st.mem[(base, off)] = v

    def add_range(self, st, base, kind, lo, size, x):
        # drop cells in the range
        if size is None:
            dead = [k for k in st.mem if k[0] is base]
        else:
            dead = [k for k in st.mem if k[0] is base and isinstance(k[1], int) and lo <= k[1] < lo + size]
        old = st.mem.get((base, '@r'), ())
        for k in dead:
            if kind == 'h' and k[1] != '@r':
                v = st.mem[k]
                if v.__class__ is T and v.fl:
                    self.ck.lost(self, st, v)
            del st.mem[k]
        if size is None:
            old = ()
        st.mem[(base, '@r')] = ((kind, lo, size, x),) + old[:5]

    def havoc(self, st, base, tagid):
        if isinstance(base, int):
            return
        self.add_range(st, base, 'h', 0, None, tagid)

    def memcpy(self, st, dst, src, n, ins, ctx):
        db, do = split(dst)
        sb, so = split(src)
        size = n if isinstance(n, int) else None
        if isinstance(db, int):
            return
        if isinstance(sb, int):
            self.havoc(st, db, (ins.id, ctx))
            return
        if size is None:
            # unknown length: everything may have changed
            cells = {}
            self.add_range(st, db, 'h', 0, None, mk('sym', 'cpy', ins.id, ctx))
            return
        cells = {k[1]: v for k, v in st.mem.items() if k[0] is sb and isinstance(k[1], int) and so <= k[1] < so + size}
        srng = st.mem.get((sb, '@r'))
        # default for unspecified source cells
        if srng:
            # find the most general range describing the source
            kind, lo, sz, x = srng[0]
            if kind in ('z', 'u'):
                if (sz is None or (lo <= so and lo + sz >= so + size)):
                    self.add_range(st, db, kind, do, size, None)
                else:
                    self.add_range(st, db, 'c', do, size, (sb, so))
            elif kind == 'c' and (sz is None or (lo <= so and lo + sz >= so + size)):
                self.add_range(st, db, 'c', do, size, (x[0], x[1] + so - lo))
            elif kind == 'h':
                self.add_range(st, db, 'c', do, size, (sb, so)) if x == 0 else self.add_range(st, db, 'h', do, size, x)
            else:
                self.add_range(st, db, 'c', do, size, (sb, so))
        else:
            self.add_range(st, db, 'c', do, size, (sb, so))
        for o, v in cells.items():
            st.mem[(db, o - so + do)] = v

    cold = False        # the library's own variables start with their static initialisers

    def cold_value(self, base, off):
        return self.glob_init(base.a[0], off, True)

    def glob_init(self, uname, off, cold=False):
        gm = self.prog.glob.get(uname)
        if gm is None:
            return None
        g, mod = gm
        if not g.const and (not cold or g.tls or g.ext or g.init is None):
            return None
        c = getattr(self, '_gi', None)
        if c is None:
            c = self._gi = {}
        m = c.get(uname)
        if m is None:
            m = {}
            self.flatten(mod, g.ty, g.init, 0, m)
            c[uname] = m
        if off in m:
            return m[off]
        if ('z', ) in m or True:
            for (lo, hi) in m.get('zero', ()):
                if lo <= off < hi:
                    return 0
        return None

    def flatten(self, mod, ty, init, off, out):
        if init is None:
            return
        if init == ('zero',) or init == 0 and ty.k in ('struct', 'array', 'named'):
            out.setdefault('zero', []).append((off, off + mod.size(ty)))
            return
        if isinstance(init, int):
            out[off] = init
            return
        if init[0] == 'agg':
            t = mod.resolve(ty)
            if t.k == 'array':
                es = mod.size(t.a)
                for i, (ety, v) in enumerate(init[1]):
                    self.flatten(mod, ety, v, off + i * es, out)
            else:
                # the literal may use an anonymous struct type: use its own layout
                from front import Type
                lt = Type('struct', [e for e, _ in init[1]], t.n if t.k == 'struct' else 0)
                offs, _ = mod.offsets(lt)
                for o, (ety, v) in zip(offs, init[1]):
                    self.flatten(mod, ety, v, off + o, out)
            return
        if init[0] == 'str':
            for i, b in enumerate(init[1]):
                out[off + i] = b if b < 128 else b - 256
            return
        out[off] = self.const(mod, init)

    # -------------------------------------------------------------- running
    def run_root(self, fn, args=None, st=None):
        """analyse one entry point; returns list of (state, ret)"""
        self.root = fn
        self.stat['roots'] += 1
        if st is None:
            st = State()
        if args is None:
            args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        self.root_args = args
        res = self.run(fn, args, st, ())
        out = []
        for s, r, ins in res:
            self.stat['exits'] += 1
            self.ck.root_exit(self, s, fn, r, ins)
            out.append((s, r))
        return out

    def run(self, fn, args, st, ctx):
        """-> list of (state, retval, ret inst)"""
        self.covered.add(fn.uname)
        mod = self.prog.mods[fn.tu]
        env = {}
        for p, a in zip(fn.params, args):
            env[p] = a
        if len(args) < len(fn.params):
            for p in fn.params[len(args):]:
                env[p] = mk('undef')
        self.ck.enter(self, st, fn, args, ctx)
        blocks = fn.blocks
        pending = {}
        heap = []
        exits = []

        def push(bname, env, st, iters):
            l = pending.get(bname)
            if l is None:
                pending[bname] = [(env, st, iters)]
                heapq.heappush(heap, (blocks[bname].rpo, bname))
            else:
                l.append((env, st, iters))

        push(fn.entry, env, st, ())
        npend = 0
        while heap:
            _, bname = heapq.heappop(heap)
            l = pending.pop(bname)
            b = blocks[bname]
            if len(l) > 1:
                seen = {}
                live = b.livein
                for e, s, it in l:
                    self.gc(s, e, live)
                    k = (frozenset((n, e.get(n)) for n in live), s.key(), it)
                    if k in seen:
                        self.stat['merged'] += 1
                        continue
                    seen[k] = (e, s, it)
                l = list(seen.values())
                if len(l) > self.joinlimit:
                    l = self.join_facts(l, live)
                    if len(l) > self.joinlimit:
                        l = self.join_values(l, live, (fn.uname, bname), ctx)
                        if len(l) > self.joinlimit2:
                            l = self.join_values(l, live, (fn.uname, bname), ctx, True)
                cap = self.maxstates
                if any(t > 4 for h, t, x in l[0][2]):
                    cap = self.latecap      # late rounds of a counted loop repeat what earlier rounds showed
                if len(l) > cap:
                    self.stat['dropped_cap'] += len(l) - cap
                    l = self.pick(l, cap)
            for e, s, it in l:
                self.exec_block(fn, mod, b, e, s, it, ctx, push, exits)
        # drop the frame's stack objects
        out = []
        seen = set()
        fctx = ctx
        for s, r, ins in exits:
            dead = [k for k in s.mem if isinstance(k[0], T) and self.is_frame_obj(k[0], fn, ctx)]
            for k in dead:
                del s.mem[k]
            self.ck.leave(self, s, fn, r, ctx)
            out.append((s, r, ins))
        if len(out) > 1:
            uniq = {}
            for s, r, ins in out:
                self.gc_ret(s, r)
                k = (s.key(), r, ins.id if not ctx else None)
                if k in uniq:
                    self.stat['merged'] += 1
                    continue
                uniq[k] = (s, r, ins)
            out = list(uniq.values())
            if ctx and len(out) > self.joinlimit:
                l = self.join_facts([({'r': r}, s, None) for s, r, _ in out], ('r',))
                if len(l) > self.joinlimit:
                    l = self.join_values(l, ('r',), (fn.uname, 'ret'), ctx)
                    if len(l) > self.joinlimit2:
                        l = self.join_values(l, ('r',), (fn.uname, 'ret'), ctx, True)
                if len(l) > self.maxstates:
                    self.stat['dropped_cap'] += len(l) - self.maxstates
                    l = self.pick(l)
                out = [(s, e['r'], None) for e, s, _ in l]
        return out

    joinlimit = 12
    joinlimit2 = 24
    through = ()        # further modules whose interfaces are looked through
    plain = ()          # functions followed although a model of them exists

    def join_facts(self, l, live):
        """states that differ only in branch facts become one (facts weakened)"""
        g = {}
        for e, s, it in l:
            k = (frozenset((n, e.get(n)) for n in live), frozenset(s.mem.items()), frozenset(s.ts.items()), it)
            o = g.get(k)
            if o is None:
                g[k] = (e, s, it)
                continue
            self.stat['merged'] += 1
            f1, f2 = o[1].facts, s.facts
            nf = {}
            for kk, v in f1.items():
                v2 = f2.get(kk)
                if v2 is None:
                    continue
                if v2 is v or v2 == v:
                    nf[kk] = v
                elif v.__class__ is Inter and v2.__class__ is Inter:
                    h = hull(v, v2)
                    if h is not None:
                        nf[kk] = h
            o[1].facts = nf
        return list(g.values())

    def join_values(self, l, live, where, ctx, coarse=False):
        """states that agree on the checker state, on constants, on tracked objects and on which values are
        null, and differ only in opaque quantities, become one: each differing quantity (or group of
        quantities that is equal in every state) is replaced by one new unknown"""
        groups = {}
        allk = set()
        if coarse:
            for e, s, it in l:
                allk.update(k for k in s.mem if k[1] != '@r')
        for e, s, it in l:
            tt = set()
            for k, v in s.ts.items():
                for x in (k if k.__class__ is tuple else (k,)) + (v if v.__class__ is tuple else (v,)):
                    if x.__class__ is T:
                        tt.add(x)
                        tt |= x.fl

            if coarse:
                for k in allk:
                    if k not in s.mem:
                        s.mem[k] = self.mload(s, lin_off(k))

            def mark(v, s=s, tt=tt, mem=False):
                if mem and coarse and v.__class__ is int:
                    return NNMARK if v != 0 else 0
                if v.__class__ is not T or v.k not in OPAQUE or v in tt or v.fl & tt:
                    return v
                if v.k == 'sym' and v.a[0].__class__ is str and v.a[0].startswith('fail:'):
                    return v
                r = root_of(split(v)[0])
                if r.__class__ is not T or r.k not in OPAQUE or r in tt:
                    return v
                c = known_const(s, v)
                if c is not None:
                    if mem and coarse:
                        return NNMARK if c != 0 else 0
                    return v
                return NNMARK if nonnull(s, v) else ANYMARK
            k = (frozenset((n, mark(e.get(n))) for n in live), frozenset((k, mark(v, mem=True) if k[1] != '@r' else v)
                 for k, v in s.mem.items()), frozenset(s.ts.items()), it)
            groups.setdefault(k, []).append((e, s, it, mark))
        if len(groups) == len(l):
            return l
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0][:3])
                continue
            self.stat['joined'] = self.stat.get('joined', 0) + len(g) - 1
            e0, s0, it0, mark0 = g[0]
            vec = {}
            facts = None
            ne = dict(e0)
            ns = s0.copy()
            newfacts = {}

            def get(vals, mk0):
                v0 = vals[0]
                if all(v is v0 or v == v0 for v in vals):
                    return v0
                t = tuple(vals)
                n = vec.get(t)
                if n is None:
                    self.joins += 1
                    n = mk('sym', 'join', where, ctx, self.joins)
                    vec[t] = n
                    h = None
                    for i, (v, x) in enumerate(zip(vals, g)):
                        if v.__class__ is int:
                            f = Inter(v, v, uns(v, 64), uns(v, 64))
                        else:
                            f = x[1].facts.get(v)
                        if f.__class__ is not Inter:
                            h = None
                            break
                        h = f if i == 0 else hull(h, f)
                        if h is None:
                            break
                    if mk0 is NNMARK:
                        if h is None:
                            h = Inter(ex=frozenset((0,)))
                        elif 0 not in h.ex:
                            h = Inter(h.sl, h.sh, h.ul, h.uh, h.ex | {0})
                    if h is not None:
                        newfacts[n] = h
                return n
            for n in live:
                v = e0.get(n)
                m = mark0(v)
                if m is NNMARK or m is ANYMARK:
                    ne[n] = get([x[0].get(n) for x in g], m)
            for kk, v in s0.mem.items():
                if kk[1] == '@r':
                    continue
                m = mark0(v, mem=True)
                if m is NNMARK or m is ANYMARK:
                    ns.mem[kk] = get([x[1].mem[kk] for x in g], m)
            nf = dict(s0.facts)
            for x in g[1:]:
                f2 = x[1].facts
                for kk in list(nf):
                    v = nf[kk]
                    v2 = f2.get(kk)
                    if v2 is None:
                        del nf[kk]
                    elif v2 is v or v2 == v:
                        continue
                    elif v.__class__ is Inter and v2.__class__ is Inter:
                        h = hull(v, v2)
                        if h is None:
                            del nf[kk]
                        else:
                            nf[kk] = h
                    else:
                        del nf[kk]
            nf.update(newfacts)
            ns.facts = nf
            out.append((ne, ns, it0))
        return out

    joins = 0

    latecap = 12

    def pick(self, l, cap=None):
        """bounded exploration: keep a selection that covers every checker state"""
        if cap is None:
            cap = self.maxstates
        g = {}
        for x in l:
            g.setdefault(frozenset(x[1].ts.items()), []).append(x)
        out = []
        i = 0
        qs = list(g.values())
        while len(out) < cap:
            more = False
            for q in qs:
                if i < len(q):
                    more = True
                    out.append(q[i])
                    if len(out) >= cap:
                        break
            if not more:
                break
            i += 1
        return out

    def is_frame_obj(self, base, fn, ctx):
        r = root_of(base)
        return isinstance(r, T) and r.k == 'obj' and r.a[0] == 'stack' and r.a[1][0] == fn.uname and r.a[2] == ctx

    def gc(self, st, env, live):
        keep = set()
        for n in live:
            v = env.get(n)
            if v.__class__ is T and v.fl:
                keep |= v.fl
        self.gc_with(st, keep)

    def gc_ret(self, st, r):
        keep = set()
        if r.__class__ is T:
            keep |= r.fl
        self.gc_with(st, keep)

    frames_live = ()

    def gc_with(self, st, keep):
        # facts about memory-derived terms and arguments are always kept (they
        # can be re-derived); facts about fresh symbols only while referenced
        if not st.facts:
            return
        for k, v in st.mem.items():
            if v.__class__ is T and v.fl:
                keep |= v.fl
            if k[0].__class__ is T and k[0].fl:
                keep |= k[0].fl
        for t in self.ck.gckeep(st):
            keep |= t.fl
        for f in self.frames_live:
            keep |= f
        dead = []
        for k in st.facts:
            if k.__class__ is tuple:
                x, y = k[2], k[3]
                if (x.__class__ is T and x.fl and not x.fl <= keep) or (y.__class__ is T and y.fl and not y.fl <= keep):
                    dead.append(k)
            elif k.fl and not k.fl <= keep:
                dead.append(k)
        for k in dead:
            del st.facts[k]

    def exec_block(self, fn, mod, b, env, st, iters, ctx, push, exits):
        # worklist inside the block because calls fork
        insts = b.insts
        work = [(env, st, 0)]
        ictx = (iters and tuple(x for x in iters)) or ()
        while work:
            env, st, i = work.pop()
            n = len(insts)
            while i < n:
                ins = insts[i]
                self.steps += 1
                if self.steps & 1023 == 0:
                    if self.steps > self.maxsteps or (self.deadline and time.time() > self.deadline):
                        self.stat['budget_hits'] += 1
                        raise Budget(fn.uname)
                op = ins.op
                i += 1
                if op == 'load':
                    a = self.operand(mod, env, ins.args[0])
                    if not self.check_deref(st, a, ins, ctx):
                        break
                    v = self.mload(st, a, ins.ty, ins)
                    self.ck.load(self, st, a, v, ins, ctx)
                    env[ins.res] = v
                elif op == 'store':
                    v = self.operand(mod, env, ins.args[0])
                    a = self.operand(mod, env, ins.args[1])
                    if not self.check_deref(st, a, ins, ctx):
                        break
                    self.ck.store(self, st, a, v, ins, ctx)
                    self.mstore(st, a, v)
                elif op == 'getelementptr':
                    base = self.operand(mod, env, ins.args[0])
                    idx = [self.operand(mod, env, x) for x in ins.args[1:]]
                    idx = [self.peel_idx(x, st) for x in idx]
                    g = env[ins.res] = self.gep(mod, ins.x, base, idx, 64)
                    if ins.tag is not None:
                        self.tagof[g] = ins.tag
                elif op == 'icmp':
                    x = self.operand(mod, env, ins.args[0])
                    y = self.operand(mod, env, ins.args[1])
                    w = ins.ty.n if ins.ty.k == 'int' else 64
                    env[ins.res] = self.icmp(st, ins.x, x, y, w, ins.ty.k == 'ptr')
                elif op == 'br':
                    if not ins.args:
                        self.goto(fn, b, ins.x[0], env, st, iters, ctx, push, False, mod)
                        break
                    c = self.operand(mod, env, ins.args[0])
                    t, f = ins.x
                    r = self.truth(st, c)
                    und = r is None
                    if r is not False:
                        s2 = st.copy() if und else st
                        if not und or self.assume_bool(s2, c, True):
                            self.goto(fn, b, t, dict(env) if und else env, s2, iters, ctx, push, und, mod)
                    if r is not True:
                        if not und or self.assume_bool(st, c, False):
                            self.goto(fn, b, f, env, st, iters, ctx, push, und, mod)
                    break
                elif op == 'switch':
                    self.do_switch(fn, mod, b, ins, env, st, iters, ctx, push)
                    break
                elif op == 'ret':
                    v = self.operand(mod, env, ins.args[0]) if ins.args else None
                    exits.append((st, v, ins))
                    break
                elif op == 'unreachable':
                    break
                elif op == 'call':
                    outs = self.do_call(fn, mod, ins, env, st, ctx, iters, b, i)
                    if outs is None:
                        continue
                    if not outs:
                        break
                    for s2, rv in outs[1:]:
                        e2 = dict(env)
                        if ins.res:
                            e2[ins.res] = rv
                        work.append((e2, s2, i))
                    st, rv = outs[0]
                    if len(outs) > 1:
                        env = dict(env)
                    if ins.res:
                        env[ins.res] = rv
                elif op == 'alloca':
                    o = mk('obj', 'stack', ins.id, ctx)
                    # re-executed allocas (loops) denote fresh storage
                    self.add_range(st, o, 'u', 0, None, None)
                    env[ins.res] = o
                elif op == 'select':
                    c = self.operand(mod, env, ins.args[0])
                    x = self.operand(mod, env, ins.args[1])
                    y = self.operand(mod, env, ins.args[2])
                    r = self.truth(st, c)
                    if r is None:
                        if x is y or (isinstance(x, int) and x == y and isinstance(y, int)):
                            env[ins.res] = x
                        else:
                            s2 = st.copy()
                            e2 = dict(env)
                            if self.assume_bool(s2, c, True):
                                e2[ins.res] = x
                                work.append((e2, s2, i))
                            if not self.assume_bool(st, c, False):
                                break
                            env[ins.res] = y
                    else:
                        env[ins.res] = x if r else y
                elif op in CASTOPS:
                    env[ins.res] = self.cast(st, op, ins, self.operand(mod, env, ins.args[0]))
                elif op == 'atomicrmw':
                    a = self.operand(mod, env, ins.args[0])
                    x = self.operand(mod, env, ins.args[1])
                    if not self.check_deref(st, a, ins, ctx):
                        break
                    v = self.mload(st, a)
                    self.ck.load(self, st, a, v, ins, ctx)
                    rop = ins.x['rop']
                    if rop == 'xchg':
                        nv = x
                    elif rop in ('add', 'sub'):
                        nv = add(v, x, 1 if rop == 'add' else -1)
                    else:
                        nv = self.fresh(ins, self.cx(ctx, ins, iters))
                    self.ck.store(self, st, a, nv, ins, ctx)
                    self.mstore(st, a, nv)
                    env[ins.res] = v
                elif op == 'cmpxchg':
                    a = self.operand(mod, env, ins.args[0])
                    exp = self.operand(mod, env, ins.args[1])
                    new = self.operand(mod, env, ins.args[2])
                    if not self.check_deref(st, a, ins, ctx):
                        break
                    v = self.mload(st, a)
                    self.ck.load(self, st, a, v, ins, ctx)
                    # success / failure
                    s2 = st.copy()
                    e2 = dict(env)
                    ok = assume(s2, 'eq', v, exp, 64)
                    if ok:
                        self.ck.store(self, s2, a, new, ins, ctx)
                        self.mstore(s2, a, new)
                        e2[ins.res] = mk('pair', exp, 1)
                        work.append((e2, s2, i))
                    env[ins.res] = mk('pair', v, 0)
                    if not assume(st, 'ne', v, exp, 64):
                        break
                elif op == 'extractvalue':
                    v = self.operand(mod, env, ins.args[0])
                    if isinstance(v, T) and v.k == 'pair':
                        env[ins.res] = v.a[ins.x[0]]
                    else:
                        env[ins.res] = self.fresh(ins, self.cx(ctx, ins, iters))
                elif op == 'fence':
                    pass
                elif op in ('insertvalue', 'fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'va_arg', 'fneg'):
                    env[ins.res] = self.fresh(ins, self.cx(ctx, ins, iters))
                else:
                    x = self.operand(mod, env, ins.args[0])
                    y = self.operand(mod, env, ins.args[1])
                    env[ins.res] = self.binop(st, op, ins, x, y)

    def peel_idx(self, v, st):
        if isinstance(v, T):
            c = known_const(st, v)
            if c is not None:
                return c
            if v.k == 'cast' and v.a[0] in ('zext', 'sext'):
                return v.a[3]
        return v

    def cx(self, ctx, ins, iters):
        return ctx + (iters,) if iters else ctx

    def icmp(self, st, pred, x, y, w, ptr=False):
        cx = known_const(st, x)
        cy = known_const(st, y)
        if ptr and y == 0 and x.__class__ is T and x.k == 'lin':
            # address of a member compared with NULL
            r = ('cmp', pred, x, 0, w)
        else:
            r = simp_cmp(pred, x if cx is None else cx, y if cy is None else cy, w)
        if r[0] == 'const':
            return 1 if r[1] else 0
        if r[0] == 'bool':
            t, want = r[1], r[2]
            return t if want else self.negate(t)
        _, pred, x, y, w = r
        e = eval_cmp(st, pred, x, y, w)
        if e is not None:
            return 1 if e else 0
        p, a, b, neg = canon(pred, x, y)
        return mk('cmp', p, a, b, neg, w)

    def negate(self, t):
        if isinstance(t, int):
            return 0 if t else 1
        if t.k == 'cmp':
            p, a, b, neg, w = t.a
            return mk('cmp', p, a, b, not neg, w)
        if t.k == 'not':
            return t.a[0]
        return mk('not', t)

    def truth(self, st, c):
        if isinstance(c, int):
            return c != 0
        if c.k == 'cmp':
            p, a, b, neg, w = c.a
            r = eval_cmp(st, p, a, b, w)
            return None if r is None else r ^ neg
        if c.k == 'not':
            r = self.truth(st, c.a[0])
            return None if r is None else not r
        if c.k == 'op' and c.a[0] in ('and', 'or') and c.a[1] == 1:
            x, y = self.truth(st, c.a[2]), self.truth(st, c.a[3])
            if c.a[0] == 'and':
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            return None
        if c.k == 'undef' or c.k == 'uninit':
            return None
        k = known_const(st, c)
        if k is not None:
            return k != 0
        if nonnull(st, c):
            return True
        return None

    def assume_bool(self, st, c, val):
        if isinstance(c, int):
            return (c != 0) == val
        if c.k == 'cmp':
            p, a, b, neg, w = c.a
            pred = p
            if neg == val:
                pred = PRED_NEG[p]
            return assume(st, pred, a, b, w)
        if c.k == 'not':
            return self.assume_bool(st, c.a[0], not val)
        if c.k == 'op' and c.a[1] == 1:
            if c.a[0] == 'and' and val or c.a[0] == 'or' and not val:
                return self.assume_bool(st, c.a[2], val) and self.assume_bool(st, c.a[3], val)
        if c.k in ('undef', 'uninit'):
            return True
        return assume(st, 'ne' if val else 'eq', c, 0, 1)

    def binop(self, st, op, ins, x, y):
        return self.binop_w(st, op, ins.ty.n if ins.ty.k == 'int' else 64, x, y)

    def binop_w(self, st, op, w, x, y):
        cx, cy = known_const(st, x), known_const(st, y)
        if cx is not None:
            x = cx
        if cy is not None:
            y = cy
        if isinstance(x, int) and isinstance(y, int):
            ux, uy = uns(x, w), uns(y, w)
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << uy if uy < w else 0, 'lshr': lambda: ux >> uy, 'ashr': lambda: x >> uy,
                     'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                     'sdiv': lambda: int(x / y) if y else 0, 'srem': lambda: x - y * int(x / y)}[op]()
                return wrap(r, w)
            except ZeroDivisionError:
                return mk('undef')
        if op == 'add':
            return add(x, y, 1, w)
        if op == 'sub':
            return add(x, y, -1, w)
        if op == 'mul':
            if isinstance(y, int):
                return scale(x, y, w)
            if isinstance(x, int):
                return scale(y, x, w)
        if op == 'shl' and isinstance(y, int):
            return scale(x, 1 << y, w)
        if op == 'xor' and w == 1:
            if y == 1 or y == -1:
                return self.negate(x)
            if x == 1 or x == -1:
                return self.negate(y)
            if y == 0:
                return x
        if op == 'and':
            if x == 0 or y == 0:
                return 0
            if y == -1:
                return x
            if x == -1:
                return y
            if w == 1:
                if y == 1:
                    return x
                if x == 1:
                    return y
            if isinstance(x, int):
                x, y = y, x
            if x is y:
                return x
            if isinstance(y, int):
                # tagged pointers
                if x.k == 'op' and x.a[0] == 'or' and isinstance(x.a[3], int):
                    if x.a[3] & y == y:
                        return y
                    if x.a[3] & y == 0:
                        x = x.a[2]
                if isinstance(x, T) and x.k == 'op' and x.a[0] == 'and' and isinstance(x.a[3], int):
                    y &= x.a[3]
                    x = x.a[2]
                if isinstance(x, T) and x.k in ('obj', 'g', 'f'):
                    if 0 <= y <= 7:
                        return 0
                    if y in (-2, -4, -8):
                        return x
        if op == 'or':
            if y == 0:
                return x
            if x == 0:
                return y
            if w == 1 and (x in (1, -1) or y in (1, -1)):
                return 1
            if isinstance(x, int):
                x, y = y, x
        if op in ('add', 'mul', 'and', 'or', 'xor') and isinstance(x, T) and isinstance(y, T) and y.id < x.id:
            x, y = y, x
        return mk('op', op, w, x, y)

    def cast(self, st, op, ins, x):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            return x
        fw = ins.x.n if ins.x.k == 'int' else 64
        tw = ins.ty.n if ins.ty.k == 'int' else 64
        if isinstance(x, int):
            if op == 'zext':
                return uns(x, fw)
            if op == 'trunc':
                return wrap(x, tw)
            return x if op == 'sext' else mk('cast', op, fw, tw, x)
        if op == 'trunc':
            if x.k == 'cast' and x.a[0] in ('zext', 'sext'):
                iw = x.a[1]
                if iw == tw:
                    return x.a[3]
                if iw < tw:
                    return mk('cast', x.a[0], iw, tw, x.a[3])
            if x.k in ('undef', 'uninit'):
                return x
            if tw == 1 and x.k in ('cmp', 'not'):
                return x
            if tw == 1:
                # bool loaded from memory
                return self.icmp(st, 'ne', x, 0, fw)
            if x.k in ('ld', 'arg', 'sym') and tw >= 32:
                # value loaded with a wider type: keep identity
                return mk('cast', 'trunc', fw, tw, x)
        if op in ('zext', 'sext'):
            if x.k == 'cast' and x.a[0] == op:
                return mk('cast', op, x.a[1], tw, x.a[3])
            if x.k in ('undef', 'uninit'):
                return x
            if x.k in ('cmp', 'not') and op == 'zext':
                return x       # booleans keep their identity in wider cells
        return mk('cast', op, fw, tw, x)

    def do_switch(self, fn, mod, b, ins, env, st, iters, ctx, push):
        v = self.operand(mod, env, ins.args[0])
        d, cases = ins.x
        c = known_const(st, v)
        w = ins.ty.n
        if c is not None:
            for cv, lab in cases:
                if cv == c:
                    self.goto(fn, b, lab, env, st, iters, ctx, push, False, mod)
                    return
            self.goto(fn, b, d, env, st, iters, ctx, push, False, mod)
            return
        target = v
        if isinstance(v, T) and v.k == 'cast' and v.a[0] in ('zext', 'sext'):
            target = v.a[3]
        for cv, lab in cases:
            s2 = st.copy()
            r = simp_cmp('eq', v, cv, w)
            if r[0] == 'const':
                ok = r[1]
            elif r[0] == 'bool':
                ok = self.assume_bool(s2, r[1], r[2])
            else:
                ok = assume(s2, r[1], r[2], r[3], r[4])
            if ok:
                self.goto(fn, b, lab, dict(env), s2, iters, ctx, push, True, mod)
        s2 = st
        for cv, lab in cases:
            r = simp_cmp('ne', v, cv, w)
            if r[0] == 'const':
                if not r[1]:
                    return
            elif r[0] == 'bool':
                if not self.assume_bool(s2, r[1], r[2]):
                    return
            elif not assume(s2, r[1], r[2], r[3], r[4]):
                return
        self.goto(fn, b, d, env, s2, iters, ctx, push, True, mod)

    def goto(self, fn, b, succ, env, st, iters, ctx, push, undecided, mod):
        sb = fn.blocks[succ]
        # loop accounting: iters = tuple of (header, total, sym)
        if fn.loops:
            it = {h: (t, s) for h, t, s in iters}
            # leaving loops
            for h in list(it):
                if succ not in fn.loops[h]:
                    del it[h]
            if undecided and b.loop is not None:
                h = b.loop
                body = fn.loops[h]
                while h is not None:
                    if h in it and any(x not in fn.loops[h] for x in b.succs) and succ in fn.loops[h] \
                            and self.controlling(fn, h, b.name):
                        t, s = it[h]
                        it[h] = (t, s + 1)
                    # next enclosing loop
                    nh = None
                    for h2, body2 in fn.loops.items():
                        if h2 != h and h in body2 and (nh is None or len(body2) < len(fn.loops[nh])):
                            nh = h2
                    h = nh
            if sb.isheader:
                if (b.name, succ) in fn.backedges or b.name in fn.loops[succ]:
                    t, s = it.get(succ, (0, 0))
                    t += 1
                    if not self.counted(fn, succ):
                        s = max(s, t)
                    if s > self.unroll:
                        self.stat['dropped_loop'] += 1
                        return
                    if t > 70:
                        self.stat['dropped_loop'] += 1
                        return
                    it[succ] = (t, s)
                else:
                    it[succ] = (0, 0)
            iters = tuple(sorted((h, t, s) for h, (t, s) in it.items()))
        if sb.phis:
            vals = []
            for ph in sb.phis:
                for lab, v in ph.x:
                    if lab == b.name:
                        vals.append(self.operand(mod, env, v))
                        break
                else:
                    vals.append(mk('undef'))
            for ph, v in zip(sb.phis, vals):
                env[ph.res] = v
        push(succ, env, st, iters)

    def counted(self, fn, h):
        """the loop is left by comparing a variable that moves by a constant step in every round"""
        c = self._cnt.get((fn.uname, h))
        if c is not None:
            return c
        body = fn.loops[h]
        defs = {}
        for n in body:
            for i in list(fn.blocks[n].phis) + list(fn.blocks[n].insts):
                if i.res:
                    defs[i.res] = i
        phis = {i.res for i in fn.blocks[h].phis}

        def reach(v, d=0):
            if v.__class__ is not str or d > 6:
                return None
            if v in phis:
                return v
            i = defs.get(v)
            if i is None:
                return None
            if i.op in CASTOPS or i.op in ('add', 'sub', 'getelementptr', 'lshr', 'shl', 'udiv', 'mul', 'sdiv', 'ashr') and \
                    all(a.__class__ is not str for a in i.args[1:]):
                return reach(i.args[0], d + 1)
            return None
        c = False
        for n in body:
            b = fn.blocks[n]
            if not any(x not in body for x in b.succs) or not self.controlling(fn, h, n):
                continue
            t = b.insts[-1]
            if t.op != 'br' or not t.args or t.args[0].__class__ is not str:
                continue
            i = defs.get(t.args[0])
            if i is None or i.op != 'icmp':
                continue
            for a in i.args:
                p = reach(a)
                if p is None:
                    continue
                ph = [x for x in fn.blocks[h].phis if x.res == p][0]
                for lab, v in ph.x:
                    if lab in body and v.__class__ is str and v != p and reach(v) == p:
                        c = True
        self._cnt[(fn.uname, h)] = c
        return c

    _cnt = {}

    def controlling(self, fn, h, bname):
        c = getattr(fn, '_ctl', None) if False else self._ctl.get((fn.uname, h))
        if c is None:
            body = fn.loops[h]
            latches = {n for n, hh in fn.backedges if hh == h}
            c = set()
            for n in {h} | latches:
                if any(s not in body for s in fn.blocks[n].succs):
                    c.add(n)
            # short-circuit conditions: blocks reachable from the header before the body
            if c:
                # include exit blocks that dominate nothing else but the condition chain of the header
                front = {h}
                chain = set(c)
                cur = h
                for _ in range(6):
                    nxt = [s for s in fn.blocks[cur].succs if s in body]
                    if len(nxt) != 1:
                        break
                    n = nxt[0]
                    nb = fn.blocks[n]
                    if len(nb.succs) == 2 and any(s not in body for s in nb.succs) and len(nb.insts) <= 6 and n.startswith('land'):
                        chain.add(n)
                        cur = n
                    else:
                        break
                c = chain
            if not c:
                for n in body:
                    if any(s not in body for s in fn.blocks[n].succs):
                        c.add(n)
            self._ctl[(fn.uname, h)] = c
        return bname in c

    _ctl = {}

    # -------------------------------------------------------------- deref
    def check_deref(self, st, a, ins, ctx):
        c = known_const(st, a)
        if c is None and isinstance(a, T) and a.k == 'lin':
            base, off = split(a)
            if isinstance(base, T):
                cb = known_const(st, base)
                if cb is not None:
                    c = cb + off
        if c is not None and 0 <= c < 4096:
            self.stat['null_deref_paths'] += 1
            self.ck.deref(self, st, 0, ins, ctx)
            return False
        self.ck.deref(self, st, a, ins, ctx)
        return True

    # -------------------------------------------------------------- calls
    def do_call(self, fn, mod, ins, env, st, ctx, iters, b, i):
        callee = ins.x['callee']
        name = None
        target = None
        if callee.__class__ is tuple:
            if callee[0] == 'asm':
                if ins.res:
                    env[ins.res] = self.fresh(ins, self.cx(ctx, ins, iters))
                return None
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(mod, name, ins, env, st, ctx, iters)
            target = self.prog.resolve_fn(mod, name)
        else:
            fv = env[callee] if callee.__class__ is str else self.operand(mod, env, callee)
            c = known_const(st, fv)
            if c == 0:
                self.ck.deref(self, st, 0, ins, ctx)
                return []
            if isinstance(fv, T) and fv.k == 'f':
                target = self.prog.fn.get(fv.a[0])
                name = fv.a[0] if target is None else target.name
            else:
                tag = ins.tag
                name = 'slot:' + ('.'.join(tag) if tag else '?')
                self.stat['icalls'] += 1
        args = [self.operand(mod, env, a) for a in ins.args]
        for k, a in enumerate(args):
            if isinstance(a, T):
                c = known_const(st, a)
                if c == 0 and a.k != 'lin':
                    args[k] = 0
        self.cur_iters = iters
        cctx = self.cx(ctx, ins, iters)
        self.cur_fn = fn
        self.cur_callee = fv if name is not None and name.startswith('slot:') else None
        r = self.ck.call(self, st, name, args, ins, cctx)
        if r is not None:
            return r
        if target is not None:
            sp = self.spec_for(name, target)
        else:
            sp = self.specs.get(name)
            if sp is None and name.startswith('slot:'):
                sp = self.slots.get(name[5:]) or self.slots.get(name[5:].split('.')[-1]) or self.slots.get('*')
        if sp is not None:
            self.stat['calls_modelled'] += 1
            self.modelled_names[name] = self.modelled_names.get(name, 0) + 1
            try:
                r = sp(self, st, args, ins, cctx)
            except IndexError:
                if target is None:
                    raise
                r = None        # the interface changed shape: look through it instead
                self.stat['model_mismatch'] = self.stat.get('model_mismatch', 0) + 1
            if r is not None:
                return r
        if target is not None and target.uname not in self.noinline:
            depth = sum(1 for x in ctx if x.__class__ is tuple and len(x) == 2 and x[0] == 'C')
            rec = any(x.__class__ is tuple and len(x) == 2 and x[0] == 'C' and x[1][0] == target.uname for x in ctx) or \
                target.uname == self.root.uname and self.is_root_rec(ctx, target)
            if depth < self.maxdepth and not rec:
                self.stat['calls_inlined'] += 1
                nctx = cctx + (('C', (target.uname, ins.id)),)
                # values the caller still needs
                live = set()
                for v in env.values():
                    if v.__class__ is T and v.fl:
                        live |= v.fl
                saved = self.frames_live
                self.frames_live = saved + (live,)
                try:
                    outs = self.run(target, args, st, nctx)
                finally:
                    self.frames_live = saved
                self.cur_fn = fn
                return [(s, r) for s, r, _ in outs]
            self.stat['recursion_cut'] += 1
        # unknown function
        self.stat['calls_opaque'] += 1
        self.opaque_names[name] = self.opaque_names.get(name, 0) + 1
        if self.is_noreturn(mod, name):
            return []
        return self.opaque(st, name, args, ins, cctx)

    def is_root_rec(self, ctx, target):
        return False

    def spec_for(self, name, target):
        sp = self.specs.get(name)
        if sp is None or name in self.plain:
            return None
        # inside the module that implements an interface, look through it
        if self.root is not None and (target.tu == self.root.tu or target.tu in self.through) and not getattr(sp, 'always', False):
            return None
        return sp

    NORETURN = {'__assert_fail', 'abort', 'exit', '_exit', '__stack_chk_fail'}

    def is_noreturn(self, mod, name):
        return name in self.NORETURN

    PURE = {'strlen', 'strcmp', 'strncmp', 'getpid', 'gettid', 'syscall', 'sysconf', 'strerror_r', 'memcmp',
            'strchr', 'strstr', 'getenv', '__errno_location', 'atoi', 'close', 'munmap', 'puts', 'fputs',
            'fflush', 'isatty', 'secure_getenv', 'pthread_self', 'gettimeofday'}

    def opaque(self, st, name, args, ins, ctx):
        if name not in self.PURE:
            for a, ty in zip(args, ins.x['tys']):
                if ty.k == 'ptr' and isinstance(a, T):
                    base, off = split(a)
                    if isinstance(base, T) and base.k not in ('f',):
                        r = root_of(base)
                        if r.k == 'g' and self.prog.glob.get(r.a[0], (None,))[0] is not None and self.prog.glob[r.a[0]][0].const:
                            continue
                        self.havoc(st, base, mk('sym', 'hv', ins.id, ctx))
        rv = None
        if ins.res:
            rv = mk('sym', name, ins.id, ctx)
        return [(st, rv)]

    def intrinsic(self, mod, name, ins, env, st, ctx, iters):
        args = [self.operand(mod, env, a) for a in ins.args]
        if name.startswith('llvm.threadlocal.address'):
            env[ins.res] = args[0]
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            for a in (0, 1):
                if not self.check_deref(st, args[a], ins, ctx):
                    return []
            self.ck.call(self, st, 'memcpy', args, ins, ctx)
            self.memcpy(st, args[0], args[1], args[2], ins, self.cx(ctx, ins, iters))
            return None
        if name.startswith('llvm.memset'):
            if not self.check_deref(st, args[0], ins, ctx):
                return []
            self.ck.call(self, st, 'memset', args, ins, ctx)
            b, o = split(args[0])
            if isinstance(b, T):
                n = args[2] if isinstance(args[2], int) else None
                if args[1] == 0:
                    self.add_range(st, b, 'z', o if n is not None else 0, n, None)
                else:
                    self.add_range(st, b, 'h', o if n is not None else 0, n, mk('sym', 'mset', ins.id, ctx))
            return None
        if name.startswith('llvm.va_') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.trap'):
            return []
        if '.with.overflow.' in name and ins.res:
            w = int(name.rsplit('.i', 1)[1])
            r = self.binop_w(st, name.split('.')[1][1:4], w, args[0], args[1])
            env[ins.res] = mk('pair', r, mk('ovf', r, w) if isinstance(r, T) else mk('ovf', mk('op', 'k', 64, r, ins.id), w))
            return None
        if ins.res:
            if name.startswith('llvm.stacksave'):
                env[ins.res] = 0
            else:
                env[ins.res] = mk('op', name, 64, *args)
        return None


CASTOPS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi',
           'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}
