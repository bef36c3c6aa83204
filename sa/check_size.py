"""C12: a size handed to an allocator is either provably not wrapped or guarded against wrap-around on the path."""
import common
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker
from engine import T, Inter, mk, lin_parts, add, subterms, known_const, root_of, split, uns

M = 1 << 64
SMALL = 1 << 47      # lengths of existing objects (strings, arrays in memory) cannot exceed the address space


class SizeChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.sinks = {}

    # -------------------------------------------------------------- bounds
    def ub(self, st, t, d=0):
        """unsigned upper bound of a term, given that its own computation does not wrap"""
        if isinstance(t, int):
            return uns(t, 64)
        f = st.facts.get(t)
        b = M - 1
        if f.__class__ is Inter:
            if f.uh is not None:
                b = f.uh
            if f.sl is not None and f.sl >= 0 and f.sh is not None:
                b = min(b, f.sh)
        if d > 8:
            return b
        k = t.k
        if k == 'lin':
            s = t.a[1]
            for x, c in t.a[0]:
                if c > 0:
                    s += c * self.ub(st, x, d + 1)
            if s < 0:
                s = M - 1
            b = min(b, s)
        elif k == 'cast':
            if t.a[0] == 'zext':
                b = min(b, (1 << t.a[1]) - 1, self.ub(st, t.a[3], d + 1))
            elif t.a[0] == 'sext' and isinstance(t.a[3], T) and t.a[3].k == 'sym' and self.existing(t.a[3]):
                b = min(b, SMALL)
        elif k == 'op':
            o, x, y = t.a[0], t.a[2], t.a[3]
            if o == 'and':
                b = min(b, self.ub(st, x, d + 1), self.ub(st, y, d + 1))
            elif o == 'udiv':
                # divisors the library computed (element and chunk sizes) are at least 2
                q = y if isinstance(y, int) and y > 0 else 2 if isinstance(y, T) and y.k == 'ld' and not self.caller_controlled(y) else 1
                b = min(b, self.ub(st, x, d + 1) // q)
            elif o == 'lshr':
                u = self.ub(st, x, d + 1)
                b = min(b, u >> y if isinstance(y, int) and 0 <= y < 64 else u)
            elif o == 'urem':
                b = min(b, self.ub(st, x, d + 1), self.ub(st, y, d + 1))
            elif o == 'mul':
                b = min(b, self.ub(st, x, d + 1) * self.ub(st, y, d + 1))
            elif o in ('add', 'or', 'xor'):
                b = min(b, self.ub(st, x, d + 1) + self.ub(st, y, d + 1))
        elif k == 'sym' and self.existing(t):
            b = min(b, SMALL)
        elif k == 'ld' and not self.caller_controlled(t):
            b = min(b, SMALL)
        if b >= 1 << 63 and self.pow2(st, t):
            b = 1 << 63
        if b > SMALL:
            for y in self.rel_upper(st, t):
                if isinstance(y, int):
                    b = min(b, uns(y, 64))
                elif d < 4 and (y.k != 'lin' or len(y.a[0]) == 1) and y is not t:
                    b = min(b, self.ub(st, y, 9))
        return b

    def caller_controlled(self, t):
        """members the user sets freely; everything else in memory was computed by the library and describes existing objects"""
        tag = self.eng.tagof.get(add(t.a[0], t.a[1]))
        return tag is not None and ('params' in tag[0] or 'mempolicy' in tag[0])

    def pow2(self, st, t):
        m = add(t, -1)
        for x in (mk('op', 'and', 64, t, m), mk('op', 'and', 64, m, t)):
            f = st.facts.get(x)
            if f.__class__ is Inter and f.const() == 0:
                return True
        return False

    def parts(self, v):
        """the arithmetic a size is built from (not how the addresses of its operands were found)"""
        out, work = set(), [v]
        while work:
            x = work.pop()
            if not isinstance(x, T) or x in out:
                continue
            out.add(x)
            if x.k == 'lin':
                work += [t for t, _ in x.a[0]]
            elif x.k in ('op', 'cast', 'ovf'):
                work += [y for y in x.a if isinstance(y, T)]
        return out

    def existing(self, t):
        n = str(t.a[0])
        return n.startswith(('strlen', 'fread', 'ftell', 'page_size', 'utils_get_page_size', 'hwloc', 'strnlen', 'hugepage', 'snprintf',
                             'umfMemoryProviderGetIPCHandleSize'))

    def rel_upper(self, st, t):
        """terms y with t <= y (or t < y) known on the path"""
        out = []
        for k, v in st.facts.items():
            if k.__class__ is tuple and len(k) == 4 and k[1] in ('ult', 'eq'):
                _, p, x, y = k
                if p == 'ult':
                    if v and x is t:
                        out.append(y)
                    elif not v and y is t:
                        out.append(x)
                elif v and (x is t or y is t):
                    out.append(y if x is t else x)
        return out

    # -------------------------------------------------------------- guards
    def lin_wraps(self, st, t, within, depth=0):
        terms = [(x, c) for x, c in t.a[0]]
        if any(c < 0 for _, c in terms):
            pass
        s = t.a[1]
        for x, c in terms:
            if c > 0:
                s += c * self.ub(st, x)
        if s < M:
            return False
        # facts  not (b' < a')  i.e. a' <= b'
        addends = set()
        for x, c in terms:
            addends.add(x)
        enclosing = {t} | {w for w in within if t in self.parts(w)}
        for k, v in st.facts.items():
            if not (k.__class__ is tuple and len(k) == 4):
                continue
            _, p, x, y = k
            if p == 'ult':
                lo, hi = (x, y) if v else (y, x)        # lo <= hi on this path
                # a post-check: the result (or what was rounded from it) is not below one of its addends
                if hi in enclosing:
                    dl = lin_parts(lo)[0] if isinstance(lo, T) else {}
                    if dl and all(z in addends for z in dl) and (
                            lo.k != 'lin' or depth > 3 or not self.lin_wraps(st, lo, within, depth + 1)):
                        return False
                # a pre-check: lo <= hi implies  V <= lo + (MAX - hi)
                if isinstance(hi, T) or isinstance(hi, int):
                    try:
                        d = add(add(add(lo, hi, -1), -1), t, -1)     # lo - hi + MAX - V
                    except Exception:
                        d = None
                    if isinstance(d, int) and 0 <= d < (1 << 32):
                        return False
                    if isinstance(d, int) and -(1 << 13) < d < 0 and not v:
                        pass
            if p == 'eq' and v:
                for s_ in (x, y):
                    if isinstance(s_, T) and s_.k == 'op' and s_.a[0] == 'udiv' and s_.a[2] in enclosing:
                        return False
        for w in self.flags(st):
            if w in enclosing:
                return False
        # scaled by a constant: x <= MAX / c
        if len(terms) == 1 and terms[0][1] > 1:
            x, c = terms[0]
            for y in self.rel_upper(st, x):
                if isinstance(y, int) and uns(y, 64) * c + t.a[1] < M:
                    return False
        return True

    def mul_wraps(self, st, t, within):
        x, y = t.a[2], t.a[3]
        if self.ub(st, x) * self.ub(st, y) < M:
            return False
        enclosing = {t} | {w for w in within if t in self.parts(w)}
        for k, v in st.facts.items():
            if not (k.__class__ is tuple and len(k) == 4):
                continue
            _, p, a, b = k
            for s_ in (a, b):
                if isinstance(s_, T) and s_.k == 'op' and s_.a[0] == 'udiv':
                    if p == 'eq' and v and s_.a[2] in enclosing:
                        return False
                    if p == 'ult' and s_.a[3] in (x, y) and known_const(st, s_.a[2]) is not None:
                        other = y if s_.a[3] is x else x
                        lo, hi = (a, b) if v else (b, a)
                        if hi is s_ and lo is other:
                            return False
        return not any(w in enclosing for w in self.flags(st))

    def flags(self, st):
        """results of overflow-checking arithmetic whose flag was tested"""
        out = []
        for k, v in st.facts.items():
            if isinstance(k, T) and k.k == 'ovf':
                c = v.const() if v.__class__ is Inter else None
                if c == 0:
                    out.append(k.a[0])
        return out

    def size_sink(self, eng, st, name, size, ins, ctx):
        self.count('size sinks reached')
        key = f'{ins.fn.name}:{name}'
        self.sinks[key] = self.sinks.get(key, 0) + 1
        if isinstance(size, int):
            return
        subs = self.parts(size)
        for t in subs:
            if t.k == 'lin' or (t.k == 'op' and t.a[0] in ('mul', 'add', 'shl')):
                if self.pointer(t):
                    continue
                self.count('arithmetic obligations')
                if self.exempt(st, t):
                    continue
                w = self.lin_wraps(st, t, subs) if t.k == 'lin' else \
                    self.mul_wraps(st, t, subs) if t.a[0] == 'mul' else self.opwraps(st, t)
                if w:
                    self.bad('wrap', f'{ins.fn.name}:{name}', ins,
                             f'the size given to {name}, {size!r}, contains {t!r}, which can wrap around for some argument '
                             'values: nothing on this path bounds it', st)

    def opwraps(self, st, t):
        if t.a[0] == 'shl':
            return not isinstance(t.a[3], int) and False
        return self.ub(st, t.a[2]) + self.ub(st, t.a[3]) >= M

    def pointer(self, t):
        if t.k != 'lin':
            return False
        return any(x.k in ('obj', 'g') for x, _ in t.a[0])

    def exempt(self, st, t):
        # elements of an array the caller passes: it exists in memory
        if t.k == 'lin' and len(t.a[0]) == 1 and t.a[0][0][1] in (4, 8, 16) and t.a[0][0][0].k == 'arg':
            return self.array_count(t.a[0][0][0])
        return False

    def array_count(self, t):
        """an element count of an entry point that creates something from arrays (not an allocation entry point)"""
        n = self.root.name
        return not any(w in n for w in ('alloc', 'Alloc', 'memalign'))

    def result(self):
        return {'counts': self.counts, 'sinks': self.sinks}


@check('C12', 'path-sensitive wrap-around dataflow on size expressions over LLVM IR', PATHNOTE)
def c12(rep):
    rep.explanation = (
        'Every expression that reaches a size argument of an allocator, mapping or provider operation is decomposed; each '
        'addition and multiplication in it must be bounded by intervals known on the path or be guarded by a comparison that '
        'excludes wrap-around.')
    rep.rules = ['wrap']
    rep.assumptions = ENGINE_ASSUME + ['lengths of strings and arrays that exist in memory are below 2^47']
    res = sweep(rep, SizeChecker, configs(rep, release=True))
    sinks = {}
    for c, u, r in res:
        for k, v in r['sinks'].items():
            sinks[k] = sinks.get(k, 0) + v
    rep.need('size sinks (function, callee)', len(sinks), 40)
    rep.obligations = rep.stats['events'].get('arithmetic obligations', 0)
    rep.need('arithmetic obligations', rep.obligations, 30)
    rep.samples = [f'{k}: reached {v} times' for k, v in sorted(sinks.items())]
