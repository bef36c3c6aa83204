"""Lock discipline along every path: balance (C01), order (C03), guarded fields (C02)."""
from engine import T, split, root_of, known_const
from common import BaseChecker


def lock_class(eng, ins, addr, k=0):
    """name of the lock: the struct member (or global) it is, independent of the object"""
    if isinstance(addr, T):
        b, off = split(addr)
        r = root_of(b)
        if isinstance(r, T) and r.k == 'g':
            n = r.a[0]
            return ('global', n + (f'+{off}' if off else ''))
        t = None
        at = ins.x.get('atags')
        if at and k < len(at):
            t = at[k]
        if t is None or t[0] in ('utils_mutex_t', 'utils_rwlock_t'):
            t = eng.tagof.get(addr) or t
        if t is not None:
            return t
        return ('?', ins.fn.name)
    return ('?', ins.fn.name)


class LockChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.edges = {}          # (classA, classB, same-object?) -> example
        self.ops = {}
        self.acq = {}            # lock class -> count
        self.icalls_held = {}    # (lock class, slot) -> example
        self.internal = variant == 'internal'

    def gckeep(self, st):
        return [k[1] for k in st.ts if k[0] == 'l' and isinstance(k[1], T)]

    def lockop(self, eng, st, op, addr, ins, ctx):
        cls = lock_class(eng, ins, addr)
        where = f'{ins.fn.file}:{ins.line} {ins.fn.name}'
        self.count(op)
        if op in ('lock', 'rdlock', 'wrlock'):
            key = ('l', addr)
            st.note(f'{where}: {op} {".".join(cls)}')
            h = st.ts.get(key)
            if h is not None and not (h[0] == 'rdlock' and op == 'rdlock'):
                self.bad('double-lock', f'{ins.fn.name}:{".".join(cls)}', ins,
                         f'{".".join(cls)} is taken again while this thread already holds it (since {h[2]})', st)
                return False
            for k, v in st.ts.items():
                if k[0] == 'l' and k[1] is not addr:
                    self.edges.setdefault((v[1], cls), f'{where} (holding {".".join(v[1])} since {v[2]}; entry {self.root.name})')
            self.acq[cls] = self.acq.get(cls, 0) + 1
            st.ts[key] = (op, cls, where)
            return None
        key = ('l', addr)
        st.note(f'{where}: {op} {".".join(cls)}')
        h = st.ts.pop(key, None)
        if h is None:
            self.bad('unlock-not-held', f'{ins.fn.name}:{".".join(cls)}', ins,
                     f'{".".join(cls)} is released but this thread does not hold it on this path', st)
            return None
        want = {'unlock': ('lock',), 'rdunlock': ('rdlock',), 'wrunlock': ('wrlock',), 'rwunlock': ('rdlock', 'wrlock')}[op]
        if h[0] not in want:
            self.bad('unlock-kind', f'{ins.fn.name}:{".".join(cls)}', ins,
                     f'{".".join(cls)} was taken by {h[0]} but released by {op}', st)
        return None

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if kind == 'lockinit' and isinstance(v, T) and ('l', v) in st.ts:
            h = st.ts.pop(('l', v))
            self.bad('destroy-held', f'{ins.fn.name}:{".".join(h[1])}', ins,
                     f'{".".join(h[1])} is destroyed while held (since {h[2]})', st)
            return
        if isinstance(v, T) and kind != 'lockinit':
            for k, h in list(st.ts.items()):
                if k[0] == 'l' and isinstance(k[1], T) and root_of(split(k[1])[0]) is v:
                    del st.ts[k]
                    self.bad('free-held', f'{ins.fn.name}:{".".join(h[1])}', ins,
                             f'memory containing {".".join(h[1])} is released while that lock is held (since {h[2]})', st)

    def call(self, eng, st, name, args, ins, ctx):
        if name and not name.startswith('llvm.'):
            for k, v in st.ts.items():
                if k[0] == 'l':
                    if name.startswith('slot:'):
                        self.icalls_held.setdefault((v[1], name[5:]), f'{ins.fn.file}:{ins.line} {ins.fn.name}')
                    elif name in eng.specs and name not in LOCKFN:
                        t = self.prog.fn.get(name)
                        if t is not None and eng.spec_for(name, t) is not None:
                            self.icalls_held.setdefault((v[1], 'fn:' + name), f'{ins.fn.file}:{ins.line} {ins.fn.name}')
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        for k, v in st.ts.items():
            if k[0] != 'l':
                continue
            c = known_const(st, ret) if ret is not None else None
            how = f'return {c}' if c is not None else 'return'
            self.bad('held-at-exit', f'{fn.name}:{".".join(v[1])}:{v[2].split()[-1]}', ins,
                     f'{".".join(v[1])} taken at {v[2]} is still held when {fn.name} returns ({how})', st)

    def result(self):
        return {'counts': self.counts, 'edges': self.edges, 'acq': self.acq, 'icalls': self.icalls_held}


LOCKFN = {'utils_mutex_lock', 'utils_mutex_unlock', 'utils_read_lock', 'utils_write_lock', 'utils_read_unlock',
          'utils_write_unlock', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock',
          'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'utils_mutex_init', 'utils_mutex_destroy_not_free',
          'utils_rwlock_init', 'utils_rwlock_destroy_not_free', 'utils_log', 'utils_plog'}


class GuardChecker(LockChecker):
    """records which locks are held, and on which object, at every access to a member of a live structure"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.pend = {}       # root object -> {(tag, kind, atomic, lockset, once)}
        self.gone = set()
        self.killed = set()  # lock classes destroyed somewhere below this entry point

    def lock_bad(self, rule, key, ins, msg, st=None):
        pass

    def rel(self, b, lock):
        """how the object accessed relates to the object the lock lives in"""
        lb = split(lock)[0] if isinstance(lock, T) else lock
        if lb is b:
            return 'same'
        if not isinstance(lb, T):
            return 'other'
        x, n = b, 0
        while isinstance(x, T) and x.k == 'ld' and n < 6:
            x = split(x.a[0])[0]
            n += 1
            if x is lb:
                return 'child'
        x, n = lb, 0
        while isinstance(x, T) and x.k == 'ld' and n < 6:
            x = split(x.a[0])[0]
            n += 1
            if x is b:
                return 'parent'
        if root_of(lb) is root_of(b):
            return 'kin'
        if root_of(lb).__class__ is T and root_of(lb).k == 'g':
            return 'global'
        return 'other'

    def rec(self, eng, st, addr, ins, kind, v=None):
        if not isinstance(addr, T):
            return
        b, off = split(addr)
        r = root_of(b)
        if not isinstance(r, T) or r.k == 'obj':
            return            # made by this call (not yet published) or on the stack
        tag = ins.tag or eng.tagof.get(addr)
        if r.k == 'g' and (b is r):
            tag = ('global', r.a[0])
        if tag is None:
            return
        atomic = bool(ins.x and isinstance(ins.x, dict) and ins.x.get('atomic')) or ins.op in ('rmw', 'atomicrmw', 'cmpxchg')
        ls = frozenset((h[1], h[0] == 'rdlock', self.rel(b, k[1])) for k, h in st.ts.items() if k[0] == 'l')
        d = self.pend.setdefault(r, {})
        k = (tag, kind, atomic, ls, st.ts.get('inonce') is not None, isinstance(v, int))
        if k not in d:
            d[k] = (ins, st.tracelist())

    def load(self, eng, st, addr, val, ins, ctx):
        self.rec(eng, st, addr, ins, 'r')

    def store(self, eng, st, addr, v, ins, ctx):
        self.rec(eng, st, addr, ins, 'w', v)

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if isinstance(v, T):
            if kind == 'lockinit':
                self.killed.add(lock_class(eng, ins, v))
            else:
                self.gone.add(v)
        super().release(eng, st, kind, v, ins, ctx, extra)
