"""C23: the replacement heap never re-enters its pool and gives memory back where it came from."""
import common
import front
from checks import check, sweep, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker
from engine import T, mk, split, known_const, nonnull, eval_cmp, assume

MODULE = 'src/proxy_lib/proxy_lib.c'
# replaced function -> the function of the pool that serves it and which arguments go where (None: the pool itself)
SERVED = {
    'malloc': ('umfPoolMalloc', (0,)),
    'calloc': ('umfPoolCalloc', (0, 1)),
    'aligned_alloc': ('umfPoolAlignedMalloc', (1, 0)),
    'realloc': ('umfPoolRealloc', (0, 1)),
    'malloc_usable_size': ('umfPoolMallocUsableSize', (0,)),
    'free': ('umfPoolFree', (0,)),
}
NEW = ('malloc', 'calloc', 'aligned_alloc')
INTO = ('umfPoolMalloc', 'umfPoolCalloc', 'umfPoolAlignedMalloc', 'umfPoolRealloc', 'umfPoolMallocUsableSize')


def module_globals(prog):
    return {u: g for u, (g, mod) in prog.glob.items() if u.startswith(MODULE + ':') or any(mod is m for m in [prog.mods.get(MODULE)])}


def used_as(prog):
    """(variables handed to the pool functions as the pool, variables called as functions) of the module"""
    c = prog.__dict__.get('_proxyuse')
    if c is not None:
        return c
    pools, fns = set(), set()
    for f in prog.fn.values():
        if f.tu != MODULE:
            continue
        defs = {i.res: i for b in f.blocks.values() for i in b.insts if i.res}
        for b in f.blocks.values():
            for i in b.insts:
                if i.op != 'call':
                    continue
                c = i.x.get('callee')
                v = c if isinstance(c, str) else i.args[0] if isinstance(c, tuple) and len(c) > 1 and c[1] in INTO + ('umfPoolFree',) and i.args else None
                d = defs.get(v) if isinstance(v, str) else None
                if d is not None and d.op == 'load' and isinstance(d.args[0], tuple) and d.args[0][0] == 'g':
                    for u in module_globals(prog):
                        if u.rsplit(':', 1)[-1] == d.args[0][1]:
                            (fns if isinstance(c, str) else pools).add(u)
    prog._proxyuse = (pools, fns)
    return prog._proxyuse


class ProxyChecker(BaseChecker):
    def setup(self, eng, fn, st, variant):
        eng.joinlimit = eng.joinlimit2 = eng.latecap = 10 ** 6
        self.args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        gl = module_globals(self.prog)
        self.tls = [mk('g', u) for u, g in gl.items() if g.tls and not g.ext]
        self.marks = {g: eng.mload(st, g) for g in self.tls}
        return self.args

    def gckeep(self, st):
        out = [m for m in self.marks.values() if isinstance(m, T)]
        for k, v in st.ts.items():
            for x in (k if isinstance(k, tuple) else ()) + (v if isinstance(v, tuple) else (v,)):
                if isinstance(x, T):
                    out.append(x)
        return out

    def marked(self, eng, st):
        """is the thread known to be marked now"""
        return any(nonnull(st, eng.mload(st, g)) for g in self.tls)

    def was_marked(self, st):
        """was the thread marked on entry: True, False or None"""
        for m in self.marks.values():
            c = known_const(st, m)
            if c == 0:
                return False
            if nonnull(st, m):
                return True
        return None

    def owned(self, st, ptr, pool):
        """True: found in the pool, False: found not to be in it, None: not asked"""
        for k, v in st.ts.items():
            if k[0] == 'byptr' and v is ptr:
                r = eval_cmp(st, 'eq', k[1], pool, 64)
                if r is not None:
                    return r
        return None

    def base(self, st, ptr):
        """True: memory of the fallback, False: not, None: not asked"""
        for k, v in st.ts.items():
            if k[0] == 'contains' and v is ptr:
                if known_const(st, k[1]) == 0:
                    return False
                if nonnull(st, k[1]):
                    return True
            if k[0] == 'leakfree' and v is ptr:
                if nonnull(st, k[1]):
                    return False
                if known_const(st, k[1]) == 0:
                    return True
        return None

    def call(self, eng, st, name, args, ins, ctx):
        key = f'{self.root.name}:{name}'
        if name.startswith('slot:') and ins.tag:
            name = ins.tag[1]
        sysfn = None
        if not isinstance(ins.x.get('callee'), tuple):
            v = eng.cur_callee if eng.cur_callee is not None else None
            if isinstance(v, T) and v.k == 'ld' and isinstance(v.a[0], T) and v.a[0].k == 'g':
                sysfn = v.a[0].a[0].rsplit(':', 1)[-1]
        if name in ('umfPoolByPtr',):
            r = mk('sym', name, ins.id, ctx)
            st.ts[('byptr', r)] = args[0]
            return [(st, r)]
        if name == 'umf_ba_linear_pool_contains_pointer' and len(args) == 2:
            r = mk('sym', name, ins.id, ctx)
            st.ts[('contains', r)] = args[1]
            return [(st, r)]
        if name == 'umf_ba_linear_free' and len(args) == 2:
            self.count('releases to the fallback')
            r = mk('sym', name, ins.id, ctx)
            st.ts[('leakfree', r)] = args[1]
            return [(st, r)]
        if name == 'umf_ba_linear_alloc':
            self.count('allocations from the fallback')
            r = mk('sym', name, ins.id, ctx)
            st.ts[('got', r)] = 'fallback'
            return [(st, r)]
        if name in INTO or name == 'umfPoolFree':
            self.count('calls into the pool')
            self.into_pool(eng, st, name, args, ins, key)
            r = mk('sym', name, ins.id, ctx)
            st.ts[('got', r)] = 'pool'
            st.ts['poolcall'] = r
            return [(st, r)]
        if name == 'umfPoolDestroy':
            self.destroyed(eng, st, args[0], ins)
            return [(st, None if not ins.res else mk('sym', name, ins.id, ctx))]
        if sysfn is not None and self.root.name in SERVED:
            self.count('calls of the system allocator')
            self.to_system(eng, st, sysfn, args, ins)
            r = mk('sym', 'system', ins.id, ctx)
            st.ts[('got', r)] = 'system'
            return [(st, r if ins.res else None)]
        return None

    def into_pool(self, eng, st, name, args, ins, key):
        root = self.root.name
        if root not in SERVED or len(args) < 2:
            return
        if name in INTO and not self.marked(eng, st):
            self.bad('unmarked', key, ins, f'{root} calls {name} without having marked the thread: a heap function the pool calls would enter the pool again', st)
        pool = args[0]
        if not nonnull(st, pool) and not any(k[0] == 'byptr' and self.owned(st, v, pool) for k, v in st.ts.items()):
            self.bad('no-pool', key, ins, f'{root} calls {name} although there may be no pool yet', st)
        if root in NEW:
            if self.was_marked(st) is not False:
                self.bad('re-entered', key, ins, f'{root} calls {name} although the thread may be inside the pool already', st)
        else:
            ptr = self.args[0]
            if not (root == 'realloc' and name in ('umfPoolMalloc',)):
                if self.base(st, ptr) is not False:
                    self.bad('fallback-to-pool', key, ins, f'{root} passes memory to the pool that may come from the fallback allocator', st)
                if self.owned(st, ptr, pool) is not True:
                    self.bad('foreign-to-pool', key, ins, f'{root} passes memory to the pool that was not found to be of it', st)
        want, order = SERVED[root]
        if name == want:
            for i, j in enumerate(order):
                if args[i + 1] is not self.args[j]:
                    self.bad('wrong-arguments', f'{key}:{i}', ins, f'{root} calls {name} with other arguments than its own', st)
        elif not (root == 'realloc' and name in ('umfPoolMalloc', 'umfPoolFree')):
            self.bad('wrong-arguments', key, ins, f'{root} is served by {name}', st)

    def to_system(self, eng, st, sysfn, args, ins):
        root = self.root.name
        if root in NEW:
            for i, a in enumerate(args):
                if i < len(self.args) and a is not self.args[i]:
                    self.bad('wrong-arguments', f'{root}:{sysfn}:{i}', ins, f'{root} calls the system allocator with other arguments than its own', st)
            return
        if root == 'realloc' and args and args[0] is not self.args[0]:
            return                      # served as a new allocation
        ptr = self.args[0]
        if args and args[0] is ptr:
            if self.base(st, ptr) is not False:
                self.bad('fallback-to-system', f'{root}:{sysfn}', ins, f'{root} passes memory to the system allocator that may come from the fallback allocator', st)
            pools = [v for v in self.pool_values(eng, st)]
            if not any(self.owned(st, ptr, p) is False or known_const(st, p) == 0 for p in pools):
                self.bad('pool-to-system', f'{root}:{sysfn}', ins, f'{root} passes memory to the system allocator that may belong to the pool', st)
        if len(args) > 1 and args[1] is not self.args[1]:
            self.bad('wrong-arguments', f'{root}:{sysfn}:1', ins, f'{root} calls the system allocator with other arguments than its own', st)

    def pool_values(self, eng, st):
        return [eng.mload(st, mk('g', u)) for u in used_as(self.prog)[0]]

    def store(self, eng, st, addr, v, ins, ctx):
        if not (isinstance(addr, T) and addr.k == 'g') or known_const(st, v) == 0:
            return
        g = module_globals(self.prog).get(addr.a[0])
        if g is None or g.tls or g.ty.k != 'int' or self.root.name in SERVED:
            return
        self.count('thresholds set')
        for u in used_as(self.prog)[1]:
            if not nonnull(st, eng.mload(st, mk('g', u))):
                self.bad('no-system-allocator', f'{ins.fn.name}:{u.rsplit(":", 1)[-1]}', ins,
                         f'{ins.fn.name} directs small requests to the system allocator although {u.rsplit(":", 1)[-1]} may not have been found', st)

    def destroyed(self, eng, st, pool, ins):
        self.count('destructions')
        for u, g in module_globals(self.prog).items():
            if not g.ext and not g.tls and g.ty.k == 'ptr' and isinstance(pool, T) and eng.mload(st, mk('g', u)) is pool and known_const(st, pool) != 0:
                self.bad('destroyed-in-use', self.root.name, ins, f'{self.root.name} destroys the pool while the heap functions still use it', st)

    def root_exit(self, eng, st, fn, ret, ins):
        if ins is None or fn.name not in SERVED:
            return
        self.count('returns examined')
        for g, m in self.marks.items():
            v = eng.mload(st, g)
            if v is m:
                continue
            c = known_const(st, v)
            if c != 0:
                self.bad('mark-left', fn.name, ins, f'{fn.name} may return with the thread still marked: the pool is never used by it again', st)
            elif fn.name in NEW and self.was_marked(st) is not False:
                self.bad('mark-lost', fn.name, ins, f'{fn.name} unmarks a thread that was marked by its caller', st)
        got = [(k[1], v) for k, v in st.ts.items() if k[0] == 'got']
        if fn.name in NEW and isinstance(ret, (T, int)) and not got and known_const(st, ret) != 0:
            self.bad('not-served', fn.name, ins, f'{fn.name} returns memory that no allocator gave', st)
        if fn.name in NEW and ret is not None:
            for r, who in got:
                if known_const(st, r) == 0:
                    continue
                if who != 'fallback' and ret is not r and not (known_const(st, ret) is not None and known_const(st, r) == known_const(st, ret)):
                    self.bad('not-served', f'{fn.name}:{who}', ins, f'{fn.name} does not return what the {who} allocator gave', st)
        if fn.name == 'free' and self.args and nonnull(st, self.args[0]):
            back = 'poolcall' in st.ts or any(v == 'system' for k, v in st.ts.items() if k[0] == 'got') or self.base(st, self.args[0])
            if not back and self.base(st, self.args[0]) is None:
                self.bad('not-returned', fn.name, ins, 'free returns without having given the memory back to anyone', st)


RULES = ['unmarked', 're-entered', 'no-pool', 'fallback-to-pool', 'foreign-to-pool', 'fallback-to-system', 'pool-to-system', 'mark-left', 'mark-lost',
         'not-served', 'not-returned', 'wrong-arguments', 'destroyed-in-use', 'no-system-allocator']


def proxy_roots(prog):
    return [f for f in prog.fn.values() if f.tu == MODULE and not f.internal]


@check('C23', 'path analysis of the per-thread mark and of the ownership tests in every replaced heap function', PATHNOTE)
def c23(rep):
    rep.explanation = (
        'Every path of every replaced heap function is followed: the pool is only asked for memory (or to resize or measure a block) while the '
        'thread is marked, an allocation only enters the pool if the thread was not marked before, each return leaves the mark as it was found, '
        'memory only goes to the pool when it was looked up there and is not of the fallback allocator, and to the system allocator only when '
        'both others were ruled out; arguments and results are passed through; and the pool variable is cleared before the pool is destroyed.')
    rep.rules = RULES
    rep.assumptions = ENGINE_ASSUME + ['code that runs inside the pool does not resize or measure blocks the pool itself handed out',
                                       'releasing a block of the pool calls no allocation function of the replaced heap']
    res = sweep(rep, ProxyChecker, ['proxy', 'proxyrel'], rootsel=proxy_roots)
    tot = {}
    for _, _, r in res:
        for k, v in r['counts'].items():
            tot[k] = tot.get(k, 0) + v
    rep.stats['counts'] = tot
    rep.obligations += tot.get('calls into the pool', 0) + tot.get('returns examined', 0) + tot.get('calls of the system allocator', 0)
    rep.need('replaced functions', len({u for _, u, _ in res}), 4)
    rep.need('calls into the pool', tot.get('calls into the pool', 0), 4)
