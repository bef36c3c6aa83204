"""C17 the allocation tracker agrees with the provider, C18 IPC references are paired."""
import front
import common
import roles
from checks import check, sweep, configs, module_roots, ENGINE_ASSUME
from check_paths import PATHNOTE
from check_struct import struct_leaves, PROV, EXTT, IPCT
from common import BaseChecker
from engine import T, mk, split, root_of, known_const, nonnull, subterms, add

TU = 'provider_tracking.c'


def role_of(prog, f):
    """member of the provider operation table that the function implements in the tracking provider"""
    for t in sorted(roles.roles(prog).get(f.uname, ())):
        if t[0] in (PROV, EXTT, IPCT):
            return t[1]
    return None


def track_roots(prog):
    return [f for f in module_roots(prog) if f.tu.endswith(TU)]


def maprange(prog):
    """(first, last, field) byte ranges of the index pointers inside the tracker"""
    c = prog.__dict__.get('_maprange')
    if c is None:
        c = {}
        for off, tag, ty in struct_leaves(prog, 'umf_memory_tracker_t'):
            if tag[0] == 'umf_memory_tracker_t' and ty.k == 'ptr':
                c.setdefault(tag[1], []).append(off)
        prog._maprange = c = {k: (min(v), max(v)) for k, v in c.items()}
    return c


class TrackBase(BaseChecker):
    """shared recognition of the tracker's indexes"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.ldtag = {}
        self.role = role_of(prog, root)

    def load(self, eng, st, addr, val, ins, ctx):
        if ins.tag is not None and isinstance(val, T) and val.k == 'ld':
            self.ldtag[val] = ins.tag

    def mapclass(self, m):
        """('alloc', level) / ('ipc', 0) / ('cache', 0) for an index pointer"""
        if not isinstance(m, T) or m.k != 'ld':
            return None
        t = self.ldtag.get(m)
        if t is not None and t[1] == 'ipcCache':
            return ('cache', 0)
        b, off = m.a[0], m.a[1]
        bt = self.ldtag.get(b)
        if (bt is not None and bt[1] == 'hTracker') or \
                (isinstance(b, T) and b.k == 'ld' and b.a[0].__class__ is T and b.a[0].k == 'g' and b.a[0].a[0] == 'TRACKER') or \
                (t is not None and t[0] == 'umf_memory_tracker_t'):
            for f, (lo, hi) in maprange(self.prog).items():
                if isinstance(off, int) and lo <= off <= hi:
                    return ('alloc' if f == 'alloc_segments_map' else 'ipc' if f == 'ipc_segments_map' else f, (off - lo) // 8)
        return None

    def cells(self, st, v):
        return {x for (b, off), x in st.mem.items() if b is v and off != '@r'}


    def call(self, eng, st, name, args, ins, ctx):
        # which keys were looked for (found or not)
        if name in ('critnib_find', 'critnib_get', 'critnib_find_le', 'critnib_remove') and args:
            c = self.mapclass(args[0])
            if c is not None:
                st.ts[('rmtry', c[0], args[1])] = 1
                st.ts[('asked', ins.id)] = args[1]
                if c[0] == 'alloc':
                    st.ts.pop(('redo', args[1]), None)
        return None


class TrackChecker(TrackBase):
    # ---------------------------------------------------------- upstream
    def upstream(self, eng, st, op, a, o, ins, ctx):
        self.count('upstream operations')
        ts = st.ts
        if op in ('alloc', 'split', 'merge', 'merge_failed', 'open', 'free', 'free_failed', 'close'):
            ts[('op', op)] = tuple(a)
        if op == 'alloc':
            ts[('mem', o)] = ('live', a[1])
        elif op == 'open':
            ts[('map', o)] = 'live'
        elif op in ('free', 'free_failed'):
            self.gone(st, a[1], 'alloc', 'mem', ins, 'umfMemoryProviderFree')
            if op == 'free_failed' and ('rm', 'alloc', a[1]) in ts:
                ts[('back', a[1])] = a[2]
                ts[('redo', a[1])] = 1
        elif op in ('close', 'close_failed'):
            self.gone(st, a[1], 'ipc', 'map', ins, 'umfMemoryProviderCloseIPCHandle')

    def gone(self, st, p, cls, kind, ins, what):
        """memory goes back upstream: the tracker must not know it any more"""
        if known_const(st, p) == 0:
            return
        self.count('give-backs')
        if ('in', cls, p) in st.ts:
            self.bad('given-back-while-tracked', f'{self.role or self.root.name}', ins,
                     f'{what} gets memory back that the tracker still attributes to the pool', st)
        elif (kind, p) in st.ts:
            st.ts[(kind, p)] = 'gone'
        elif ('rm', cls, p) not in st.ts and ('rmtry', cls, p) not in st.ts:
            self.bad('given-back-before-removal', f'{self.role or self.root.name}', ins,
                     f'{what} gets memory back before it was removed from the tracker', st)

    # -------------------------------------------------------------- index
    def lookup(self, eng, st, m, o, ins, ctx):
        c = self.mapclass(m)
        if c is not None:
            st.ts[('found', o)] = c
            st.ts[('key', o)] = mk('sym', 'foundkey', ins.id, ctx)

    def index(self, eng, st, op, a, ins, ctx):
        c = self.mapclass(a[0])
        if c is None or c[0] not in ('alloc', 'ipc'):
            return
        self.count(f'tracker {op}s')
        ts = st.ts
        cls, level = c
        key = a[1]
        nm = self.role or self.root.name
        ops = {k[1] for k in ts if k[0] == 'op'}
        if op == 'insert':
            upd = known_const(st, a[3])
            if cls == 'alloc' and not ops & {'alloc', 'split', 'merge', 'free_failed'} or cls == 'ipc' and 'open' not in ops:
                self.bad('tracked-too-early', nm, ins, f'{nm} makes memory known to the tracker before the upstream provider supplied it', st)
                return
            kind = 'mem' if cls == 'alloc' else 'map'
            live = ts.get((kind, key))
            known = ('in', cls, key) in ts or ('rm', cls, key) in ts or ('back', key) in ts
            part = any(k in ops for k in ('split', 'merge')) and cls == 'alloc'
            if live == 'gone':
                self.bad('tracked-after-give-back', nm, ins, f'{nm} makes memory known to the tracker after giving it back', st)
            elif live is None and not known and not part:
                self.bad('tracked-foreign', nm, ins, f'{nm} makes something known to the tracker that the upstream provider did not supply', st)
            ts.pop(('redo', key), None)
            ts[('in', cls, key)] = (level, a[2])
            ts.pop(('rm', cls, key), None)
            if upd == 0 and cls == 'alloc':
                self.want(ts, 1, level)
        else:
            if cls == 'alloc' and not ops and self.role not in ('free', 'alloc'):
                self.bad('removed-too-early', nm, ins, f'{nm} removes memory from the tracker although nothing was given back', st)
            ts[('rm', cls, key)] = level
            ts.pop(('in', cls, key), None)
            if cls == 'alloc':
                self.want(ts, -1, level)

    @staticmethod
    def want(ts, d, level):
        if level:
            k = ('kids', level - 1)
            ts[k] = ts.get(k, ()) + (d,)

    # ----------------------------------------------------------- counters
    def store(self, eng, st, addr, v, ins, ctx):
        tag = ins.tag or eng.tagof.get(addr)
        if tag is not None and tag[1] == 'n_children' and isinstance(addr, T):
            b, off = split(addr)
            f = st.ts.get(('found', b))
            if f is not None and isinstance(v, T):
                old = st.mem.get((b, off))
                d = add(v, old, -1) if isinstance(old, T) else None
                if d is None:
                    d = next((x for x in (1, -1) if isinstance(add(v, x, -1), T) and add(v, x, -1).k == 'ld'), None)
                if isinstance(d, int):
                    self.count('child counter updates')
                    k = ('kidup', f[1])
                    st.ts[k] = st.ts.get(k, ()) + (d,)

    # -------------------------------------------------------------- exits
    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        ts = st.ts
        role = self.role
        nm = role or fn.name
        rc = known_const(st, ret) if ret is not None else None
        ok = rc == 0
        ops = {k[1]: v for k, v in ts.items() if k[0] == 'op'}
        # child counters follow the nested entries
        for lv in {k[1] for k in ts if k[0] in ('kids', 'kidup')}:
            exp, got = ts.get(('kids', lv), ()), ts.get(('kidup', lv), ())
            if sum(exp) != sum(got):
                self.bad('child-counter', f'{nm}', ins, f'{nm} changes the number of tracker entries nested below level {lv} by {sum(exp)} '
                         f'but the child counter of their parent by {sum(got)}', st)
            else:
                self.count('nested changes with counter')
        # memory the pool holds is known to the tracker, and the other way round
        for k, v in list(ts.items()):
            if k[0] in ('mem', 'map'):
                cls = 'alloc' if k[0] == 'mem' else 'ipc'
                p = k[1]
                ent = ts.get(('in', cls, p))
                live = v != 'gone'
                if live and ent is None and (role in ('alloc', 'open_ipc_handle')) and ok:
                    self.bad('untracked', nm, ins, f'{nm} succeeds with memory the tracker does not know', st)
                elif live and ent is None and not ok and rc is not None:
                    self.bad('not-given-back', nm, ins, f'{nm} fails and keeps memory of the upstream provider that the tracker does not know', st)
                elif ent is not None and live and not ok and rc is not None:
                    self.bad('tracked-on-failure', nm, ins, f'{nm} fails although memory stays in the tracker', st)
                elif ent is not None and cls == 'alloc' and live:
                    self.count('allocations tracked')
                    self.entry(st, nm, ins, ent[1], v[1], 'size')
                elif ent is not None:
                    self.count('mappings tracked')
            elif k[0] == 'back':
                ent = ts.get(('in', 'alloc', k[1]))
                if ent is not None:
                    self.count('restored after failed free')
                    self.entry(st, nm, ins, ent[1], v, 'size')
                elif ('redo', k[1]) in ts:
                    self.bad('not-restored', nm, ins, f'{nm} does not make memory known again that the upstream provider refused to take back', st)
        if role == 'allocation_split':
            self.split(st, nm, ins, ops, ok)
        elif role == 'allocation_merge':
            self.merge(st, nm, ins, ops, ok)
        elif role == 'free':
            a = eng.root_args
            if known_const(st, a[1]) != 0 and 'free' in ops and ok and ('rmtry', 'alloc', a[1]) not in ts and ('rm', 'alloc', a[1]) not in ts:
                self.bad('given-back-before-removal', nm, ins, f'{nm} never tries to remove the memory from the tracker', st)

    def entry(self, st, nm, ins, val, size, what):
        cs = self.cells(st, val)
        self.count('entries compared')
        if size not in cs:
            self.bad('entry-size', nm, ins, f'{nm} records an entry whose size is not the size of the memory', st)
        if not any(self.ldtag.get(x, (0, 0))[1] == 'pool' for x in cs if isinstance(x, T)):
            self.bad('entry-pool', nm, ins, f'{nm} records an entry that does not name the pool of the provider', st)

    def split(self, st, nm, ins, ops, ok):
        p, total, first = self.eng.root_args[1:4]
        changed = {k[2]: v for k, v in st.ts.items() if k[0] == 'in'}
        if not ok:
            if 'split' in ops and 'merge' not in ops and 'merge_failed' not in ops:
                self.bad('split-not-undone', nm, ins, f'{nm} fails after the upstream provider has split the memory', st)
            if any(('found', v[1]) not in st.ts for v in changed.values()):
                self.bad('changed-on-failure', nm, ins, f'{nm} fails but has changed the tracker', st)
            return
        if 'split' not in ops:
            self.bad('split-without-upstream', nm, ins, f'{nm} succeeds without the upstream provider', st)
            return
        self.count('splits completed')
        if ops['split'][1] is not p or ops['split'][2] is not total or ops['split'][3] is not first:
            self.bad('split-arguments', nm, ins, f'{nm} asks the upstream provider for a different split', st)
        hi, rest = add(p, first), add(total, first, -1)
        for key, size in ((p, first), (hi, rest)):
            e = changed.get(key)
            if e is None:
                self.bad('split-entry-missing', nm, ins, f'{nm} succeeds without an entry for each half', st)
            else:
                self.entry(st, nm, ins, e[1], size, 'size')

    def merge(self, st, nm, ins, ops, ok):
        lo, hi, total = self.eng.root_args[1:4]
        changed = {k[2]: v for k, v in st.ts.items() if k[0] == 'in'}
        removed = {k[2] for k in st.ts if k[0] == 'rm'}
        if not ok:
            if 'merge' in ops:
                self.bad('merge-not-undone', nm, ins, f'{nm} fails after the upstream provider has merged the memory', st)
            if changed or removed:
                self.bad('changed-on-failure', nm, ins, f'{nm} fails but has changed the tracker', st)
            return
        if 'merge' not in ops:
            self.bad('merge-without-upstream', nm, ins, f'{nm} succeeds without the upstream provider', st)
            return
        self.count('merges completed')
        if ops['merge'][1] is not lo or ops['merge'][2] is not hi or ops['merge'][3] is not total:
            self.bad('merge-arguments', nm, ins, f'{nm} asks the upstream provider for a different merge', st)
        e = changed.get(lo)
        if e is None or hi in changed or hi not in removed:
            self.bad('merge-entry', nm, ins, f'{nm} succeeds without replacing the two entries by one', st)
        else:
            self.entry(st, nm, ins, e[1], total, 'size')


class QueryChecker(TrackBase):
    """attribution queries: the answer comes from one entry whose range contains the pointer"""

    lookup = TrackChecker.lookup

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('query exits')
        out = eng.root_args[1]
        p = eng.root_args[0]
        cells = {off: v for (b, off), v in st.mem.items() if b is out and off != '@r'}
        if known_const(st, ret) != 0:
            if cells:
                self.bad('query-output-on-failure', fn.name, ins, f'{fn.name} fails but has written an answer', st)
            return
        self.count('answers')
        if not cells:
            self.bad('query-no-answer', fn.name, ins, f'{fn.name} succeeds without an answer', st)
            return
        src = set()
        for v in cells.values():
            o = None
            if isinstance(v, T) and v.k == 'ld':
                o = v.a[0]
            elif isinstance(v, T) and v.k == 'sym':
                o = next((k[1] for k, x in st.ts.items() if k[0] == 'key' and x is v), None)
            src.add(o)
        if len(src) != 1 or None in src or ('found', next(iter(src))) not in st.ts:
            self.bad('query-mixed', fn.name, ins, f'{fn.name} answers with data that is not from one tracker entry', st)
            return
        o = next(iter(src))
        key = st.ts[('key', o)]
        inside = False
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'c' and p in (k[2], k[3]):
                other = k[3] if k[2] is p else k[2]
                parts = set()
                if isinstance(other, T):
                    subterms(other, parts)
                if key in parts and any(isinstance(x, T) and x.k == 'ld' and x.a[0] is o for x in parts):
                    less = (k[1] in ('ult', 'ule')) == (k[2] is p)
                    if less == bool(v):
                        inside = True
        if not inside:
            self.bad('query-outside', fn.name, ins, f'{fn.name} answers with an entry whose range was not found to contain the pointer', st)


@check('C17', 'path-sensitive typestate of tracker entries against upstream operations over LLVM IR', PATHNOTE)
def c17(rep):
    rep.explanation = (
        'Every operation of the tracking provider is followed over both outcomes of each upstream operation and index '
        'operation. Entries may be inserted only for memory the upstream provider supplied on the path, with its size and the '
        'provider\'s pool; memory may go back only after its removal was attempted; every failing path leaves the tracker as '
        'it was; split and merge leave exactly the entries of the parts; nested entries and the parent\'s child counter move '
        'together. Attribution queries must answer from one entry whose range was found to contain the pointer.')
    rep.rules = ['tracked-too-early', 'tracked-after-give-back', 'tracked-foreign', 'removed-too-early', 'given-back-while-tracked',
                 'given-back-before-removal', 'untracked', 'not-given-back', 'tracked-on-failure', 'entry-size', 'entry-pool',
                 'split-*', 'merge-*', 'changed-on-failure', 'child-counter', 'not-restored', 'query-*']
    rep.assumptions = ENGINE_ASSUME
    sweep(rep, TrackChecker, configs(rep), rootsel=track_roots)
    sweep(rep, QueryChecker, configs(rep), rootsel=lambda p: [
        f for f in p.fn.values() if f.tu.endswith(TU) and f.name in ('umfMemoryTrackerGetAllocInfo', 'umfMemoryTrackerGetIpcInfo')])
    ev = rep.stats['events']
    rep.need('upstream operations', ev.get('upstream operations', 0), 20)
    rep.need('tracker entries compared', ev.get('entries compared', 0), 6)
    rep.need('answers', ev.get('answers', 0), 3)
    for what, rule in (('restored after failed free', 'not-restored'), ('nested changes with counter', 'child-counter')):
        if not ev.get(what, 0):
            prog = front.load('full')
            f = [f for f in track_roots(prog) if role_of(prog, f) == 'free'][0]
            rep.add(common.vio(rule, rule + '|none', f.blocks[next(iter(f.blocks))].insts[0], f'no path: {what}'))
    rep.obligations = sum(ev.get(k, 0) for k in ('exits', 'query exits', 'tracker inserts', 'tracker removes', 'give-backs'))


# ------------------------------------------------------------------- C18
class CacheChecker(BaseChecker):
    """reference counts inside the cache of opened handles"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.ldtag = {}

    def load(self, eng, st, addr, val, ins, ctx):
        TrackBase.load(self, eng, st, addr, val, ins, ctx)
        if isinstance(addr, T) and self.is_ref(eng, addr, ins):
            b, off = split(addr)
            st.ts[('cnt', b, off)] = val

    def gckeep(self, st):
        return [v for k, v in st.ts.items() if k[0] == 'cnt' and isinstance(v, T)]

    def is_ref(self, eng, addr, ins):
        tag = ins.tag or eng.tagof.get(addr)
        return tag is not None and tag[1] == 'ref_count'

    def fresh(self, b):
        r = root_of(b)
        return isinstance(r, T) and r.k == 'obj' and r.a[0] != 'stack'

    def origin(self, b):
        parts = set()
        subterms(b, parts)
        tags = {self.ldtag.get(x) for x in parts if isinstance(x, T)}
        return 'lru' if tags & {('ipc_opened_cache_global_t', 'lru_list'), ('ipc_opened_cache_entry_t', 'prev'),
                                ('ipc_opened_cache_entry_t', 'next')} else 'hash'

    def idle(self, st, b, off):
        v = st.ts.get(('cnt', b, off))
        return v is not None and known_const(st, v) == 0

    def store(self, eng, st, addr, v, ins, ctx):
        if not isinstance(addr, T) or not self.is_ref(eng, addr, ins):
            return
        b, off = split(addr)
        self.count('reference count updates')
        old = st.mem.get((b, off))
        if isinstance(v, int) and not self.fresh(b):
            if old is None or not isinstance(old, int):
                if not self.idle(st, b, off):
                    self.bad('evicted-in-use', f'{self.root.name}:{self.origin(b)}', ins,
                             f'{self.root.name} reuses a cache entry without having found its reference count to be zero', st)
                st.ts[('ref', b, off)] = v
                return
        d = None
        if ('ref', b, off) in st.ts or isinstance(v, int):
            base = st.ts.get(('ref', b, off), 0)
            st.ts[('ref', b, off)] = v if isinstance(v, int) else base + 100
            return
        for x in (1, -1):
            t = add(v, x, -1)
            if isinstance(t, T) and t.k == 'ld' and t.a[0] is b and t.a[1] == off:
                d = x
        st.ts[('refd', b, off)] = st.ts.get(('refd', b, off), 0) + (d if d is not None else 100)

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if kind == 'ba_pool_chunk' and isinstance(v, T) and not self.fresh(v) and self.root.name != 'umfIpcOpenedCacheDestroy':
            off = next((o for o, t, _ in struct_leaves(self.prog, 'ipc_opened_cache_entry_t') if t[1] == 'ref_count'), None)
            if off is None or not self.idle(st, v, off):
                self.bad('evicted-in-use', f'{self.root.name}:{self.origin(v)}', ins,
                         f'{self.root.name} discards a cache entry without having found its reference count to be zero', st)

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('cache exits')
        ok = known_const(st, ret) == 0
        refs = {k[1:]: v for k, v in st.ts.items() if k[0] == 'ref'}
        ds = {k[1:]: v for k, v in st.ts.items() if k[0] == 'refd'}
        if fn.name == 'umfIpcOpenedCacheGet':
            if not ok:
                if ds or any(v for v in refs.values()):
                    self.bad('reference-on-failure', fn.name, ins, f'{fn.name} fails but keeps a reference', st)
                return
            self.count('references taken')
            tot = list(refs.items()) + list(ds.items())
            out = st.mem.get((eng.root_args[-1], 0))
            ob = split(out)[0] if isinstance(out, T) else None
            if len(tot) != 1 or tot[0][1] != 1:
                self.bad('reference-count', fn.name, ins, f'{fn.name} succeeds without taking exactly one reference', st)
            elif ob is not tot[0][0][0]:
                self.bad('reference-of-other', fn.name, ins, f'{fn.name} takes the reference on an entry other than the one it returns', st)
        else:
            n = sum(ds.values())
            if ok and (refs or n != -1):
                self.bad('reference-count', fn.name, ins, f'{fn.name} succeeds without dropping exactly one reference', st)
            elif not ok and (refs or ds):
                self.bad('reference-on-failure', fn.name, ins, f'{fn.name} fails but changes a reference count', st)
            elif ok:
                self.count('references dropped')


class IpcUseChecker(TrackBase):
    """references, handles and mappings in the tracking provider"""
    lookup = TrackChecker.lookup

    def nm(self):
        return self.role or self.root.name

    def acquire(self, eng, st, kind, o, ins, ctx, extra):
        if kind == 'ipcref':
            st.ts[('ref',)] = st.ts.get(('ref',), 0) + 1
            st.ts[('refobj',)] = o

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if kind == 'ipcref':
            st.ts[('ref',)] = st.ts.get(('ref',), 0) - 1
            self.count('references released')
            if st.ts.get(('refobj',)) is not v:
                ok = isinstance(v, T) and v.k == 'ld' and st.ts.get(('found', v.a[0]), (0,))[0] == 'ipc'
                if not ok:
                    self.bad('reference-of-other', self.nm(), ins, f'{self.nm()} drops the reference of something that was not looked up or opened here', st)
                elif self.role == 'close_ipc_handle' and st.ts.get(('wanted', v.a[0])) is not self.eng.root_args[1]:
                    self.bad('reference-of-other', self.nm(), ins, f'{self.nm()} drops the reference of a mapping found under another address', st)
        if kind in ('ba_global', 'ba_pool_chunk') and isinstance(v, T) and st.ts.get(('h', v)) == 'got':
            self.bad('handle-lost', self.nm(), ins, f'{self.nm()} discards an IPC handle without giving it back to the provider', st)

    def lookup(self, eng, st, m, o, ins, ctx):
        TrackChecker.lookup(self, eng, st, m, o, ins, ctx)
        st.ts[('wanted', o)] = st.ts.get(('asked', ins.id))

    def upstream(self, eng, st, op, a, o, ins, ctx):
        self.count('upstream operations')
        ts = st.ts
        t = self.ldtag.get(a[0]) if isinstance(a[0], T) else None
        if t is None or t[1] != 'hUpstream':
            self.bad('wrong-provider', f'{self.nm()}:{op}', ins, f'{self.nm()} runs {op} on a provider other than the wrapped one', st)
        if op == 'get':
            r = root_of(split(a[3])[0])
            ts[('h', r)] = 'got'
            ts[('hkey', r)] = a[1]
        elif op == 'put':
            r = root_of(split(a[1])[0])
            if ts.get(('h', r)) == 'put':
                self.bad('handle-put-twice', self.nm(), ins, f'{self.nm()} gives the same IPC handle back twice', st)
            elif ('h', r) not in ts:
                self.bad('handle-foreign', self.nm(), ins, f'{self.nm()} gives back an IPC handle that it neither made nor took from the cache', st)
            self.count('handles put')
            ts[('h', r)] = 'put'
        elif op in ('close', 'close_failed'):
            ts[('closed', a[1])] = ts.get(('closed', a[1]), 0) + 1
        elif op in ('free', 'free_failed'):
            if known_const(st, a[1]) != 0 and ('rmtry', 'cache', a[1]) not in ts and ('livemem', a[1]) not in ts:
                self.bad('handle-kept', self.nm(), ins, f'{self.nm()} frees memory without discarding its cached IPC handle', st)
            for k, v in ts.items():
                if k[0] == 'h' and v == 'taken':
                    self.bad('handle-not-put', self.nm(), ins, f'{self.nm()} frees the memory before its IPC handle is given back', st)
        elif op == 'alloc':
            ts[('livemem', o)] = 1
        elif op == 'open':
            ts[('opened', o)] = 1

    def index(self, eng, st, op, a, ins, ctx):
        c = self.mapclass(a[0])
        if c is None:
            return
        if c[0] == 'cache' and op == 'insert':
            r = root_of(split(a[2])[0])
            if st.ts.get(('h', r)) == 'got':
                self.count('handles cached')
                if st.ts.get(('hkey', r)) is not a[1]:
                    self.bad('handle-key', self.nm(), ins, f'{self.nm()} caches the IPC handle under an address other than that of its memory', st)
                st.ts[('h', r)] = 'cached'
        elif c[0] == 'ipc' and op == 'insert':
            self.count('mappings registered')
            cs = self.cells(st, a[2])
            if not any(self.ldtag.get(x, (0, 0)) == ('umf_memory_pool_t', 'provider') for x in cs if isinstance(x, T)):
                self.bad('mapping-provider', self.nm(), ins, f'{self.nm()} registers a mapping without the provider that must close it', st)
            if st.ts.get(('refobj',)) not in cs:
                self.bad('mapping-reference', self.nm(), ins, f'{self.nm()} registers a mapping without the cache entry that holds its reference', st)

    def taken_from(self, eng, st, cont, o, ins, ctx):
        c = self.mapclass(cont)
        if c is not None and c[0] == 'cache':
            self.count('handles taken from the cache')
            st.ts[('h', o)] = 'taken'

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('provider exits')
        ts = st.ts
        nm = self.nm()
        ok = ret is not None and known_const(st, ret) == 0
        n = ts.get(('ref',), 0)
        want = {'open_ipc_handle': 1 if ok else 0, 'close_ipc_handle': -1 if ok else 0}.get(self.role, 0)
        if ok and self.role == 'close_ipc_handle' or self.role == 'open_ipc_handle':
            self.count('reference balances')
        if n != want:
            self.bad('reference-balance', nm, ins, f'{nm} {"succeeds" if ok else "fails"} with {n:+d} references instead of {want:+d}', st)
        for k, v in ts.items():
            if k[0] == 'h' and v in ('got', 'taken'):
                self.bad('handle-not-put', nm, ins, f'{nm} neither caches the IPC handle nor gives it back to the provider', st)
            if k[0] == 'opened' and ok and self.role == 'open_ipc_handle':
                out = st.mem.get((eng.root_args[2], 0))
                if out is not k[1]:
                    self.bad('mapping-result', nm, ins, f'{nm} returns something other than the mapping it opened', st)
        if self.role is None:
            # eviction callback: closes exactly what was mapped
            m = [x for x, t in self.ldtag.items() if t == ('ipc_opened_cache_value_t', 'mapped_base_ptr')]
            if m:
                self.count('evictions')
                x = m[0]
                times = ts.get(('closed', x), 0)
                if any(k[0] == 'closed' and k[1] is not x for k in ts):
                    self.bad('evict-close', fn.name, ins, f'{fn.name} closes something other than the mapping of the evicted entry', st)
                if known_const(st, x) == 0:
                    if times:
                        self.bad('evict-close', fn.name, ins, f'{fn.name} closes a mapping that was never opened', st)
                elif times != 1:
                    self.bad('evict-close', fn.name, ins, f'{fn.name} closes the evicted mapping {times} times', st)


class IpcApiChecker(TrackBase):
    """umfGetIPCHandle / umfOpenIPCHandle / umfCloseIPCHandle: the handle describes the allocation that was found"""
    lookup = TrackChecker.lookup

    def upstream(self, eng, st, op, a, o, ins, ctx):
        self.count('api operations')
        ts = st.ts
        if op in ('get', 'close', 'close_failed'):
            found = [k[1] for k in ts if k[0] == 'found']
            src = a[0].a[0] if isinstance(a[0], T) and a[0].k == 'ld' else None
            if op == 'get' and isinstance(src, T) and src.k == 'ld':
                src = src.a[0]              # allocInfo.pool->provider
            if src not in found:
                self.bad('api-provider', f'{self.root.name}:{op}', ins, f'{self.root.name} uses a provider that is not the one recorded for the memory', st)
            elif a[1] is not ts[('key', src)]:
                self.bad('api-base', f'{self.root.name}:{op}', ins, f'{self.root.name} passes an address other than the start of the memory found', st)
            elif not (isinstance(a[2], T) and a[2].k == 'ld' and a[2].a[0] is src):
                self.bad('api-size', f'{self.root.name}:{op}', ins, f'{self.root.name} passes a size other than that of the memory found', st)
            if op == 'get':
                ts[('get',)] = (src, root_of(split(a[3])[0]))
        elif op == 'open':
            ts[('opened', o)] = 1

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('api exits')
        if known_const(st, ret) != 0:
            return
        ts = st.ts
        if ('get',) in ts:
            self.count('handles made')
            src, r = ts[('get',)]
            cs = self.cells(st, r)
            key = ts.get(('key', src))
            p = eng.root_args[0]
            if key is not None:
                if key not in cs or not any(isinstance(x, T) and x.k == 'ld' and x.a[0] is src for x in cs):
                    self.bad('handle-content', fn.name, ins, f'{fn.name} returns a handle without base or size of the memory', st)
                if add(p, key, -1) not in cs:
                    self.bad('handle-offset', fn.name, ins, f'{fn.name} returns a handle whose offset is not that of the pointer', st)
        for k in list(ts):
            if k[0] == 'opened':
                self.count('handles opened')
                out = st.mem.get((eng.root_args[2], 0))
                d = add(out, k[1], -1) if isinstance(out, T) else None
                if not (isinstance(d, T) and d.k == 'ld' and self.ldtag.get(d, (0, 0))[1] == 'offset'):
                    self.bad('opened-address', fn.name, ins, f'{fn.name} does not return the mapping advanced by the offset in the handle', st)


@check('C18', 'path-sensitive typestate of IPC references, handles and mappings over LLVM IR', PATHNOTE)
def c18(rep):
    rep.explanation = (
        'The opened-handle cache: on every path the reference count of exactly the returned entry changes by one, and an entry '
        'is reused or discarded only where its count was found to be zero. The tracking provider: every way out of opening and '
        'closing holds the right number of references; every exported handle is cached under its memory or given back exactly '
        'once; freeing memory discards its handle first; every operation runs on the wrapped provider; a mapping is registered '
        'with the provider and the cache entry that must close it; eviction closes exactly the mapping of the entry. The public '
        'functions: address, size, provider and offset in a handle come from the one tracker entry found.')
    rep.rules = ['evicted-in-use', 'reference-*', 'wrong-provider', 'handle-*', 'mapping-*', 'evict-close', 'api-*', 'opened-address']
    rep.assumptions = ENGINE_ASSUME
    sweep(rep, CacheChecker, configs(rep, proxy=False), rootsel=lambda p: [
        f for f in p.fn.values() if f.name in ('umfIpcOpenedCacheGet', 'umfIpcHandleMappedCacheRelease')], maxstates=400)
    sweep(rep, IpcUseChecker, configs(rep, proxy=False), rootsel=lambda p: [f for f in track_roots(p) if role_of(p, f) or 'umfMemoryProviderCloseIPCHandle' in callees(p, f)])
    sweep(rep, IpcApiChecker, configs(rep, proxy=False), rootsel=lambda p: [
        f for f in p.fn.values() if f.name in ('umfGetIPCHandle', 'umfOpenIPCHandle', 'umfCloseIPCHandle')])
    ev = rep.stats['events']
    rep.need('references taken', ev.get('references taken', 0), 2)
    rep.need('references dropped', ev.get('references dropped', 0), 1)
    rep.need('reference balances', ev.get('reference balances', 0), 3)
    rep.need('handles put', ev.get('handles put', 0), 2)
    rep.need('evictions', ev.get('evictions', 0), 2)
    rep.need('handles made', ev.get('handles made', 0), 1)
    rep.need('handles opened', ev.get('handles opened', 0), 1)
    rep.obligations = sum(ev.get(k, 0) for k in ('cache exits', 'provider exits', 'api exits', 'upstream operations', 'api operations'))


def callees(prog, f):
    """names of the functions a function calls directly or through static helpers"""
    seen, work, out = {f.uname}, [f], set()
    while work:
        x = work.pop()
        mod = prog.mods[x.tu]
        for b in x.blocks.values():
            for i in b.insts:
                if i.op == 'call' and isinstance(i.x['callee'], tuple) and i.x['callee'][0] == 'g':
                    nm = i.x['callee'][1]
                    out.add(nm)
                    t = prog.resolve_fn(mod, nm)
                    if t is not None and t.internal and t.uname not in seen:
                        seen.add(t.uname)
                        work.append(t)
    return out
