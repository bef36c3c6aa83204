"""Ownership / typestate of resources along every path (C04, C06, C07, C28 ...)."""
from engine import T, mk, split, root_of, known_const, nonnull, Inter
from common import BaseChecker

# release operation must match the acquiring one; the names are model kinds
LOCAL_KINDS = {'ba_global', 'ba_pool_chunk', 'ba_pool', 'ba_linear', 'ba_linear_chunk', 'ba_os', 'lockinit', 'library', 'mapping', 'fd',
               'critnib', 'ravl', 'coarse', 'hwtopo', 'hwbitmap', 'provider', 'pool', 'memtarget', 'memspace',
               'mempolicy', 'osparams', 'fileparams', 'daxparams', 'upmem', 'ipcmap', 'ipcref', 'ipccache',
               'prov_priv', 'pool_priv', 'mt_priv', 'slotmem', 'zemem', 'zeipcmap', 'tbbpool', 'FILE', 'ipchandle',
               'critnib_node', 'critnib_leaf'}


class ResChecker(BaseChecker):
    want = ('leak', 'uaf', 'mismatch')

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.owned = {}        # (struct, field) -> set(kinds) stored into surviving objects
        self.released = {}     # (struct, field) -> set(kinds) released from surviving objects
        self.ldtag = {}

    # ------------------------------------------------------------- events
    def site(self, ins):
        c = ins.x['callee']
        nm = c[1] if isinstance(c, tuple) and len(c) > 1 else ('.'.join(ins.tag) if ins.tag else '?')
        return (ins.fn.name, nm, ins.line, ins.fn.file)

    def acquire(self, eng, st, kind, o, ins, ctx, extra):
        self.count('acquire')
        if kind == 'lockinit':
            o = mk('op', 'lock@', 64, o)
        st.ts[('r', o)] = (kind, self.site(ins), extra)
        st.ts.pop(('d', o), None)
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: acquires {kind} via {self.site(ins)[1]}')

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        self.count('release')
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: releases {kind} via {self.site(ins)[1]}')
        if not isinstance(v, T):
            return
        if kind == 'lockinit':
            v = mk('op', 'lock@', 64, v)
        key = ('r', v)
        h = st.ts.get(key)
        if h is None and v.k == 'lin':
            if kind == 'mapping':
                return            # trimming part of a mapping
        if ('d', v) in st.ts:
            was = st.ts[('d', v)]
            self.bad('double-release', f'{ins.fn.name}:{self.site(ins)[1]}:{was[0]}', ins,
                     f'{kind} released again by {self.site(ins)[1]}; already released as {was[0]} in {was[1]}', st)
            return
        if h is not None:
            if h[0] != kind:
                self.bad('release-family', f'{ins.fn.name}:{h[0]}->{kind}', ins,
                         f'{h[0]} acquired through {h[1][1]} ({h[1][3]}:{h[1][2]}) is released as {kind} through {self.site(ins)[1]}', st)
            elif h[2] and extra and kind in ('ba_pool_chunk', 'upmem', 'ipcmap', 'ipchandle', 'ba_linear_chunk'):
                a, b = self.owner(kind, h[2], True), self.owner(kind, extra, False)
                if a is not None and b is not None and self.differ(eng, st, a, b):
                    self.bad('release-owner', f'{ins.fn.name}:{kind}', ins,
                             f'{kind} acquired from one owner ({h[1][3]}:{h[1][2]}) is released to a different one', st)
            del st.ts[key]
        else:
            t = self.ldtag.get(v)
            if t is not None:
                self.released.setdefault(t, set()).add(kind)
        st.ts[('d', v)] = (kind, ins.fn.name)
        # locks living inside released memory must have been destroyed
        if kind in ('ba_global', 'ba_pool_chunk', 'ba_linear_chunk', 'mapping', 'ba_os'):
            for k, x in list(st.ts.items()):
                if k[0] == 'r' and x[0] == 'lockinit' and root_of(split(k[1].a[2])[0]) is v:
                    del st.ts[k]
                    if 'leak' in self.want:
                        self.bad('lock-leak', f'{x[1][0]}:{ins.fn.name}', ins,
                                 f'memory is released while the lock initialised at {x[1][3]}:{x[1][2]} in it has not been destroyed', st)

    def release_failed(self, eng, st, kind, v, ins, ctx):
        # the lower layer refused to take it back: nothing more can be done
        if isinstance(v, T):
            st.ts.pop(('r', v), None)
            st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: releasing {kind} fails')

    def owner(self, kind, extra, acq):
        return extra[0] if extra and isinstance(extra[0], T) else None

    def differ(self, eng, st, a, b):
        if a is b:
            return False
        if a.k == 'ld' and b.k == 'ld' and a.a[0] is b.a[0] and a.a[1] != b.a[1] and a.a[2] == b.a[2]:
            return True
        if a.k == 'arg' and b.k == 'arg':
            return True
        return False

    def stored_in(self, eng, st, cont, v, ins, ctx):
        # the value is now held by a container
        if isinstance(v, T):
            r = root_of(split(v)[0])
            st.ts[('k', r)] = root_of(split(cont)[0]) if isinstance(cont, T) else None

    def lost(self, eng, st, v):
        for l in v.fl:
            if ('r', l) in st.ts:
                st.ts[('k', l)] = None

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            if len(k) > 1 and isinstance(k[1], T):
                out.append(k[1])
        return out

    # -------------------------------------------------------------- memory
    def load(self, eng, st, addr, val, ins, ctx):
        if ins.tag is not None and isinstance(val, T) and val.k == 'ld':
            self.ldtag[val] = ins.tag

    def store(self, eng, st, addr, v, ins, ctx):
        if ins.tag is not None and isinstance(v, T) and v.fl:
            h = st.ts.get(('r', v))
            if h is not None:
                self.owned.setdefault(ins.tag, set()).add(h[0])

    def deref(self, eng, st, addr, ins, ctx):
        if not isinstance(addr, T):
            return
        r = root_of(split(addr)[0])
        self.check_use(eng, st, r, ins, 'accessed')

    def use(self, eng, st, v, ins, ctx):
        if isinstance(v, T):
            self.check_use(eng, st, root_of(split(v)[0]), ins, 'used')

    MEMK = {'ba_global', 'ba_pool_chunk', 'ba_pool', 'ba_linear_chunk', 'ba_linear', 'ba_os', 'mapping', 'critnib', 'ravl', 'coarse',
            'provider', 'pool', 'memtarget', 'memspace', 'mempolicy', 'ipccache', 'osparams', 'fileparams', 'daxparams',
            'hwtopo', 'hwbitmap', 'upmem', 'slotmem', 'FILE'}

    def check_use(self, eng, st, r, ins, how):
        if not isinstance(r, T):
            return
        d = st.ts.get(('d', r))
        if d is not None and ins.tag is not None and ins.tag[0] in ('UT_hash_handle', 'UT_hash_table', 'UT_hash_bucket'):
            return      # container internals: rest on a shape invariant
        if d is not None and d[0] in self.MEMK:
            self.count('uaf')
            what = self.site(ins)[1] if ins.op == 'call' else ('.'.join(ins.tag) if ins.tag else ins.op)
            self.bad('use-after-release', f'{ins.fn.name}:{d[0]}:{d[1]}:{what}', ins,
                     f'{what} {how} after the {d[0]} was released in {d[1]}', st)

    def call(self, eng, st, name, args, ins, ctx):
        if name is None or name.startswith('llvm.') or name in ('memcpy', 'memset'):
            return None
        # passing a released pointer on (not to logging or the release itself)
        return None

    # --------------------------------------------------------------- exits
    def reachable(self, eng, st, ret):
        """set of fresh leaves that surviving memory or the result can still reach"""
        byroot = {}
        reach = set()
        work = []
        if isinstance(ret, T):
            work += list(ret.fl)
        for k, v in st.ts.items():
            if k[0] == 'k':
                work += list(k[1].fl)
        for (b, off), v in st.mem.items():
            if off == '@r' or not isinstance(v, T) or not v.fl or not isinstance(b, T):
                continue
            r = root_of(b)
            if isinstance(r, T) and r.k == 'obj' and r.a[0] != 'stack' or (isinstance(r, T) and ('r', r) in st.ts):
                byroot.setdefault(r, []).extend(v.fl)
            elif isinstance(r, T) and r.k == 'obj':
                continue
            elif isinstance(r, T) and ('d', r) in st.ts:
                continue
            else:
                work += list(v.fl)
        while work:
            x = work.pop()
            if x in reach:
                continue
            reach.add(x)
            if ('d', x) in st.ts:
                continue
            work += byroot.get(x, ())
        return reach

    def status(self, st, fn, ret):
        """'ok' / 'fail' / None"""
        if fn.enumret is not None and ret is not None:
            c = known_const(st, ret)
            if c is not None:
                return 'ok' if c == 0 else 'fail'
            if isinstance(ret, T) and nonnull(st, ret):
                return 'fail'
        if fn.rty.k == 'ptr' and ret is not None:
            if known_const(st, ret) == 0:
                return 'fail'
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        held = [(k[1], v) for k, v in st.ts.items() if k[0] == 'r']
        if held and 'leak' in self.want:
            reach = self.reachable(eng, st, ret)
            for o, (kind, site, extra) in held:
                if kind == 'lockinit':
                    r = root_of(split(o.a[2])[0])
                    # storage that outlives the call owns its lock; a dead object must not
                    if isinstance(r, T) and r.k == 'obj' and r not in reach and ('r', r) not in st.ts and ('d', r) not in st.ts:
                        self.leak(st, o, kind, site, fn, ret, ins)
                    continue
                if kind == 'ipchandle':
                    continue
                if o.fl and not (o.fl & reach):
                    self.leak(st, o, kind, site, fn, ret, ins)
        self.dangling(eng, st, fn, ret, ins)
        self.count('exits')

    def dangling(self, eng, st, fn, ret, ins):
        """released objects still referenced by memory that outlives the call"""
        dead = {k[1]: v for k, v in st.ts.items() if k[0] == 'd' and v[0] in self.MEMK}
        if not dead:
            return
        reach = None
        c = dead.get(ret) if isinstance(ret, T) else None
        if c is not None:
            self.bad('dangling-output', f'{fn.name}:{c[0]}:result', ins, f'{fn.name} returns a pointer to the {c[0]} released in {c[1]}', st)
        for (b, off), v in st.mem.items():
            if off == '@r' or not isinstance(v, T) or not isinstance(b, T) or v not in dead:
                continue
            r = root_of(b)
            if not isinstance(r, T) or r in dead or r.k == 'obj' and r.a[0] == 'stack':
                continue
            if r.k == 'obj' or r.fl:
                if reach is None:
                    reach = self.reachable(eng, st, ret)
                if r not in reach:
                    continue
            kind, where = dead[v]
            self.count('dangling candidates')
            rule = 'dangling-output' if v.fl else 'dangling-member'
            while r.k == 'ld' and r not in dead:
                r = root_of(split(r.a[0])[0])
            if r in dead:
                continue
            self.bad(rule, f'{fn.name}:{kind}:{where}', ins, f'{fn.name} returns while {b!r}+{off} still refers to the {kind} released in {where}', st)

    def leak(self, st, o, kind, site, fn, ret, ins):
        s = self.status(st, fn, ret)
        how = {'ok': 'success', 'fail': 'failure', None: 'return'}[s]
        i2 = ins
        self.bad('leak', f'{site[0]}:{kind}:{site[1]}:{how}', i2 if i2 is not None else next(iter(fn.blocks.values())).insts[-1],
                 f'{kind} acquired by {site[1]} at {site[3]}:{site[2]} is neither released nor reachable when {fn.name} returns ({how})', st)

    def result(self):
        return {'counts': self.counts, 'owned': self.owned, 'released': self.released}
