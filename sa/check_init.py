"""C20: initialisation and teardown are symmetric and repeatable."""
import front
import roles
from checks import check, sweep, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import vio
from engine import T, mk, split, root_of, known_const, Inter
from resources import ResChecker

# answers of internal queries in an ordinary process
ORDINARY = {'utils_is_running_in_proxy_lib': 0, 'utils_is_running_in_proxy_lib_with_size_threshold': 0}
# allocations up to this size live in the pools of the internal allocator, which the teardown destroys; larger ones are
# mapped one by one and stay
CLASS_MAX = 256 - 8
# resources of the operating system and of other libraries: they may be released when the internal allocator is gone
OUTSIDE = {'library', 'mapping', 'fd', 'FILE', 'hwtopo', 'hwbitmap', 'ba_os', 'ba_pool', 'lockinit'}
# state the teardown leaves alone on purpose
LASTING = {'loggerConfig': 'the log keeps its settings and its file for the life of the process'}
RULES = ['stale-global', 'stale-flag', 'acquired-again', 'failed-init-sticks', 'failed-init', 'not-restored', 'after-allocator', 'released-twice', 'leftover-state']


def oncesites(prog):
    """functions that run a once-only initialisation"""
    out = []
    for f in prog.fn.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and isinstance(i.x.get('callee'), tuple) and i.x['callee'][1] in ('utils_init_once', 'pthread_once'):
                    a = i.args[0]
                    if isinstance(a, tuple) and a[0] == 'g' and f not in [x for x, _ in out]:
                        out.append((f, a[1]))
    return out


def gname(prog, g):
    x = prog.glob.get(g)
    return x[0].name if x else g


class InitChecker(ResChecker):
    """one use of the library from the state in which the process starts, then the teardown"""
    want = ()
    TOTAL = 60

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.todo = []
        self.phase = 0
        self.flags = {}
        self.out = {}

    def setup(self, eng, fn, st, variant):
        eng.cold = True
        eng.through = {'src/libumf.c', 'src/topology.c', 'src/ipc_cache.c'}
        self.refcount = [g for g in self.prog.glob if gname(self.prog, g) == 'umfRefCount']
        return [mk('arg', p[1:], fn.uname) for p in fn.params]

    def call(self, eng, st, name, args, ins, ctx):
        if name == 'utils_log_init':
            return [(st, None)]
        if name in ORDINARY:
            return [(st, ORDINARY[name])]
        n = {'umf_ba_global_alloc': 0, 'umf_ba_global_aligned_alloc': 0}.get(name)
        if n is not None:
            st.ts[('nextsize', ins.id)] = args[n]
        if name == 'memcpy' and len(args) > 2:
            self.copied(eng, st, args, ins)
        return ResChecker.call(self, eng, st, name, args, ins, ctx)

    def bad(self, rule, key, ins, msg, st=None):
        if rule in RULES:
            super().bad(rule, key, ins, msg, st)

    # ------------------------------------------------------------ once flags
    def once(self, eng, st, flag, fn, ins, ctx):
        self.count('once-only initialisations run')
        st.ts[('ran', flag)] = (fn.uname, 'ok')
        st.ts.setdefault('stack', ())
        st.ts['stack'] = st.ts['stack'] + (flag,)

    def once_done(self, eng, st, flag, fn, ins, ctx):
        s = st.ts.get('stack', ())
        if st.ts.get(('ran', flag), (0, ''))[1] == 'ok':
            w = {(k[1].a[0], k[2]) for k, v in st.ts.items() if k[0] == 'w' and v is flag}
            m = self.out.setdefault('must', {})
            m[flag.a[0]] = w & m[flag.a[0]] if flag.a[0] in m else w
        self.once_done_values(st, flag)
        st.ts['stack'] = s[:-1]

    def copied(self, eng, st, args, ins):
        b, off = split(args[0])
        if b.__class__ is T and b.k == 'g' and ('ran', b) in st.ts:
            if known_const(st, eng.mload(st, args[1])) == 0:
                self.reset(eng, st, b, ins)

    def store(self, eng, st, addr, v, ins, ctx):
        super().store(eng, st, addr, v, ins, ctx)
        b, off = split(addr)
        r = root_of(b)
        if r.__class__ is not T or r.k != 'g':
            return
        if ('once', r) in st.ts and ('ran', r) in st.ts and known_const(st, v) == 0:
            self.reset(eng, st, r, ins)
            return
        fl = st.ts.get('stack') or ()
        if b is r:
            st.ts[('w', b, off)] = fl[-1] if fl else None

    def reset(self, eng, st, flag, ins):
        self.count('flags made clear again')
        st.ts.pop(('once', flag), None)
        st.ts[('reset', flag)] = 1

    def acquire(self, eng, st, kind, o, ins, ctx, extra):
        fl = st.ts.get('stack') or ()
        super().acquire(eng, st, kind, o, ins, ctx, extra)
        n = st.ts.pop(('nextsize', ins.id), None)
        if isinstance(n, int):
            st.ts[('size', o)] = n
        k = mk('op', 'lock@', 64, o) if kind == 'lockinit' else o
        if fl:
            st.ts[('by', k)] = fl[-1]
        self.order(eng, st, kind, 'acquires', ins)

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        self.order(eng, st, kind, 'releases', ins)
        if isinstance(v, T) and ('d', v) in st.ts:
            self.bad('released-twice', f'{ins.fn.name}:{kind}', ins, f'{kind} that was released before is released again by the teardown', st)
            return
        if isinstance(v, T) and ('by', v) in st.ts and st.ts.get('stack') and st.ts.pop('nosym', None):
            self.mark(st, 'a required function is missing')
        super().release(eng, st, kind, v, ins, ctx, extra)

    def order(self, eng, st, kind, what, ins):
        if 'gone' in st.ts and kind not in OUTSIDE:
            self.bad('after-allocator', f'{ins.fn.name}:{kind}', ins,
                     f'{ins.fn.name} {what} {kind} after the internal allocator was destroyed by the same teardown', st)

    def leave(self, eng, st, fn, ret, ctx):
        if fn.name == 'umf_ba_destroy_global':
            st.ts['gone'] = 1

    def failed(self, eng, st, name, ins, ctx, r=None):
        self.mark(st, name)

    def symbol_missing(self, eng, st, a, ins, ctx):
        if 'nosym' in st.ts:
            return False            # one missing function at a time
        st.ts['nosym'] = 1

    def mark(self, st, name):
        for f in st.ts.get('stack') or ():
            u, was = st.ts[('ran', f)]
            if was == 'ok':
                st.ts[('ran', f)] = (u, name)

    # ------------------------------------------------------------ phases
    def root_exit(self, eng, st, fn, ret, ins):
        if self.phase == 0 and fn is self.root:
            self.todo.append((st, ret, ins))

    def signature(self, st):
        return (frozenset((k[1], v[1] == 'ok') for k, v in st.ts.items() if k[0] == 'ran'),
                frozenset(v[0] for k, v in st.ts.items() if k[0] == 'r' and ('by', k[1]) in st.ts),
                frozenset((k[1], k[2], st.mem.get((k[1], k[2])) == 0) for k in st.ts if k[0] == 'w'))

    def finish(self, eng, fn, budget):
        self.phase = 1
        td = self.prog.byname.get('umfTearDown')
        if not td:
            return
        td = td[0]
        g = {}
        for t in self.todo:
            s = t[0]
            if fn.name == 'umfInit' and known_const(s, t[1]) != 0:
                self.failed_init(eng, s, t[1], t[2])
                continue
            g.setdefault(self.signature(s), []).append(t)
        pick = []
        for k in range(2):
            for s in sorted(g, key=repr):
                if k < len(g[s]) and len(pick) < self.TOTAL:
                    pick.append(g[s][k])
        self.count('states torn down', len(pick))
        for st, ret, ins in pick:
            s = st.copy()
            for r in self.refcount:
                eng.mstore(s, mk('g', r), 1)
            s.ts['teardown'] = 1
            for s2, r, i2 in eng.run(td, [], s, (('C', (td.uname, 0)),)):
                self.count('teardowns completed')
                self.settled(eng, s2, td, i2)

    def globals_of(self, st):
        for k, v in st.mem.items():
            b, off = k
            if b.__class__ is T and b.k == 'g' and isinstance(off, int):
                x = self.prog.glob.get(b.a[0])
                if x is None or x[0].const or x[0].tls or x[0].ext or x[0].name in LASTING:
                    continue
                yield b, off, v, x

    def failed_init(self, eng, st, ret, ins):
        """umfInit reported failure: the process-wide state is what it was"""
        self.count('failed initialisations')
        for b, off, v, x in self.globals_of(st):
            if ('ran', b) in st.ts:
                continue
            o = eng.cold_value(b, off)
            if not self.same(st, v, o):
                self.bad('failed-init', x[0].name, ins, f'a failed umfInit leaves {x[0].name} changed, so that the next one does not start afresh', st)

    def same(self, st, v, o):
        if v is o:
            return True
        c = known_const(st, v)
        return c is not None and c == o

    def settled(self, eng, st, td, ins):
        prog = self.prog
        ran = {k[1]: v for k, v in st.ts.items() if k[0] == 'ran'}
        for b, off, v, x in self.globals_of(st):
            o = eng.cold_value(b, off)
            r = root_of(split(v)[0]) if isinstance(v, T) else None
            if r is not None and ('d', r) in st.ts:
                self.bad('stale-global', x[0].name, ins, f'after the teardown {x[0].name} still refers to what has been released', st)
                continue
            if 'gone' in st.ts and r is not None and ('r', r) in st.ts and st.ts[('r', r)][0] == 'ba_global' and self.small(st, r):
                self.bad('stale-global', x[0].name, ins, f'after the teardown {x[0].name} still refers to memory of the internal allocator, which is destroyed', st)
                continue
            self.count('globals examined after a teardown')
            if self.same(st, v, o) or b in ran:
                continue
            w = st.ts.get(('w', b, off))
            if w is None:
                # set by umfInit or by a user function outside a once-only initialisation
                if self.root.name == 'umfInit':
                    self.out.setdefault('later', {}).setdefault((b.a[0], off), vio('not-restored', f'not-restored|{x[0].name}', ins,
                        f'{x[0].name} does not return to its initial value by the teardown', st.tracelist(), self.root.name))
                continue
            if ('once', w) in st.ts:
                continue            # stays initialised for the life of the process
            # its initialisation runs again: it must not depend on what is left behind
            self.out.setdefault('leftover', {}).setdefault((w.a[0], b.a[0], off), vio('leftover-state', f'leftover-state|{b.a[0]}+{off}', ins,
                f'{x[0].name} keeps what an earlier initialisation left in it, although {gname(prog, w.a[0])} is cleared by the teardown and a '
                'later successful initialisation does not set it', st.tracelist(), self.root.name))
        for f, (u, how) in ran.items():
            cb = prog.fn[u]
            name = gname(prog, f.a[0])
            set_ = ('once', f) in st.ts
            mine = [k[1] for k, v in st.ts.items() if k[0] == 'by' and v is f]
            if set_:
                if how != 'ok':
                    self.bad('failed-init-sticks', f.a[0], ins, f'{cb.name} failed ({how}), yet {name} stays set over the teardown: it is never attempted again', st)
                for o in mine:
                    if ('d', o) in st.ts and self.global_res(st, o, f):
                        self.bad('stale-flag', f.a[0], ins, f'what {cb.name} acquired is released by the teardown, but {name} stays set: it is never acquired again', st)
            else:
                for o in mine:
                    if ('r', o) in st.ts and ('k', o) not in st.ts:
                        h = st.ts[('r', o)]
                        if h[0] == 'ba_global' and 'gone' in st.ts and self.small(st, o):
                            continue      # goes with the allocator
                        self.bad('acquired-again', f'{f.a[0]}:{h[0]}', ins, f'{name} is cleared by the teardown while {h[0]} acquired by {cb.name} is kept: the next initialisation acquires another', st)
            self.out.setdefault('flags', {}).setdefault(f.a[0], set()).add('kept' if set_ else 'cleared')

    def global_res(self, st, o, f):
        """did the initialisation hand it to the rest of the library"""
        return ('held', o) in st.ts

    def once_done_values(self, st, flag):
        for k, v in st.mem.items():
            b, off = k
            if b.__class__ is T and b.k == 'g' and isinstance(v, T):
                r = root_of(split(v)[0])
                if ('r', r) in st.ts:
                    st.ts[('held', r)] = 1

    def small(self, st, o):
        n = st.ts.get(('size', o))
        return isinstance(n, int) and n <= CLASS_MAX

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            if k.__class__ is tuple:
                out += [x for x in k[1:] if isinstance(x, T)]
        return out

    def result(self):
        return {'counts': self.counts, 'out': self.out, 'root': self.root.name}


def init_roots(prog):
    out = []
    for f, g in oncesites(prog):
        if f.tu.startswith('src/proxy_lib') or f.tu.startswith('src/coarse') or f.tu.startswith('src/utils'):
            continue
        out.append(f)
    return out + [f for f in prog.byname.get('umfInit', ()) if f not in out]


@check('C20', 'typestate of process-wide state over initialise - use - tear down', PATHNOTE)
def c20(rep):
    rep.explanation = (
        'From the state in which the process starts (library variables hold their static initialisers, once-only flags are clear), umfInit '
        'and every function that performs a once-only initialisation are followed on all paths, successful and failing, and each distinct '
        'final state is then followed through umfTearDown with the last reference. Afterwards no library variable may refer to a released '
        'object or to memory of the destroyed internal allocator; what umfInit changed must be back at its initial value; a once-only flag '
        'must be clear if what its initialisation acquired is gone or if the initialisation failed, and must not be clear while what it '
        'acquired is kept; state left behind under a cleared flag must be overwritten by every successful initialisation. A failing '
        'umfInit must leave every variable as it was. Nothing is acquired from or released to the internal allocator after it is destroyed.')
    rep.rules = RULES
    rep.assumptions = ENGINE_ASSUME + ['an ordinary process: not the malloc-replacement library (which keeps tracker and allocator on purpose)'] + \
        [f'{k}: {v}' for k, v in LASTING.items()]
    res = sweep(rep, InitChecker, ['full', 'release', 'nohwloc'], rootsel=init_roots, maxstates=200)
    must, left, flags, later = {}, {}, {}, {}
    downs = 0
    for c, u, r in res:
        for f, w in r['out'].get('must', {}).items():
            k = (c, f)
            must[k] = must[k] & w if k in must else set(w)
        for k, v in r['out'].get('leftover', {}).items():
            left.setdefault((c,) + k, v)
        for k, v in r['out'].get('later', {}).items():
            later.setdefault((c,) + k, v)
        for f, w in r['out'].get('flags', {}).items():
            flags.setdefault(f, set()).update(w)
        downs += r['counts'].get('teardowns completed', 0)
    for (c, f, b, off), v in left.items():
        rep.obligations += 1
        if (b, off) not in must.get((c, f), ()):
            rep.add(v)
    for (c, b, off), v in later.items():
        rep.obligations += 1
        # an initialisation that runs again after this teardown may set it afresh
        if not any((b, off) in w and 'cleared' in flags.get(f, ()) for (c2, f), w in must.items() if c2 == c):
            rep.add(v)
    rep.stats['once_flags'] = {f: sorted(w) for f, w in sorted(flags.items())}
    rep.stats['state_overwritten_by_every_initialisation'] = len(left)
    rep.obligations += len(flags) + downs
    rep.need('once-only initialisations', len(flags), 6)
    rep.need('teardowns followed', downs, 20)
