"""C05 destruction releases what creation kept, C28 ownership of providers, C20 initialise/teardown symmetry.

Two or more functions are run one after the other in one abstract state: the state in which the creating function
succeeds is the state the destroying function starts from."""
import front
import common
import roles
import specs
from checks import check, sweep, configs, module_roots, ENGINE_ASSUME
from check_paths import PATHNOTE
from check_struct import PROV
from resources import ResChecker
from engine import T, mk, split, root_of, known_const, nonnull, subterms, Inter, add

POOL = 'umf_memory_pool_ops_t'
MTGT = 'umf_memtarget_ops_t'

# internal pairs of a module: creator, position of the created object (None: the result), destroyer
INTERNAL = [('critnib_new', None, 'critnib_delete'), ('coarse_new', 1, 'coarse_delete'), ('ravl_new', None, 'ravl_delete'),
            ('ravl_new_sized', None, 'ravl_delete'),
            ('umf_ba_create', None, 'umf_ba_destroy'), ('umf_ba_linear_create', None, 'umf_ba_linear_destroy'),
            ('umfIpcOpenedCacheCreate', None, 'umfIpcOpenedCacheDestroy'),
            ('umfMemoryTrackerCreate', None, 'umfMemoryTrackerDestroy'),
            ('umfMemtargetCreate', 2, 'umfMemtargetDestroy'), ('umfMemtargetClone', 1, 'umfMemtargetDestroy'),
            ('ctl_new', None, 'ctl_delete'), ('umfTrackingMemoryProviderCreate', 2, 'umfMemoryProviderDestroy')]


class Chain:
    """create -> middle steps -> destroy"""

    def __init__(self, create, out, mids, destroy, flags=None):
        self.create, self.out, self.mids, self.destroy, self.flags = create, out, tuple(mids), destroy, flags

    def __repr__(self):
        return '->'.join([self.create.name] + [m.name for m in self.mids] + [self.destroy.name]) + \
            (f' flags {self.flags}' if self.flags is not None else '')


def slot_pairs(prog):
    """(initialize, out index, finalize) of every constant operation table"""
    out = {}
    for g, mod, d in roles.tables(prog):
        m = {}
        for o, (t, v) in d.items():
            if t is not None and t[0] in (PROV, POOL, MTGT) and isinstance(v, T) and v.k == 'f' and v.a[0] in prog.fn:
                m.setdefault(t[0], {})[t[1]] = prog.fn[v.a[0]]
        for s, f in m.items():
            if 'finalize' in f:
                for c, i in (('initialize', 2 if s == POOL else 1), ('clone', 1)):
                    if c in f:
                        out[f[c].uname, f['finalize'].uname] = (f[c], i, f['finalize'])
    return list(out.values())


def public_pairs(prog):
    """XCreate/XClone -> XDestroy among the public functions, XDestroy taking the object first"""
    pub = common.public_names(prog)
    names = {n: prog.byname[n][0] for n in pub if n in prog.byname}
    out = []
    for n, f in sorted(names.items()):
        for suf in ('Create', 'Clone', 'CreateFromNumaArray'):
            if not n.endswith(suf):
                continue
            d = names.get(n[:-len(suf)] + 'Destroy')
            if d is None or len(d.params) != 1:
                continue
            i = out_param(prog, f)
            if i is not None or f.rty.k == 'ptr':
                out.append((f, i, d))
    return out


def out_param(prog, f):
    """the parameter the created handle is stored through: a pointer to the handle type, per the public declaration"""
    import headers
    sig = headers.signatures().get(f.name, ())
    hits = [i for i, t in enumerate(sig) if t.endswith('_handle_t *') and not t.startswith('const')]
    return hits[-1] if hits else None


def chains(prog):
    out = []
    seen = set()
    for f, o, d in slot_pairs(prog):
        out.append(Chain(f, o, (), d))
        seen.add(f.name)
    for c, o, d in INTERNAL:
        if c in prog.byname and d in prog.byname:
            f, g = prog.byname[c][0], prog.byname[d][0]
            if c not in seen:
                seen.add(c)
                out.append(Chain(f, o, (), g))
    pub = common.public_names(prog)
    for f, o, d in public_pairs(prog):
        if f.name in seen:
            continue
        seen.add(f.name)
        out.append(Chain(f, o, (), d))
        # parameter objects: every setter, twice, so that what a setter replaces is seen
        if f.name.endswith('Create'):
            for n in sorted(pub):
                if n.startswith(f.name[:-len('Create')] + 'Set') and n in prog.byname and prog.byname[n][0].tu == f.tu:
                    s = prog.byname[n][0]
                    out.append(Chain(f, o, (s, s), d))
    return out


def chain_roots(prog):
    return [(c.create, c) for c in chains(prog)]


class Seq(ResChecker):
    """runs the remaining functions of the chain after each successful exit of the first"""
    GROUP = 3
    TOTAL = 40

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.todo = []
        self.phase = 0
        self.vals = {}

    def setup(self, eng, fn, st, variant):
        eng.through = {f.tu for f in variant.mids + (variant.destroy,)}
        args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        if variant.out is not None:
            cell = mk('obj', 'outcell', 0, ())
            args[variant.out] = cell
            eng.mstore(st, cell, mk('sym', 'outcell-before'))
        self.args = args
        self.arginit(eng, fn, st, variant, args)
        return args

    def arginit(self, eng, fn, st, variant, args):
        pass

    # answers of internal queries in an ordinary run: not inside the malloc replacement (whose pools live as long as the
    # process), and the internal allocator still there
    ORDINARY = {'utils_is_running_in_proxy_lib': 0, 'utils_is_running_in_proxy_lib_with_size_threshold': 0, 'umf_ba_global_is_destroyed': 0}

    def call(self, eng, st, name, args, ins, ctx):
        if name in self.ORDINARY:
            return [(st, self.ORDINARY[name])]
        return ResChecker.call(self, eng, st, name, args, ins, ctx)

    def object(self, eng, st, fn, ret):
        if self.variant.out is None:
            return ret
        return eng.mload(st, self.args[self.variant.out])

    def signature(self, st):
        return (frozenset((v[0], v[1][:2]) for k, v in st.ts.items() if k[0] == 'r'),
                frozenset((v[0],) for k, v in st.ts.items() if k[0] == 'd'))

    def root_exit(self, eng, st, fn, ret, ins):
        s = self.status(st, fn, ret)
        if s == 'fail':
            self.failed_create(eng, st, fn, ret, ins)
            return
        o = self.object(eng, st, fn, ret)
        if not isinstance(o, T):
            return
        self.todo.append((st, o, ret, ins))

    def failed_create(self, eng, st, fn, ret, ins):
        pass

    def finish(self, eng, fn, budget):
        """all successful exits are known: continue with a sample that covers every combination of held resources"""
        g = {}
        for t in self.todo:
            g.setdefault(self.signature(t[0]), []).append(t)
        pick = []
        k = 0
        while len(pick) < self.TOTAL and k < self.GROUP:
            for s in sorted(g, key=repr):
                if k < len(g[s]):
                    pick.append(g[s][k])
            k += 1
        self.count('success states', len(self.todo))
        self.count('success states continued', min(len(pick), self.TOTAL))
        for st, o, ret, ins in pick[:self.TOTAL]:
            st.facts.setdefault(o, Inter(None, None, 1, None, frozenset([0])))
            states = [st]
            for n, m in enumerate(self.variant.mids):
                nxt = []
                for s in states:
                    a = [mk('arg', p[1:], f'{m.uname}#{n}') for p in m.params]
                    a[0] = o
                    for s2, r, _ in eng.run(m, a, s.copy(), (('C', (m.uname, n)),)):
                        if self.status(s2, m, r) != 'fail':
                            nxt.append(s2)
                states = nxt[:8]
            d = self.variant.destroy
            for s in states:
                self.before(eng, s, o)
                a = [mk('arg', p[1:], d.uname) for p in d.params]
                a[0] = o
                s = s.copy()
                for s2, r, i2 in eng.run(d, a, s, (('C', (d.uname, 99)),)):
                    self.count('chains completed')
                    self.after(eng, s2, d, o, r)

    def before(self, eng, st, o):
        pass

    def after(self, eng, st, d, o, ret):
        pass

    def enter(self, eng, st, fn, args, ctx):
        pass

    def lastins(self, fn):
        b = [i for b in fn.blocks.values() for i in b.insts if i.op == 'ret']
        return (b or [i for b in fn.blocks.values() for i in b.insts])[-1]


class LifeChecker(Seq):
    """C05"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.elem = set()       # resources kept as elements of a separate array
        self.later = {}         # element -> reports of final states that still hold it
        self.freed = set()      # elements that some run of the destroying function released

    def store(self, eng, st, addr, v, ins, ctx):
        super().store(eng, st, addr, v, ins, ctx)
        if ins.tag is None and isinstance(v, T) and ('r', v) in st.ts and isinstance(addr, T):
            r = root_of(split(addr)[0])
            if isinstance(r, T) and r.k == 'obj' and r.a[0] not in ('stack', 'outcell'):
                self.elem.add(v)

    def finish(self, eng, fn, budget):
        super().finish(eng, fn, budget)
        for x, l in self.later.items():
            if x not in self.freed:
                self.bad(*l)

    def after(self, eng, st, d, o, ret):
        held = [(k[1], v) for k, v in st.ts.items() if k[0] == 'r']
        for k in st.ts:
            if k[0] == 'd' and k[1] in self.elem:
                self.freed.add(k[1])
        reach = None
        for x, (kind, site, extra) in held:
            self.count('resources judged')
            if kind in ('ipchandle',):
                continue
            base = x
            if kind == 'lockinit':
                base = root_of(split(x.a[2])[0])
                if isinstance(base, T) and base.k == 'g':
                    continue
            if ('k', x) in st.ts and x is not o:
                continue
            if reach is None:
                reach = self.global_reach(eng, st)
            if base.fl and (base.fl & reach) or x in reach:
                continue
            rpt = ('kept-after-destroy', f'{self.variant.create.name}->{d.name}:{kind}:{site[0]}:{site[1]}', self.lastins(d),
                   f'{kind} acquired by {site[1]} at {site[3]}:{site[2]} in {site[0]} is still held after {self.variant!r}', st)
            if x in self.elem:
                # elements of an array whose length the analysis does not know: some run of the loop must release them
                self.later.setdefault(x, rpt)
                continue
            self.bad(*rpt)

    def global_reach(self, eng, st):
        reach = set()
        work = []
        byroot = {}
        for (b, off), v in st.mem.items():
            if not isinstance(v, T) or not v.fl or not isinstance(b, T):
                continue
            r = root_of(b)
            if isinstance(r, T) and r.k == 'g' and not r.a[0].startswith('<'):
                work += list(v.fl)
            elif isinstance(r, T):
                byroot.setdefault(r, []).extend(v.fl)
        while work:
            x = work.pop()
            if x in reach:
                continue
            reach.add(x)
            if ('d', x) in st.ts:
                continue
            work += byroot.get(x, ())
        return reach


def origins(v, most=12):
    """v, the object it points into, the place that was loaded from, ..."""
    out = []
    while isinstance(v, T) and len(out) < most:
        out.append(v)
        b = split(v)[0]
        if b is not v:
            v = b
        elif v.k == 'ld':
            v = v.a[0]
        elif v.k == 'op' and v.a[0] == 'ravl_data':
            v = v.a[2]
        else:
            break
    return out


class KeepChecker(ResChecker):
    """which members and containers keep what an operation acquired, and which members and containers are emptied"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.tags = {}         # fresh resource -> members it was stored into
        self.tmp = {}          # fresh resource -> members of local structures it was stored into
        self.visited = None    # containers gone through on every way out
        self.argrel = set()    # kinds released on behalf of the caller, who names the resource
        self.given = set()     # handed to the caller through a result parameter
        self.came = {}         # value found in a container -> container
        self.kept = {}         # (kind, site) -> set of frozenset of places
        self.emptied = set()   # (place, kind)

    def place(self, m):
        """name of the container m"""
        t = self.ldtag.get(m)
        if t is None and isinstance(m, T):
            for b in origins(m):
                t = t or self.ldtag.get(b)
        return ('in',) + t if t is not None else None

    call = Seq.call
    ORDINARY = Seq.ORDINARY

    def store(self, eng, st, addr, v, ins, ctx):
        super().store(eng, st, addr, v, ins, ctx)
        if isinstance(v, T) and v.fl and ('r', v) in st.ts:
            r = root_of(split(addr)[0]) if isinstance(addr, T) else None
            if ins.tag is not None:
                if isinstance(r, T) and r.k == 'obj' and r.a[0] == 'stack':
                    self.tmp.setdefault(v, set()).add(ins.tag)      # part of an element that may be copied into a container
                else:
                    self.tags.setdefault(v, set()).add(ins.tag)
            elif isinstance(r, T) and r.k == 'arg':
                self.given.add(v)

    def visit(self, eng, st, m, ins, ctx):
        p = self.place(m)
        if p is not None:
            st.ts[('it', p)] = 1

    def stored_in(self, eng, st, cont, v, ins, ctx):
        super().stored_in(eng, st, cont, v, ins, ctx)
        p = self.place(cont)
        if isinstance(v, T) and p is not None:
            x = root_of(split(v)[0])
            self.tags.setdefault(x, set()).update({p} | {('copied',) + t for t in self.tmp.get(x, ())})

    def lookup(self, eng, st, m, o, ins, ctx):
        p = self.place(m)
        if isinstance(o, T) and p is not None:
            self.came[o] = p

    def taken_from(self, eng, st, m, o, ins, ctx):
        self.lookup(eng, st, m, o, ins, ctx)

    def iterated(self, eng, st, m, o, k, ins, ctx):
        self.lookup(eng, st, m, o, ins, ctx)
        self.found_key(eng, st, m, k, ins, ctx)

    def found_key(self, eng, st, m, k, ins, ctx):
        p = self.place(m)
        if isinstance(k, T) and p is not None:
            self.came[k] = ('key of',) + p[1:]

    def index(self, eng, st, op, a, ins, ctx):
        p = self.place(a[0])
        if op == 'insert' and isinstance(a[1], T) and p is not None:
            self.tags.setdefault(root_of(split(a[1])[0]), set()).add(('key of',) + p[1:])

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if isinstance(v, T):
            t = self.ldtag.get(v)
            if t is not None:
                self.emptied.add((t, kind))
            if v.k == 'arg':
                self.argrel.add(kind)
            for b in origins(v):
                if b in self.came:
                    self.emptied.add((self.came[b], kind))
                    break
        super().release(eng, st, kind, v, ins, ctx, extra)

    def root_exit(self, eng, st, fn, ret, ins):
        if self.status(st, fn, ret) == 'fail':
            return
        if eng.root_args and known_const(st, eng.root_args[0]) != 0:
            it = frozenset(k[1] for k in st.ts if k[0] == 'it')
            self.visited = it if self.visited is None else self.visited & it
        for k, v in st.ts.items():
            if k[0] != 'r' or v[0] == 'lockinit':
                continue
            x = k[1]
            ts = set(self.tags.get(x, ()))
            for (b, off), v2 in st.mem.items():
                if v2 is x and isinstance(off, int) and isinstance(b, T):
                    t = eng.tagof.get(add(b, off)) or (eng.tagof.get(b) if off == 0 else None)
                    rb = root_of(b)
                    if t is not None and not (isinstance(rb, T) and rb.k == 'obj' and rb.a[0] == 'stack'):
                        ts.add(t)
            if ts:
                self.kept.setdefault((v[0], v[1][:2], v[1][2], v[1][3]), set()).add((frozenset(ts), x in self.given or x is ret))

    def result(self):
        return {'counts': self.counts, 'kept': self.kept, 'emptied': self.emptied, 'visited': self.visited, 'argrel': self.argrel}


LIFE_RULES = ('kept-after-destroy', 'double-release', 'kept-for-ever')

PARTNER = {'alloc': 'free', 'open_ipc_handle': 'close_ipc_handle', 'malloc': 'free', 'aligned_malloc': 'free'}
# what such a module keeps is handed back by its caller, object by object, before the destruction
RETURNED = ('provider_tracking.c',)
# kept as long as the process lives, by design
LIFELONG = {('utils_log_config_t', 'output'): 'the log file stays open until the process ends'}
# a node that has a parent is reachable from the root of its tree
LINKED = {('ravl_node', 'parent'): ('ravl', 'root')}
TEARDOWN = ('umfTearDown', 'umfDestroy', 'proxy_lib_destroy')


def keep_rule(rep, prog, res, chs):
    """what an operation stores away must be emptied by the destroyer of its module (or by the library teardown)"""
    R = dict(res)
    E = {}
    seen = {}          # containers every way out of the destroyers of the module goes through
    anywhere = {}
    by = {c.destroy.uname for c in chs}
    creators = {c.create.uname for c in chs}
    for u, r in R.items():
        f = prog.fn[u]
        anywhere.setdefault(f.tu, set()).update(r['emptied'])
        if u in by or f.name in TEARDOWN:
            tu = f.tu if u in by else None
            E.setdefault(tu, set()).update(r['emptied'])
            seen.setdefault(tu, set()).update(r['visited'] or ())

    rl = roles.roles(prog)

    def argrel(u):
        """kinds released by the operation through which the caller hands the result of u back"""
        out = set()
        for st, fld in rl.get(u, ()):
            if fld in PARTNER:
                for u2, ts in rl.items():
                    if (st, PARTNER[fld]) in ts and u2 in R and prog.fn[u2].tu == prog.fn[u].tu:
                        out |= R[u2]['argrel']
        return out

    def empties(t, kind, tu):
        """the destroyers of tu release what place t holds"""
        vis, em = seen.get(tu, ()), E.get(tu, ())
        if t[0] in ('in', 'key of'):
            return (t, kind) in em and ('in',) + t[1:] in vis
        return (t, kind) in em

    n = 0
    for u, r in sorted(R.items()):
        if u in creators:
            continue            # judged by the composition rule
        f = prog.fn[u]
        for (kind, site, line, file), ps in sorted(r['kept'].items()):
            for p, given in ps:
                n += 1
                p = p | {LINKED[t] for t in p if t in LINKED}
                if any(empties(t, kind, tu) for t in p for tu in (f.tu, None)) or any((t, kind) in r['emptied'] for t in p):
                    continue
                # an element copied into a container: released as a member of the element while a container of that object is gone through
                if any(t[0] == 'copied' and (t[1:], kind) in E.get(tu, ()) and any(t2[0] == 'in' and v[1] == t2[1] for t2 in p for v in seen.get(tu, ()))
                       for t in p for tu in (f.tu, None)):
                    continue
                if given and kind in argrel(u):
                    continue
                if f.tu.endswith(RETURNED) and (kind == 'upmem' or any((t, kind) in anywhere.get(f.tu, ()) for t in p)):
                    continue
                if any(t in LIFELONG for t in p) or all(t[0] == 'global' for t in p):
                    continue
                what = ', '.join(sorted('.'.join(t[1:]) if t[0] in ('in', 'key of', 'copied') else '.'.join(t) for t in p))
                rep.add(common.Violation('kept-for-ever', f'kept-for-ever|{f.name}:{kind}:{site[0]}', file, line, site[0],
                                         f'{f.name} keeps the {kind} acquired by {site[1]} in {what}, which no destroying function '
                                         f'of {f.tu} empties'))
    return n


@check('C05', 'ownership typestate over create-destroy compositions, plus member-level acquire/release pairing over LLVM IR', PATHNOTE)
def c05(rep):
    rep.explanation = ('For every creating function and the matching destroying function both are run one after the other on the same '
                       'abstract state (operation tables, public Create/Destroy pairs, parameter setters in between, internal '
                       'pairs): nothing acquired on the way may still be held at the end. In addition, for every operation, the members and '
                       'containers in which it stores acquired resources must be emptied by the destroying functions of the module.')
    res = sweep(rep, LifeChecker, configs(rep), rootsel=chain_roots)
    prog = front.load('full')
    kept = sweep(rep, KeepChecker, ['full'])
    n = keep_rule(rep, prog, [(u, r) for c, u, r in kept], chains(prog))
    rep.need('members and containers that keep resources', n, 20)
    rep.vios = {k: v for k, v in rep.vios.items() if v.rule in LIFE_RULES}
    ev = rep.stats['events']
    rep.rules = list(LIFE_RULES)
    rep.assumptions = ENGINE_ASSUME
    rep.need('create-destroy chains', len(res), 40)
    rep.need('chains completed', ev.get('chains completed', 0), 60)
    rep.obligations = ev.get('resources judged', 0) + ev.get('chains completed', 0) + n
    rep.samples = [f'{c} {u}: {r["counts"].get("chains completed", 0)} completed' for c, u, r in res][:12]




# ------------------------------------------------------------------- C28
class OwnerChecker(Seq):
    """umfPoolCreate with every combination of flags, then umfPoolDestroy: who is destroyed, how often, in what order"""
    TOTAL = 12

    def arginit(self, eng, fn, st, variant, args):
        import headers
        eng.through = set(eng.through) | {f.tu for n in ('umfTrackingMemoryProviderCreate', 'umfMemoryProviderCreate', 'umfMemoryProviderDestroy')
                                          for f in self.prog.byname.get(n, ())}
        sig = headers.signatures()[fn.name]
        fl = [i for i, t in enumerate(sig) if 'flags' in t]
        pr = [i for i, t in enumerate(sig) if t.startswith('umf_memory_provider_handle_t')]
        self.flags = variant.flags
        args[fl[0]] = variant.flags
        self.prov = args[pr[0]]

    def call(self, eng, st, name, args, ins, ctx):
        if name == 'umfMemoryProviderDestroy':
            self.did(st, 'provider', args[0], ins)
        elif name == f'slot:{POOL}.finalize':
            self.did(st, 'pool', args[0], ins)
        return super().call(eng, st, name, args, ins, ctx)

    def did(self, st, what, v, ins):
        st.ts[('order', 0)] = st.ts.get(('order', 0), ()) + ((what, v),)
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: destroys the {what}')

    def gckeep(self, st):
        return super().gckeep(st) + [v for w, v in st.ts.get(('order', 0), ()) if isinstance(v, T)]

    def failed_create(self, eng, st, fn, ret, ins):
        self.count('failed creations judged')
        for what, v in st.ts.get(('order', 0), ()):
            if what == 'provider' and v is self.prov:
                self.bad('destroyed-on-failure', f'{fn.name}:{self.flags}', self.lastins(fn),
                         f'{fn.name} with flags {self.flags} fails after destroying the provider of its caller', st)

    def before(self, eng, st, o):
        for what, v in st.ts.get(('order', 0), ()):
            if what == 'provider' and v is self.prov:
                self.bad('destroyed-on-create', f'{self.root.name}:{self.flags}', self.lastins(self.root),
                         f'{self.root.name} with flags {self.flags} succeeds after destroying the provider of its caller', st)
        st.ts[('order', 0)] = ()
        # the provider the pool reports is the one it was created with
        for f in self.prog.byname.get('umfPoolGetMemoryProvider', ()):
            cell = mk('obj', 'provcell', 0, ())
            for s2, r, i2 in eng.run(f, [o, cell], st.copy(), (('C', (f.uname, 98)),)):
                if self.status(s2, f, r) == 'fail':
                    continue
                self.count('reported providers judged')
                if eng.mload(s2, cell) is not self.prov:
                    self.bad('wrong-provider', f'{f.name}:{self.flags}', self.lastins(f),
                             f'{f.name} does not report the provider a pool with flags {self.flags} was created with', s2)

    def after(self, eng, st, d, o, ret):
        order = st.ts.get(('order', 0), ())
        own, track = self.flags & OWN, not self.flags & NOTRACK
        caller = [k for k, (w, v) in enumerate(order) if w == 'provider' and v is self.prov]
        wrap = [k for k, (w, v) in enumerate(order) if w == 'provider' and v is not self.prov]
        pool = [k for k, (w, v) in enumerate(order) if w == 'pool']
        self.count('destructions judged')

        def no(rule, msg):
            self.bad(rule, f'{d.name}:{self.flags}', self.lastins(d), f'{d.name} of a pool created with flags {self.flags} '
                     f'({"own the provider" if own else "provider not owned"}, {"tracked" if track else "not tracked"}): {msg}', st)
        if len(caller) != (1 if own else 0):
            no('caller-provider', f'the provider of the caller is destroyed {len(caller)} times')
        if len(wrap) != (1 if track else 0):
            no('wrapper', f'the tracking wrapper is destroyed {len(wrap)} times')
        if len(pool) != 1:
            no('pool', f'the pool is finalized {len(pool)} times')
        elif wrap and wrap[0] < pool[0] or caller and caller[0] < pool[0]:
            no('order', 'a provider is destroyed before the pool that uses it')
        if wrap and caller and caller[0] < wrap[0]:
            no('order', 'the provider is destroyed before the wrapper around it')


OWN = 1
NOTRACK = 2
OWNER_RULES = ('destroyed-on-failure', 'destroyed-on-create', 'wrong-provider', 'caller-provider', 'wrapper', 'pool', 'order')


def owner_roots(prog):
    global OWN, NOTRACK
    import headers
    e = headers.enums()['umf_pool_create_flag_t']
    OWN = next(v for n, v in e.items() if 'OWN_PROVIDER' in n)
    NOTRACK = next(v for n, v in e.items() if 'DISABLE_TRACKING' in n)
    out = []
    for f, o, d in public_pairs(prog):
        import headers
        if any('umf_pool_create_flags_t' in t for t in headers.signatures()[f.name]):
            for fl in (0, OWN, NOTRACK, OWN | NOTRACK):
                out.append((f, Chain(f, o, (), d, fl)))
    return out


@check('C28', 'path enumeration of create-destroy compositions with destruction-order automaton over LLVM IR', PATHNOTE)
def c28(rep):
    rep.explanation = ('umfPoolCreate followed by umfPoolDestroy is followed on one abstract state for each of the four combinations '
                       'of creation flags, through the tracking provider and the provider layer: the caller\'s provider is destroyed '
                       'exactly once iff owned, the wrapper exactly once iff tracked, pool before wrapper before provider; a failing '
                       'creation destroys nothing of the caller; the pool reports the provider it was given.')
    res = sweep(rep, OwnerChecker, configs(rep), rootsel=owner_roots)
    rep.vios = {k: v for k, v in rep.vios.items() if v.rule in OWNER_RULES}
    ev = rep.stats['events']
    rep.rules = list(OWNER_RULES)
    rep.assumptions = ENGINE_ASSUME
    rep.need('flag combinations', len(res), 4)
    rep.need('destructions judged', ev.get('destructions judged', 0), 4)
    rep.need('failed creations judged', ev.get('failed creations judged', 0), 4)
    rep.obligations = ev.get('destructions judged', 0) + ev.get('failed creations judged', 0) + ev.get('reported providers judged', 0)
    rep.samples = [f'{c} {u}: {r["counts"]}' for c, u, r in res][:12]
