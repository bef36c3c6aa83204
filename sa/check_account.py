"""C29: the accounting of the coarse memory manager follows its blocks."""
import common
import engine
import specs
from checks import check, sweep, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import vio
from engine import T, Inter, add, assume, eval_cmp, known_const, lin_parts, mk, nonnull, root_of, show, split
from resources import ResChecker

MANAGER, BLOCK, ELEM = 'coarse_t', 'block_t', 'ravl_free_blocks_elem_t'
LINKS = (ELEM, 'ravl_free_blocks_head_t')
BLOCKS = (MANAGER, 'all_blocks')
COUNT = {'alloc_size': 'blocks', 'used_size': 'allocated blocks'}
SIZE, DATA, USED, FREEP = ((BLOCK, f) for f in ('size', 'data', 'used', 'free_list_ptr'))
TRACK = {SIZE, USED, FREEP}
EQUAL = 1
# life cycle and reading functions
# (the memory manager's own composition of coarse_alloc and coarse_free adds nothing)
NOTROOTS = ('coarse_add_memory_from_provider', 'coarse_new', 'coarse_delete', 'coarse_get_stats', 'coarse_init', 'coarse_destroy')


def offset(prog, mod, struct, field):
    ty = mod.types.get('struct.' + struct)
    if ty is None:
        return None
    import front
    t = front.Type('named', 'struct.' + struct)
    for i, o in enumerate(mod.offsets(mod.resolve(t))[0]):
        if mod.fieldname('struct.' + struct, i) == field:
            return o
    return None


def manager_roots(prog):
    """each operation: once with no step failing, and once for each step that can fail"""
    out = []
    for f in common.roots(prog):
        if not f.tu.startswith('src/coarse/') or f.name in NOTROOTS or not f.params or f.internal:
            continue
        engine.reset_terms()
        ck = AccountChecker(prog, f)
        ck.scout = set()
        ck.eng = eng = engine.Engine(prog, ck, specs.SPECS, specs.SLOTS, unroll=1, maxstates=60, maxsteps=700_000)
        try:
            ck.setup(eng, f, None, None)
            eng.run_root(f, None, engine.State())
        except engine.Budget:
            pass
        out += [(f, v) for v in [None] + sorted(ck.scout, key=repr)]
    return out


class AccountChecker(ResChecker):
    """follows one operation; the tree of blocks is modelled by its keys, the lists of free blocks by the link each block keeps"""
    want = ()
    scout = None        # when set: collects the steps that can fail

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.out = {'used': [], 'exits': 0}
        mod = prog.mods[root.tu]
        self.off = {k: offset(prog, mod, *k) for k in (SIZE, DATA, USED, FREEP, (ELEM, 'block'))}

    def setup(self, eng, f, st, variant):
        # facts about sizes decide which paths exist: states are never joined
        eng.joinlimit = eng.joinlimit2 = 10 ** 6
        return None

    def bad(self, rule, key, ins, msg, st=None):
        if rule in RULES:
            super().bad(rule, key, ins, msg, st)

    def acquire(self, eng, st, kind, o, ins, ctx, extra):
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: acquires {kind} via {self.site(ins)[1]}')

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: releases {kind} via {self.site(ins)[1]}')

    def release_failed(self, eng, st, kind, v, ins, ctx):
        pass

    def stored_in(self, eng, st, cont, v, ins, ctx):
        pass

    def lost(self, eng, st, v):
        pass

    def check_use(self, eng, st, r, ins, how):
        pass

    def link(self, eng, t):
        return isinstance(t, T) and t.k == 'ld' and eng.tagof.get(add(t.a[0], t.a[1]) if t.a[1] else t.a[0], ('', ''))[0] in LINKS \
            and eng.tagof.get(add(t.a[0], t.a[1]) if t.a[1] else t.a[0]) != (ELEM, 'block')

    def leave(self, eng, st, fn, ret, ctx):
        # how the lists of free blocks are chained does not matter to the balance
        if not fn.tu.startswith('src/coarse/'):
            return
        for k in [k for k in st.mem if isinstance(k[0], T) and isinstance(k[1], int)]:
            tag = eng.tagof.get(add(k[0], k[1]) if k[1] else k[0])
            if tag is not None and tag[0] in LINKS and tag != (ELEM, 'block'):
                del st.mem[k]
        for k in list(st.facts):
            if k.__class__ is tuple:
                if k[0] == 'c' and (self.link(eng, k[2]) or self.link(eng, k[3])):
                    del st.facts[k]
            elif self.link(eng, k):
                del st.facts[k]

    # each step that can fail has an exploration of its own in which it alone does; what a second one does to the recovery of the first is not followed
    def failed(self, eng, st, name, ins, ctx, r=None):
        if self.scout is not None:
            self.scout.add((ins.id, ctx))
            return False
        if ('fault',) in st.ts or self.variant != (ins.id, ctx):
            return False
        st.ts[('fault',)] = 1
        return True

    # ---------------------------------------------------------------- trees
    def tree(self, eng, t):
        if isinstance(t, T) and t.k == 'ld':
            return eng.tagof.get(add(t.a[0], t.a[1]))
        return None

    def drop(self, st):
        for k in [k for k in st.ts if k[0] in ('pred', 'succ')]:
            del st.ts[k]

    def node(self, eng, st, ins, ctx):
        o = mk('sym', 'rnode', ins.id, ctx)
        st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
        return o

    def call(self, eng, st, name, args, ins, ctx):
        if name == 'debug_check':
            return [(st, 1)]
        if not name.startswith('ravl_'):
            return ResChecker.call(self, eng, st, name, args, ins, ctx)
        h = getattr(self, 'do_' + name, None)
        return h(eng, st, args, ins, ctx) if h else None

    def do_ravl_data(self, eng, st, a, ins, ctx):
        o = mk('op', 'ravl_data', 64, a[0])
        st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
        return [(st, o)]

    def do_ravl_find(self, eng, st, a, ins, ctx):
        key = eng.mload(st, a[1])
        tr = self.tree(eng, a[0])
        pred = a[2] if len(a) > 2 else EQUAL
        if tr != BLOCKS:
            if pred == EQUAL:
                st.ts.pop(('ge',), None)
            else:
                st.ts[('ge',)] = key
        m = ('tn', tr, key)
        if pred == EQUAL and m in st.ts:
            return [(st, st.ts[m])]
        if tr == BLOCKS and pred == EQUAL and isinstance(key, T) and key.k == 'ld':
            x = key.a[0]
            if eng.tagof.get(add(x, key.a[1])) == DATA:
                # the block found under its own address is that block
                if ('gone', x) in st.ts:
                    return [(st, 0)]
                if x.k == 'ld' and x.a[0].__class__ is T and x.a[0].k == 'op' and x.a[0].a[0] == 'ravl_data':
                    return [(st, x.a[0].a[2])]
                o = mk('sym', 'rnode', 'of', x)
                st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
                self.hang(eng, st, o, x)
                st.ts[m] = o
                return [(st, o)]
        s0 = st.copy()
        o = self.node(eng, st, ins, ctx)
        if pred == EQUAL and tr == BLOCKS:
            s0.ts[m] = 0
            st.ts[m] = o
        return [(s0, 0), (st, o)]

    def hang(self, eng, st, o, x):
        d = mk('op', 'ravl_data', 64, o)
        eng.mstore(st, add(d, 8), x)
        pass

    def near(self, eng, st, a, ins, ctx, k, back):
        if (k, a[0]) in st.ts:
            return [(st, st.ts[(k, a[0])])]
        s0 = st.copy()
        s0.ts[(k, a[0])] = 0
        o = self.node(eng, st, ins, ctx)
        st.ts[(k, a[0])] = o
        st.ts[(back, o)] = a[0]
        return [(s0, 0), (st, o)]

    def do_ravl_node_predecessor(self, eng, st, a, ins, ctx):
        return self.near(eng, st, a, ins, ctx, 'pred', 'succ')

    def do_ravl_node_successor(self, eng, st, a, ins, ctx):
        return self.near(eng, st, a, ins, ctx, 'succ', 'pred')

    def do_ravl_emplace_copy(self, eng, st, a, ins, ctx):
        key, val = eng.mload(st, a[1]), eng.mload(st, add(a[1], 8))
        tr = self.tree(eng, a[0])
        s0 = st.copy()
        can = self.failed(eng, s0, 'ravl_emplace_copy', ins, ctx)
        s0.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: the insertion fails')
        o = self.node(eng, st, ins, ctx)
        self.drop(st)
        if tr == BLOCKS:
            st.ts[('tn', tr, key)] = o
        self.hang(eng, st, o, val)
        if tr == BLOCKS:
            st.ts[('b', val)] = 1
            st.ts[('in', val)] = 1
            st.ts.pop(('gone', val), None)
            st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: adds a block')
        return [(s0, -1), (st, 0)] if can else [(st, 0)]

    do_ravl_emplace = do_ravl_insert = lambda self, eng, st, a, ins, ctx: None

    def do_ravl_remove(self, eng, st, a, ins, ctx):
        self.drop(st)
        for k in [k for k, v in st.ts.items() if k[0] == 'tn' and v is a[1]]:
            st.ts[k] = 0
        if self.tree(eng, a[0]) == BLOCKS:
            x = eng.mload(st, add(mk('op', 'ravl_data', 64, a[1]), 8))
            st.ts[('b', x)] = 1
            st.ts[('gone', x)] = 1
            # what it held when it left the tree
            for f in (SIZE, USED):
                self.first(eng, st, x, f)
            st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: removes a block')
        return [(st, None)]

    def do_ravl_foreach(self, eng, st, a, ins, ctx):
        return [(st, None)]

    # --------------------------------------------------------------- memory
    def first(self, eng, st, x, f):
        if ('i', x, f) not in st.ts:
            o = self.off[f]
            st.ts[('i', x, f)] = eng.mload(st, add(x, o) if o else x)

    def load(self, eng, st, addr, val, ins, ctx):
        super().load(eng, st, addr, val, ins, ctx)
        tag = eng.tagof.get(addr) or ins.tag
        b, off = split(addr)
        if not isinstance(b, T) or not isinstance(val, T):
            return
        if tag == USED and ('onlist', b) in st.ts and ('i', b, USED) not in st.ts:
            assume(st, 'eq', val, 0, 8)
        if tag == (MANAGER, 'page_size'):
            assume(st, 'ne', val, 0, 64)
        if tag == FREEP and self.off[(ELEM, 'block')] is not None:
            # the list element of a block refers to the block
            k = (val, self.off[(ELEM, 'block')])
            if val.k == 'ld' and k not in st.mem:
                eng.mstore(st, add(val, k[1]) if k[1] else val, b)
            if val.k == 'ld' and ('i', b, FREEP) not in st.ts:
                # before the operation exactly the blocks not in use are listed
                u = self.flag(st, self.before(eng, st, b, USED))
                if u is None and ('onlist', b) in st.ts:
                    u = 0
                if u is not None:
                    assume(st, 'eq' if u else 'ne', val, 0, 64)
        elif tag == (ELEM, 'block') and val.k == 'ld' and val.a[0] is b:
            # a block on a list of free blocks is not in use
            assume(st, 'ne', val, 0, 64)
            if ('onlist', val) not in st.ts and ('i', val, FREEP) not in st.ts:
                st.ts[('onlist', val)] = b
                k = st.ts.get(('ge',))
                if k is not None and self.off[SIZE] is not None:
                    # found in the list of a size which is at least the one looked for
                    z = self.now(eng, st, val, SIZE)
                    assume(st, 'uge', z, k, 64)
                    for c, r in list(st.facts.items()):
                        if c.__class__ is tuple and len(c) == 4 and c[0] == 'c' and c[1] == 'ult' and c[2] is k and r is False:
                            # (the rest, an alignment or the page size, is not zero)
                            assume(st, 'ugt' if k is not c[3] else 'uge', z, c[3], 64)

    def store(self, eng, st, addr, v, ins, ctx):
        super().store(eng, st, addr, v, ins, ctx)
        tag = eng.tagof.get(addr) or ins.tag
        b, off = split(addr)
        if tag in TRACK and self.off[tag] == off:
            st.ts[('b', b)] = 1
            self.first(eng, st, b, tag)
        elif tag is not None and tag[0] == MANAGER and tag[1] in COUNT:
            if ('c', tag[1]) not in st.ts:
                st.ts[('c', tag[1])] = (eng.mload(st, addr), addr)

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            out += [x for x in k[1:] if isinstance(x, T)]
            out += [x for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, T)]
        return out

    # ---------------------------------------------------------------- exits
    def now(self, eng, st, x, f):
        o = self.off[f]
        return eng.mload(st, add(x, o) if o else x)

    def before(self, eng, st, x, f):
        if ('i', x, f) in st.ts:
            return st.ts[('i', x, f)]
        return self.now(eng, st, x, f)

    def flag(self, st, v):
        """0 / 1 / None for a boolean cell"""
        if isinstance(v, int):
            return v & 1
        c = known_const(st, v)
        if c is not None:
            return c & 1
        for w in (1, 8):
            t = mk('cast', 'trunc', w, 1, v)
        for k, r in st.facts.items():
            if k.__class__ is T and k.k in ('cast', 'op') and v in k.a:
                c = known_const(st, k)
                if c is not None:
                    return c & 1
        if nonnull(st, v):
            return 1
        return None

    def equal(self, st, d):
        """does the path show that the linear term d is zero"""
        if isinstance(d, int):
            return d == 0
        c = known_const(st, d)
        if c is not None:
            return c == 0
        eqs = []
        for k, v in st.facts.items():
            if k.__class__ is tuple and len(k) == 4 and k[0] == 'c':
                if k[1] == 'eq' and v is True or k[1] == 'ne' and v is False:
                    eqs.append(add(k[2], k[3], -1) if isinstance(k[2], T) or isinstance(k[3], T) else 0)
                elif k[1] == 'ult' and v is False and st.facts.get(('c', 'ult', k[3], k[2])) is False:
                    eqs.append(add(k[2], k[3], -1))
            elif v.__class__ is Inter and v.sl is not None and v.sl == v.sh and isinstance(k, T):
                eqs.append(add(k, v.sl, -1))
            elif v.__class__ is Inter and v.ul is not None and v.ul == v.uh and isinstance(k, T):
                eqs.append(add(k, v.ul, -1))
        rows = [dict_of(e) for e in eqs if isinstance(e, T)]
        rows = [r for r in rows if r]
        return reduces(dict_of(d), rows)

    def aligned_padded(self, st):
        """the path takes an address for aligned and then finds padding in front of it: impossible"""
        for k, v in st.facts.items():
            if isinstance(k, T) and k.k == 'op' and k.a[0] == 'and' and v.__class__ is Inter and v.ul == 0 and v.uh == 0:
                m, d = k.a[2], k.a[3]
                for a, b in ((m, d), (d, m)):
                    if not isinstance(a, T) or not isinstance(b, T):
                        continue
                    for x in st.facts:
                        if isinstance(x, T) and x.k == 'lin' and nonnull(st, x):
                            ps = dict_of(x)
                            up = [u for u, c in ps.items() if isinstance(u, T) and c == 1]
                            if len(ps) == 2 and ps.get(b) == -1 and len(up) == 1 and up[0].k == 'op' and up[0].a[0] == 'and' \
                                    and any(z is add(a, b) for z in up[0].a[2:]):
                                return True
        return False

    def root_exit(self, eng, st, fn, ret, ins):
        if fn is not self.root or self.aligned_padded(st):
            return
        stat = self.status(st, fn, ret)
        self.out['exits'] += 1
        self.count('exits examined')
        blocks = [k[1] for k in st.ts if k[0] == 'b']
        dall, dused = 0, 0
        vague = None
        for x in blocks:
            new = isinstance(x, T) and root_of(x) is x and x.k == 'obj'
            was = not new
            if new and ('in', x) not in st.ts:
                continue
            isin = ('gone', x) not in st.ts
            s0, s1 = self.before(eng, st, x, SIZE), self.now(eng, st, x, SIZE)
            if not isin:
                s1 = s0 if ('i', x, SIZE) in st.ts else s1
            u0 = 0 if new else self.flag(st, self.before(eng, st, x, USED))
            if u0 is None and ('onlist', x) in st.ts:
                u0 = 0
            raw = self.now(eng, st, x, USED)
            u1 = None if not isin else self.flag(st, raw)
            if u1 is None and isin and ('i', x, USED) not in st.ts:
                u1 = u0
            self.count('blocks followed')
            if was:
                dall = add(dall, s0, -1)
            if isin:
                dall = add(dall, s1)
            if isin and u1 is None:
                if isinstance(raw, T) and raw.k == 'uninit':
                    self.bad('use-not-set', f'{fn.name}:{self.where(x)}', ins, 'a block is in the tree whose use state was never set', st)
                    vague = 1
                    continue
            if not isin and u0 is None or isin and (u0 is None or u1 is None):
                # the use state is the same before and after, whatever it is: only the size matters
                if isin and u0 is None and u1 is None and self.equal(st, add(s1, s0, -1)):
                    pass
                else:
                    vague = x
            else:
                if was and u0:
                    dused = add(dused, s0, -1)
                if isin and u1:
                    dused = add(dused, s1)
            if isin and u1 is not None:
                p = self.now(eng, st, x, FREEP)
                if ('i', x, FREEP) in st.ts:
                    on = nonnull(st, p) if isinstance(p, T) else p != 0
                elif new:
                    on = False
                elif u0 is not None:
                    on = not u0
                else:
                    continue
                if on and u1:
                    self.bad('used-on-free-list', f'{fn.name}:{self.where(x)}', ins, f'{fn.name} leaves an allocated block on a list of free blocks', st)
                if not on and not u1:
                    self.bad('free-not-listed', f'{fn.name}:{"fail" if stat == "fail" else "ok"}', ins,
                             f'{fn.name} leaves a block that is not in use off every list of free blocks: it is lost for later allocations', st)
        for c, what in COUNT.items():
            h = st.ts.get(('c', c))
            d = add(eng.mload(st, h[1]), h[0], -1) if h else 0
            want = dall if c == 'alloc_size' else dused
            if c == 'used_size' and vague is not None:
                if vague != 1:
                    self.bad('use-unknown', f'{fn.name}:{c}', ins, f'{fn.name} changes a block without having established whether it is in use', st)
                continue
            self.count('balances examined')
            if not self.equal(st, add(d, want, -1)):
                self.bad('drift', f'{fn.name}:{c}:{stat}', ins,
                         f'{c} changes by {show(d)} while the {what} change by {show(want)}', st)
            if stat == 'fail' and not self.equal(st, d):
                self.bad('failed-changed', f'{fn.name}:{c}', ins, f'{fn.name} reports failure but {c} has changed by {show(d)}', st)
        if stat == 'fail':
            for x in blocks:
                if isinstance(x, T) and x.k == 'obj':
                    if ('in', x) in st.ts and ('gone', x) not in st.ts and self.flag(st, self.now(eng, st, x, USED)) == 1:
                        self.bad('failed-changed', f'{fn.name}:block', ins, f'{fn.name} reports failure but leaves a new allocated block', st)
                    continue
                u0 = self.flag(st, self.before(eng, st, x, USED))
                if u0 is None and ('onlist', x) in st.ts:
                    u0 = 0
                u1 = self.flag(st, self.now(eng, st, x, USED)) if ('gone', x) not in st.ts else 0
                if ('i', x, USED) in st.ts and u0 is not None and u1 is not None and u0 != u1:
                    self.bad('failed-changed', f'{fn.name}:used', ins, f'{fn.name} reports failure but the block is {"no longer" if u0 else "now"} marked as allocated', st)
        elif stat == 'ok' and ('c', 'used_size') in st.ts:
            h = st.ts[('c', 'used_size')]
            d = add(eng.mload(st, h[1]), h[0], -1)
            self.out['used'].append((show(d), d))

    def where(self, x):
        return x.k if isinstance(x, T) else '?'

    def result(self):
        return {'counts': self.counts, 'out': {'exits': self.out['exits'], 'used': sorted({s for s, _ in self.out['used']})}, 'root': self.root.name}


def dict_of(d, f=1, out=None):
    top = out is None
    if top:
        out = {}
    if isinstance(d, int):
        out[1] = out.get(1, 0) + f * d
    elif d.k == 'lin':
        for x, c in d.a[0]:
            dict_of(x, f * c, out)
        out[1] = out.get(1, 0) + f * d.a[1]
    elif d.k == 'op' and d.a[0] in ('add', 'sub') and d.a[1] == 64:
        dict_of(d.a[2], f, out)
        dict_of(d.a[3], f if d.a[0] == 'add' else -f, out)
    else:
        out[d] = out.get(d, 0) + f
    return {k: v for k, v in out.items() if v} if top else out


def reduces(goal, rows):
    """is goal == 0 a linear consequence of rows == 0 (modulo 2**64, coefficients are small)"""
    from fractions import Fraction
    piv = []

    def sub(r):
        r = {k: Fraction(v) for k, v in r.items()}
        for p, b in piv:
            c = r.get(p)
            if c:
                for k, v in b.items():
                    n = r.get(k, 0) - c * v
                    if n:
                        r[k] = n
                    else:
                        r.pop(k, None)
        return r
    for row in rows:
        r = sub(row)
        p = next((k for k in r if k != 1), None)
        if p is None:
            continue
        c = r[p]
        r = {k: v / c for k, v in r.items()}
        piv = [(q, {k: v for k, v in ((k, b.get(k, 0) - b.get(p, 0) * r.get(k, 0)) for k in set(b) | set(r)) if v} if b.get(p) else b) for q, b in piv]
        piv.append((p, r))
    return not sub(goal)


RULES = ['drift', 'failed-changed', 'free-not-listed', 'used-on-free-list', 'use-not-set', 'use-unknown']


@check('C29', 'symbolic balance of counters against the blocks they count, on every path', PATHNOTE)
def c29(rep):
    rep.explanation = (
        'Every operation of the memory manager is followed on all paths, with each allocation, insertion and upstream callback succeeding and '
        'failing. Along a path the blocks it touches are tracked by identity: their size, their use mark, whether they are in the tree of all '
        'blocks and on a list of free blocks. At each return the change of alloc_size must equal the change of the total size of the blocks in '
        'the tree, and the change of used_size that of the blocks marked as used, as linear terms under the equalities the path has tested; '
        'both must be zero when failure is reported, with no use mark changed; and a block is on a free list exactly when it is not in use.')
    rep.rules = RULES
    rep.assumptions = ENGINE_ASSUME + ['before the operation the tree holds each block under its address, and exactly the blocks not in use are on free lists']
    res = sweep(rep, AccountChecker, ['full', 'release'], rootsel=manager_roots, maxstates=100)
    rep.obligations += sum(r['counts'].get('balances examined', 0) for _, _, r in res)
    rep.stats['used_size_changes'] = {r['root']: r['out']['used'] for _, _, r in res}
    rep.need('operations', len(res), 3)
    rep.need('exits', sum(r['out']['exits'] for _, _, r in res), 30)
