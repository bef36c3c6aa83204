"""C19: readers of the address index run without locks."""
import common
import roles
import front
from checks import check, sweep, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker
from engine import T, mk, split, known_const, nonnull, eval_cmp, add, root_of
from engine import subterms as _subterms

ROOT, NODE, LEAF = 'critnib', 'critnib_node', 'critnib_leaf'
REL = ('release', 'acq_rel', 'seq_cst')
ACQ = ('acquire', 'acq_rel', 'seq_cst')
LIFECYCLE = ('critnib_new', 'critnib_delete')
LOCK, UNLOCK = ('utils_mutex_lock', 'pthread_mutex_lock'), ('utils_mutex_unlock', 'pthread_mutex_unlock')


def subs(v):
    out = set()
    if isinstance(v, T):
        _subterms(v, out)
    return out


def layout(prog):
    out = {}
    for mod in prog.mods.values():
        for n in mod.types:
            ty = front.Type('named', n)
            s = roles.sname(ty)
            if s in (ROOT, NODE, LEAF) and s not in out:
                r = mod.resolve(ty)
                if r.k != 'struct':
                    continue
                offs = mod.offsets(r)[0]
                out[s] = {mod.fieldname(n, i): (o, m.n if mod.resolve(m).k == 'array' else 1) for i, (o, m) in enumerate(zip(offs, r.a))}
    return out


def strip(v):
    """the object a (possibly marked) pointer points to"""
    if isinstance(v, T) and v.k == 'op' and v.a[0] in ('or', 'and') and v.a[1] == 64 and isinstance(v.a[2], T) and isinstance(v.a[3], int):
        return strip(v.a[2])
    if isinstance(v, T) and v.k == 'lin':
        b, off = split(v)
        if off in (1, -1):
            return strip(b)
    return v


class IndexChecker(BaseChecker):
    def setup(self, eng, fn, st, variant):
        eng.joinlimit = eng.joinlimit2 = eng.latecap = 10 ** 6
        self.lay = self.prog.__dict__.get('_critlay') or layout(self.prog)
        self.prog._critlay = self.lay
        self.args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        self.reader = variant == 'reader'
        self.n = 0
        self.tags = {}
        return self.args

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            for x in (k if isinstance(k, tuple) else (k,)) + (v if isinstance(v, tuple) else (v,)):
                if isinstance(x, T):
                    out.append(x)
        return out

    def where(self, eng, addr, ins):
        tag = ins.tag
        if tag:
            self.tags[addr] = tag
        else:
            tag = self.tags.get(addr) or eng.tagof.get(addr)
        if tag and tag[0] in (ROOT, NODE, LEAF):
            o = self.lay[tag[0]].get(tag[1])
            return tag, o
        return None, None

    def base(self, tag, addr):
        """the structure the member at addr belongs to (members that are arrays: without the index)"""
        b, off = split(addr)
        o, n = self.lay[tag[0]][tag[1]]
        if isinstance(addr, T) and addr.k == 'lin' and n > 1:
            parts = addr.a[0]
            for x, c in parts:
                if c == 1:
                    return x
        if isinstance(b, T) and n == 1:
            return b if off == o else None
        return b if isinstance(b, T) else None

    # ------------------------------------------------------------ calls
    def call(self, eng, st, name, args, ins, ctx):
        if name in LOCK:
            st.ts['locked'] = 1
        elif name in UNLOCK:
            st.ts.pop('locked', None)
        return None

    def acquire(self, eng, st, kind, o, ins, ctx, extra=None):
        if kind == 'ba_global':
            st.ts[('new', o)] = 1

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if isinstance(v, T) and known_const(st, v) != 0:
            x = strip(v)
            if ('new', x) not in st.ts or ('pub', x) in st.ts:
                self.bad('freed-under-readers', ins.fn.name, ins, f'{self.root.name} frees a part of the index that readers may still walk through', st)

    # ------------------------------------------------------------ reads
    def load(self, eng, st, addr, val, ins, ctx):
        tag, o = self.where(eng, addr, ins)
        if tag is None:
            return
        if not self.reader:
            if tag == (ROOT, 'deleted_node') or tag == (ROOT, 'deleted_leaf'):
                st.ts[('head', val)] = tag[1]
            elif tag[0] == ROOT and tag[1].startswith('pending'):
                self.count('retired parts examined')
                if known_const(st, val) != 0:
                    st.ts[('retired', val)] = addr
            return
        order = ins.x.get('atomic') if isinstance(ins.x, dict) else None
        name = '.'.join(tag)
        if tag[0] == ROOT and tag[1] not in ('root', 'remove_count'):
            return
        self.count('reads without a lock')
        if tag in ((ROOT, 'root'), (ROOT, 'remove_count'), (NODE, 'child'), (LEAF, 'value')) and order not in ACQ:
            self.bad('plain-read', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} reads {name} without a lock and without acquire ordering', st)
        if tag == (ROOT, 'remove_count'):
            if st.ts.get('dirty'):
                st.ts['last'] = val
                st.ts['dirty'] = 0
            else:
                st.ts['first'] = val
            self.volatile(eng, st, addr, ins, ctx)
            return
        st.ts['read'] = 1
        st.ts['dirty'] = 1
        if 'first' not in st.ts:
            self.bad('unguarded-read', ins.fn.name, ins, f'{ins.fn.name} walks the index before it has read the number of removals', st)
        if tag[0] != ROOT:
            b = self.base(tag, addr)
            v = strip(b) if b is not None else None
            if ('cell', v) in st.ts:
                if not nonnull(st, v):
                    self.bad('unchecked-pointer', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} follows a link of the index that may have been cleared since it was tested', st)
                else:
                    m = mk('op', 'and', 64, v, 1)
                    c = known_const(st, m)
                    if c is None and nonnull(st, m):
                        c = 1
                    want = 1 if tag[0] == LEAF else 0
                    if c is not None and c != want:
                        self.bad('wrong-kind', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} takes a {"node" if want else "leaf"} of the index for a {"leaf" if want else "node"}', st)
                    elif c is None:
                        self.count('kind not resolved')
        if tag in ((ROOT, 'root'), (NODE, 'child')):
            if isinstance(val, T):
                st.ts[('cell', val)] = 1
            self.volatile(eng, st, addr, ins, ctx)

    def volatile(self, eng, st, addr, ins, ctx):
        """another thread may change the cell at any time"""
        self.n += 1
        eng.mstore(st, addr, mk('sym', 'later', ins.id, ctx, st.ts.get('n', 0)))
        st.ts['n'] = st.ts.get('n', 0) + 1

    # ------------------------------------------------------------ writes
    def store(self, eng, st, addr, v, ins, ctx):
        tag, o = self.where(eng, addr, ins)
        if tag is None:
            return
        name = '.'.join(tag)
        order = ins.x.get('atomic') if isinstance(ins.x, dict) else None
        if self.reader:
            self.bad('reader-writes', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} writes to the index without the writer lock', st)
            return
        self.count('writes examined')
        b = self.base(tag, addr)
        x = strip(b) if b is not None else None
        new = ('new', x) in st.ts and ('pub', x) not in st.ts
        retired = ('retired', x) in st.ts or ('recycled', x) in st.ts
        if 'locked' not in st.ts and not new:
            self.bad('unlocked', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} changes the index without holding the writer lock', st)
        fn = ins.fn.name
        if tag == (ROOT, 'remove_count'):
            if order not in REL:
                self.bad('count-order', fn, ins, f'{fn} counts a removal without release ordering', st)
            d = split(add(v, eng.mload(st, addr), -1)) if isinstance(v, T) else None
            if d is None or d[1] <= 0 and not isinstance(d[0], T):
                self.bad('count-back', fn, ins, f'{fn} does not increase the number of removals', st)
            st.ts['counted'] = eng.mload(st, addr)
            return
        if tag[0] == ROOT and tag[1].startswith('deleted'):
            h = [k[1] for k, f in st.ts.items() if k[0] == 'head' and f == tag[1]]
            nxt = [p for p in h if isinstance(v, T) and v.k == 'ld' and p in subs(v)]
            if nxt:
                for p in nxt:
                    st.ts[('new', p)] = 1
                    st.ts.pop(('recycled', p), None)
                    for k in [k for k in st.ts if k[0] == 'set' and k[1] is p]:
                        st.ts.pop(k)
                return
            y = strip(v)
            self.count('parts recycled')
            if ('new', y) in st.ts and ('pub', y) not in st.ts or known_const(st, v) == 0:
                st.ts.pop(('new', y), None)
                st.ts[('recycled', y)] = 1
                return
            if ('retired', y) not in st.ts:
                self.bad('recycled-early', f'{fn}:{tag[1]}', ins, f'{self.root.name} makes a part of the index available for reuse that was not retired long enough before', st)
            elif 'counted' not in st.ts:
                self.bad('recycled-early', f'{fn}:count', ins, f'{self.root.name} makes a retired part available for reuse before it has counted the removal, readers cannot notice', st)
            st.ts[('recycled', y)] = 1
            return
        if tag[0] == ROOT and tag[1].startswith('pending'):
            old = eng.mload(st, addr)
            if isinstance(old, T) and known_const(st, old) != 0 and ('recycled', strip(old)) not in st.ts:
                self.bad('slot-overwritten', f'{fn}:{tag[1]}', ins, f'{fn} overwrites a retired part that was never recycled', st)
            c = st.ts.get('counted')
            if c is None or c not in subs(addr):
                self.bad('slot-choice', f'{fn}:{tag[1]}', ins, f'{fn} retires into a slot that does not follow from the number of removals', st)
            if known_const(st, v) != 0:
                y = strip(v)
                st.ts[('pending', y)] = 1
                self.count('parts retired')
                if ('gone', y) not in st.ts:
                    self.bad('retired-in-use', f'{fn}:{tag[1]}', ins, f'{fn} retires a part of the index that is still linked', st)
            return
        if tag == (ROOT, 'root') or tag == (NODE, 'child') and not new and not retired:
            if order not in REL:
                self.bad('plain-publication', f'{fn}:{name}', ins, f'{fn} links a part of the index with a plain store: a reader may find it half made', st)
            self.count('publications')
            old = eng.mload(st, addr)
            y = strip(v)
            if ('new', y) in st.ts and ('pub', y) not in st.ts:
                self.complete(eng, st, y, v, ins)
                for z in [k[2] for k in list(st.ts) if k[0] == 'holds' and k[1] is y]:
                    if ('new', z) in st.ts and ('pub', z) not in st.ts:
                        self.complete(eng, st, z, None, ins)
                        st.ts[('pub', z)] = 1
                st.ts[('pub', y)] = 1
            if isinstance(old, T) and known_const(st, old) != 0:
                so = strip(old)
                if not (('holds', y, so) in st.ts or so is y):
                    st.ts[('gone', so)] = ins.fn.name
            return
        if new:
            st.ts[('set', x, tag[1], addr)] = 1
            if tag == (NODE, 'child'):
                z = strip(v)
                if isinstance(z, T):
                    st.ts[('holds', x, z)] = 1
            return
        if retired:
            if not ('recycled', x) in st.ts and ('retired', x) not in st.ts:
                return
            return
        if tag == (LEAF, 'value'):
            if order not in REL:
                self.bad('plain-publication', f'{fn}:{name}', ins, f'{fn} replaces the value of a leaf readers can reach with a plain store: they may find what it points to half made', st)
            return
        if ('gone', x) in st.ts:
            self.bad('changed-under-readers', f'{fn}:{name}', ins, f'{fn} changes {name} of a part of the index that readers may still walk through', st)
            return
        self.bad('changed-under-readers', f'{fn}:{name}', ins, f'{fn} changes {name} of a part of the index that readers can reach', st)

    def complete(self, eng, st, y, v, ins):
        self.count('new parts published')
        have = {}
        for k in st.ts:
            if k[0] == 'set' and k[1] is y:
                have.setdefault(k[2], set()).add(k[3])
        kind = LEAF if ('key' in have or 'value' in have) else NODE
        for f, (o, n) in self.lay[kind].items():
            fixed = {a for a in have.get(f, ()) if isinstance(split(a)[0], T) and split(a)[0] is y}
            if len(fixed) < n if n > 1 else not have.get(f):
                self.bad('half-made', f'{ins.fn.name}:{kind}.{f}', ins, f'{ins.fn.name} links a new {"leaf" if kind == LEAF else "node"} before its {f} is completely filled in', st)

    # ------------------------------------------------------------ exits
    def root_exit(self, eng, st, fn, ret, ins):
        if ins is None:
            return
        self.count('returns examined')
        if self.reader:
            if 'read' not in st.ts:
                return
            if st.ts.get('dirty'):
                self.bad('not-rechecked', fn.name, ins, f'{fn.name} returns what it found without having read the number of removals again', st)
                return
            a, b = st.ts.get('first'), st.ts.get('last')
            if a is b or a is None:
                self.bad('not-rechecked', fn.name, ins, f'{fn.name} returns what it found without having read the number of removals before and after', st)
                return
            life = min([n for f, (o, n) in self.lay[ROOT].items() if f.startswith('pending')] or [0])
            if not any(eval_cmp(st, 'ule', add(a, k), b, 64) is False for k in range(1, life + 1)):
                self.bad('not-rechecked', f'{fn.name}:life', ins, f'{fn.name} accepts an answer although more removals than retired parts are kept may have happened meanwhile', st)
            return
        if 'locked' in st.ts:
            self.bad('still-locked', fn.name, ins, f'{fn.name} returns with the writer lock held', st)
        for k, f in st.ts.items():
            if k[0] == 'gone' and ('pending', k[1]) not in st.ts:
                self.bad('lost', f'{fn.name}', ins, f'{fn.name} unlinks a part of the index and forgets it', st)


RULES = ['plain-read', 'unguarded-read', 'unchecked-pointer', 'wrong-kind', 'not-rechecked', 'reader-writes', 'unlocked', 'plain-publication', 'half-made',
         'changed-under-readers', 'count-order', 'count-back', 'recycled-early', 'slot-overwritten', 'slot-choice', 'retired-in-use', 'freed-under-readers',
         'lost', 'still-locked']


def takes_lock(prog, f, seen):
    if f.uname in seen:
        return False
    seen.add(f.uname)
    for b in f.blocks.values():
        for i in b.insts:
            c = i.x.get('callee') if i.op == 'call' else None
            if isinstance(c, tuple) and len(c) > 1:
                if c[1] in LOCK:
                    return True
                t = prog.resolve_fn(prog.mods[f.tu], c[1])
                if t is not None and t.tu == f.tu and takes_lock(prog, t, seen):
                    return True
    return False


def writes_index(prog, f, seen):
    if f.uname in seen:
        return False
    seen.add(f.uname)
    for b in f.blocks.values():
        for i in b.insts:
            c = i.x.get('callee') if i.op == 'call' else None
            if isinstance(c, tuple) and len(c) > 1:
                if c[1] in ('umf_ba_global_alloc', 'umf_ba_global_aligned_alloc', 'utils_atomic_store_release_ptr', 'utils_atomic_increment_u64'):
                    return True
                t = prog.resolve_fn(prog.mods[f.tu], c[1])
                if t is not None and t.tu == f.tu and writes_index(prog, t, seen):
                    return True
    return False


def index_roots(prog):
    out = []
    for f in prog.fn.values():
        if f.tu.startswith('src/critnib/') and not f.internal and f.name not in LIFECYCLE and f.tu.endswith('.c'):
            if takes_lock(prog, f, set()) or writes_index(prog, f, set()):
                out.append((f, 'writer'))
            else:
                out.append((f, 'reader'))
    return out


@check('C19', 'path analysis of publication order, memory order and recycling in the lock-free index', PATHNOTE)
def c19(rep):
    rep.explanation = (
        'Every path of every operation of the index is followed. Writers: each store to a member readers can reach is made under the writer lock and '
        'with release order; a new node or leaf is linked only when all of its members have been stored, and no member of a linked one is changed '
        'but by such stores; what is unlinked goes to the slot given by the number of removals, and only what comes out of a slot after the '
        'removal was counted (or was never linked) is reused; nothing is freed. Readers: each link, value and removal count is loaded with '
        'acquire order, every link may change between two loads so that it is only followed when this very value was tested, and an answer is '
        'accepted only when the number of removals, read before the first and after the last access, grew by less than the number of slots.')
    rep.rules = RULES
    rep.assumptions = ENGINE_ASSUME + ['the last child a removal leaves in a node is the only one (it has counted them)']
    res = sweep(rep, IndexChecker, ['full', 'release'], rootsel=index_roots, unroll=1, maxstates=400)
    tot = {}
    for _, _, r in res:
        for k, v in r['counts'].items():
            tot[k] = tot.get(k, 0) + v
    rep.stats['counts'] = tot
    rep.obligations += tot.get('reads without a lock', 0) + tot.get('writes examined', 0) + tot.get('returns examined', 0)
    rep.need('operations', len(res), 4)
    rep.need('publications', tot.get('publications', 0), 3)
    rep.need('reads without a lock', tot.get('reads without a lock', 0), 10)
