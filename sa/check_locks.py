"""C02 (guarded state) and C03 (lock order)."""
import front
import common
import checks
import roles
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE, PRIMS_TU
from common import vio
from engine import T, Engine
from locks import LockChecker, GuardChecker

# member -> (lock class, how the object must relate to the lock's object: None = any)
B = ('bucket_t', 'bucket_lock')
C = ('coarse_t', 'lock')
F = ('file_memory_provider_t', 'lock')
O = ('os_memory_provider_t', 'lock_fd')
N = ('critnib', 'mutex')
I = ('ipc_opened_cache_global_t', 'cache_lock')
P = ('umf_memory_pool_t', 'lock')
A = ('umf_ba_main_pool_meta_t', 'free_lock')
L = ('umf_ba_main_linear_pool_meta_t', 'lock')


def _g(lock, rels, struct, fields):
    return {(struct, f): (lock, rels) for f in fields.split()}


SAME = ('same',)
GUARDS = {
    **_g(B, SAME, 'bucket_t', 'alloc_count alloc_pool_count free_count available_slabs available_slabs_num '
         'chunked_slabs_in_pool curr_slabs_in_pool curr_slabs_in_use max_slabs_in_pool max_slabs_in_use unavailable_slabs'),
    **_g(B, None, 'slab_t', 'chunks num_chunks_allocated first_free_chunk_idx'),
    **_g(B, None, 'slab_list_item_t', 'next prev'),
    **_g(F, SAME, 'file_memory_provider_t', 'base_mmap offset_fd offset_mmap size_fd size_mmap'),
    **_g(O, SAME, 'os_memory_provider_t', 'size_fd'),
    **_g(C, SAME, 'coarse_t', 'used_size alloc_size free_blocks all_blocks'),
    **_g(C, None, 'block_t', 'used size free_list_ptr'),
    **_g(C, None, 'ravl_free_blocks_elem_t', 'next prev'),
    **_g(C, None, 'ravl_free_blocks_head_t', 'head'),
    **_g(N, SAME, 'critnib', 'deleted_leaf deleted_node'),
    **_g(N, None, 'critnib', 'pending_del_leaves pending_del_nodes'),
    **_g(I, None, 'UT_hash_handle', 'hashv hh_next hh_prev key keylen next prev tbl'),
    **_g(I, None, 'UT_hash_bucket', 'count hh_head expand_mult'),
    **_g(I, None, 'UT_hash_table', 'tail num_items num_buckets log2_num_buckets ideal_chain_maxlen nonideal_items '
         'ineff_expands noexpand buckets'),
    **_g(I, None, 'ipc_opened_cache_entry_t', 'handle_id hash_table prev next'),
    **_g(I, SAME, 'ipc_opened_cache_global_t', 'cur_size lru_list'),
    **_g(I, ('parent',), 'ipc_opened_cache_t', 'hash_table'),
    **_g(P, SAME, 'umf_memory_pool_t', 'tag'),
    **_g(A, SAME, 'umf_ba_main_pool_meta_t', 'free_list n_allocs n_chunks n_pools'),
    **_g(A, SAME, 'umf_ba_pool_t', 'next_pool'),
    **_g(A, None, 'umf_ba_chunk_t', 'next'),
    **_g(L, SAME, 'umf_ba_main_linear_pool_meta_t', 'data_ptr global_n_allocs n_pools pool_n_allocs pool_size size_left'),
    **_g(L, SAME, 'umf_ba_linear_pool', 'next_pool'),
    **_g(L, None, 'umf_ba_next_linear_pool_t', 'next_pool pool_n_allocs'),
}
# only the writes have to be made under the lock (lock-free readers, judged by C19)
WRITES = {
    **_g(N, None, 'critnib_node', 'child path shift'),
    **_g(N, None, 'critnib_leaf', 'key value'),
    **_g(N, SAME, 'critnib', 'root'),
    **_g(I, None, 'ipc_opened_cache_value_t', 'mapped_base_ptr mapped_size'),
}
# shared counters outside any one lock: every update is an atomic read-modify-write (plain reads are tolerated)
COUNTERS = {('tracker_alloc_info_t', 'n_children'), ('umf_disjoint_pool_shared_limits_t', 'total_size'),
            ('umf_disjoint_pool_params_t', 'cur_pool_size'), ('ipc_opened_cache_entry_t', 'ref_count'),
            ('umf_ipc_handler_t', 'ref_count')}
# callers own these; the library does not synchronise accesses to them (documented: one thread sets them up)
CALLER = ('params_t', 'mempolicy', 'memspace', 'ipc_data', 'config_t', 'stats_t', 'ctl_node', 'ctl_query', 'cb_args',
          'ravl', 'anon', 'memtarget', 'native_error_t', 'ze_ops', 'cu_ops', 'tbb_callbacks', 'shared_limits', 'base_alloc_t',
          'anon')
THREAD_LOCAL = ('TLS_', 'lastFailedProvider', 'was_called_from_umfPool')


def only_passed(prog):
    """functions whose address is only ever an argument of a call: they run inside the callee's context"""
    passed, stored = set(), set()
    rl = roles.roles(prog)
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for i in b.insts:
                for n, a in enumerate(i.args):
                    if isinstance(a, tuple) and len(a) == 2 and a[0] == 'g' and isinstance(a[1], str):
                        t = prog.resolve_fn(mod, a[1])
                        if t is not None:
                            (passed if i.op == 'call' else stored).add(t.uname)
    return {u for u in passed if u not in stored and u not in rl}


class GuardCheck(GuardChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.seen = {}
        self.cb = root.uname in only_passed_of(prog) and root.internal

    def lockviol(self):
        pass

    def finish(self, eng, f, bud):
        lv = dict(self.vios)
        self.vios.clear()             # lock balance itself is C01's business
        del lv
        initonly = f.name in ('umf_ba_create', 'umf_ba_linear_create')
        for r, d in self.pend.items():
            dead = r in self.gone
            for (tag, kind, atomic, ls, once, plainset), (ins, tr) in d.items():
                sf = '.'.join(tag)
                self.count('accesses')
                if tag[0] == 'global':
                    self.globl(tag, kind, atomic, ls, once, ins, tr)
                    continue
                g = GUARDS.get(tag) or (WRITES.get(tag) if kind == 'w' else None)
                if dead or self.cb or once or initonly:
                    continue
                if g is not None:
                    lock, rels = g
                    if lock in self.killed:
                        continue          # this entry point takes the object down
                    self.count('guarded accesses')
                    self.seen[sf] = self.seen.get(sf, 0) + 1
                    ok = [x for x in ls if x[0] == lock and (rels is None or x[2] in rels) and not (kind == 'w' and x[1])]
                    if not ok and not (atomic and tag in ()):
                        h = ', '.join('.'.join(x[0]) + (' (read)' if x[1] else '') + ' of ' +
                                      {'same': 'the same object', 'other': 'another object'}.get(x[2], 'a ' + x[2] + ' object')
                                      for x in ls) or 'no lock'
                        self.badtr('unguarded', f'{sf}:{kind}:{ins.fn.name}', ins,
                                   f'{sf} is {"written" if kind == "w" else "read"} holding {h}; '
                                   f'it is shared state guarded by {".".join(lock)}', tr)
                elif tag in COUNTERS:
                    if kind == 'w':
                        self.count('atomic counters')
                        self.seen[sf] = self.seen.get(sf, 0) + 1
                        if not atomic and not (plainset and ls):
                            self.badtr('counter', f'{sf}:{ins.fn.name}', ins, f'the shared counter {sf} is written without an '
                                       'atomic operation, concurrent updates get lost', tr)
                elif kind == 'w' and not ls and not atomic and not any(c in tag[0] for c in CALLER) and not self.killed \
                        and tag not in WRITES:
                    self.count('other writes')
                    self.other(tag, ins, tr)

    def other(self, tag, ins, tr):
        f = self.prog.mods[ins.fn.tu]
        lib = tag[0] in monitored(self.prog)
        if lib:
            self.badtr('unlocked-write', f'{".".join(tag)}:{ins.fn.name}', ins,
                       f'{".".join(tag)} belongs to an object shared between threads (it is published before this call) and is '
                       'written without any lock or atomic operation', tr)

    def globl(self, tag, kind, atomic, ls, once, ins, tr):
        name = tag[1].split(':')[-1]
        if name.startswith('<') or kind != 'w' or atomic or once or ls:
            return
        if self.root.uname in once_of(self.prog):
            return
        g = None
        for m in self.prog.mods.values():
            g = m.globals.get(name) if name in m.globals and not m.globals[name].ext else g
        self.count('writes of globals')
        if g is not None and g.tls:
            return
        self.seen['global ' + name] = 1
        if self.root.name in LIFECYCLE or self.root.name.startswith(('fini_', '_ZN')):
            return
        self.badtr('global', f'{name}:{ins.fn.name}', ins,
                   f'the global variable {name} is written from {self.root.name} without a lock, an atomic operation or a '
                   'once-guard', tr)

    def badtr(self, rule, key, ins, msg, tr):
        k = rule + '|' + key
        if k not in self.vios:
            self.vios[k] = vio(rule, k, ins, msg, tr, self.root.name)

    def result(self):
        return {'counts': self.counts, 'seen': self.seen}


# run by one thread at a time: library start and end
LIFECYCLE = {'umfInit', 'umfTearDown', 'umfCreate', 'umfDestroy', 'proxy_lib_create_common', 'proxy_lib_destroy_common',
             'umf_ba_destroy_global', 'utils_log_init', 'proxy_lib_ctor', 'proxy_lib_dtor'}

_op = {}


def only_passed_of(prog):
    k = id(prog)
    if k not in _op:
        _op[k] = only_passed(prog)
    return _op[k]


def once_of(prog):
    """functions handed to utils_init_once, and the library's constructors and destructors"""
    c = prog.__dict__.get('_once_cb')
    if c is None:
        c = set()
        for f in prog.fn.values():
            mod = prog.mods[f.tu]
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'call' and i.x['callee'] in (('g', 'utils_init_once'), ('g', 'pthread_once')):
                        a = i.args[1]
                        if isinstance(a, tuple) and a[0] == 'g':
                            t = prog.resolve_fn(mod, a[1])
                            if t is not None:
                                c.add(t.uname)
        for m in prog.mods.values():
            for n in ('llvm.global_ctors', 'llvm.global_dtors'):
                g = m.globals.get(n)

                def walk(v):
                    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                        t = prog.resolve_fn(m, v[1])
                        if t is not None:
                            c.add(t.uname)
                    elif isinstance(v, (tuple, list)):
                        for x in v:
                            walk(x)
                if g is not None:
                    walk(g.init)
        prog._once_cb = c
    return c



def monitored(prog):
    """structures of the library that own a lock, plus those whose members the table guards"""
    return {s for s, _ in GUARDS} | {s for s, _ in WRITES} | \
        {'os_memory_provider_t', 'devdax_memory_provider_t', 'fixed_memory_provider_t', 'ze_memory_provider_t',
         'cu_memory_provider_t', 'disjoint_pool_t', 'jemalloc_memory_pool_t', 'tbb_memory_pool_t', 'proxy_memory_pool',
         'umf_memory_provider_t', 'umf_tracking_memory_provider_t', 'umf_memory_tracker_t', 'tracker_alloc_info_t',
         'tracker_ipc_info_t', 'ipc_opened_cache_value_t', 'umf_ipc_handler_t'}


@check('C02', 'lockset dataflow over LLVM IR against a guarded-by table', PATHNOTE)
def c02(rep):
    rep.explanation = (
        'At every load and store of a member of a live (published, not yet released) library object, on every path of every '
        'entry point, the set of locks held and the relation between the locked object and the accessed one is computed and '
        'compared with the guarded-by table; writes to other members of shared objects and to globals must be locked, atomic, '
        'thread-local or confined to once-guards and library start/end.')
    rep.rules = ['unguarded', 'counter', 'unlocked-write', 'global', 'thread-local']
    rep.assumptions = ENGINE_ASSUME + ['creation before publication and destruction after last use are single-threaded']
    res = sweep(rep, GuardCheck, configs(rep), skip=(PRIMS_TU, 'utils_windows'))
    seen = {}
    for c, u, r in res:
        for k, v in r.get('seen', {}).items():
            seen[k] = seen.get(k, 0) + v
    fields = {'.'.join(t) for t in GUARDS} | {'.'.join(t) for t in WRITES}
    hit = [k for k in seen if k in fields]
    rep.need('guarded members seen accessed', len(hit), 50)
    rep.need('guarded accesses', rep.stats['events'].get('guarded accesses', 0), 500)
    rep.obligations = rep.stats['events'].get('accesses', 0)
    rep.samples = [f'{k}: {v} access contexts' for k, v in sorted(seen.items()) if k in fields]
    rep.stats['guarded_members'] = len(fields)
    # records that must be per thread
    n = 0
    for c in configs(rep):
        prog = front.load(c)
        for m in prog.mods.values():
            for name, g in m.globals.items():
                base = name.split('.')[-1]
                if not g.ext and (base.startswith(THREAD_LOCAL[0]) or base in THREAD_LOCAL[1:]):
                    n += 1
                    if not g.tls:
                        f = next(iter(m.fns.values()))
                        rep.add(common.Violation('thread-local', f'thread-local|{name}', f.tu, 0, name,
                                                 f'{name} is a per-thread record but is not thread-local storage'))
    rep.need('thread-local records', n, 8)


# ------------------------------------------------------------------------------------------------ C03
class OrderChecker(LockChecker):
    """lock-order edges seen along paths, and what is called through tables or modelled interfaces, with the locks held"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.calls = {}

    def call(self, eng, st, name, args, ins, ctx):
        super().call(eng, st, name, args, ins, ctx)
        n = self.callee(eng, name)
        if n:
            self.calls.setdefault(n, f'{ins.fn.file}:{ins.line} {ins.fn.name}')
        return None

    def callee(self, eng, name):
        if not name:
            return None
        if name.startswith('slot:'):
            return name[5:]
        if name in eng.specs:
            t = self.prog.fn.get(name)
            if t is not None and eng.spec_for(name, t) is not None:
                return 'fn:' + name
        return None

    def once(self, eng, st, flag, fn, ins, ctx):
        cls = ('once', flagname(flag))
        where = f'{ins.fn.file}:{ins.line} {ins.fn.name}'
        for k, v in st.ts.items():
            if k[0] == 'l':
                self.edges.setdefault((v[1], cls), f'{where} (holding {".".join(v[1])} since {v[2]}; entry {self.root.name})')
        st.ts[('l', flag)] = ('once', cls, where)
        self.acq[cls] = self.acq.get(cls, 0) + 1

    def once_done(self, eng, st, flag, fn, ins, ctx):
        st.ts.pop(('l', flag), None)

    def once_nested(self, eng, st, flag, ins, ctx):
        self.bad('once-recursion', f'{ins.fn.name}:{flagname(flag)}', ins,
                 f'the initialiser run under the once-guard {flagname(flag)} waits for that same guard: it blocks forever', st)

    def bad(self, rule, key, ins, msg, st=None):
        if rule in ('once-recursion', 'double-lock'):
            super().bad(rule, key, ins, msg, st)

    def result(self):
        r = super().result()
        r['calls'] = self.calls
        r['tu'] = self.root.tu
        return r


def flagname(f):
    from engine import split, root_of
    if isinstance(f, T):
        r = root_of(split(f)[0])
        if isinstance(r, T) and r.k == 'g':
            return r.a[0].split(':')[-1]
    return '?'


TRACKING = 'provider_tracking.c'


def order_graph(rep, res, progs):
    """edges between lock classes: direct ones, and from a held lock to everything a callee may take"""
    slots = {}
    for c, prog in progs.items():
        for u, tags in roles.roles(prog).items():
            for t in tags:
                slots.setdefault('.'.join(t), set()).add(u)
    byname = {}
    for c, prog in progs.items():
        for u, f in prog.fn.items():
            byname.setdefault(f.name, set()).add(u)
    own = {}      # root uname -> {class: example}
    calls = {}
    held = {}
    tu = {}
    edges = {}
    for c, u, r in res:
        o = own.setdefault(u, {})
        for k in r['acq']:
            o.setdefault(k, u)
        calls.setdefault(u, {}).update(r['calls'])
        for (cls, slot), ex in r['icalls'].items():
            held.setdefault((u, cls, slot), ex)
        for e, ex in r['edges'].items():
            edges.setdefault(e, ex)
        tu[u] = r['tu']

    def impls(u, slot):
        if slot.startswith('fn:'):
            return byname.get(slot[3:], set())
        return slots.get(slot, set())

    # closure; below the tracking wrapper a provider is never the wrapper again (the wrapper never leaves the library)
    def close(below):
        acc = {u: dict(o) for u, o in own.items()}
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for u in acc:
                for slot, ex in calls[u].items():
                    for t in impls(u, slot):
                        intr = TRACKING in tu.get(t, '')
                        if below and intr and not slot.startswith('fn:'):
                            continue
                        src = below_acq if intr and below_acq is not None and TRACKING in tu.get(u, '') else acc
                        if TRACKING in tu.get(u, '') and below_acq is not None:
                            src = below_acq
                        for k in src.get(t, {}):
                            if k not in acc[u]:
                                acc[u][k] = f'{ex} -> {t}'
                                ch = True
        return acc, n

    below_acq = None
    below_acq, _ = close(True)
    allacq, rounds = close(False)
    resolved = 0
    unresolved = set()
    for (u, cls, slot), ex in held.items():
        im = set(impls(u, slot))
        intrack = TRACKING in tu.get(u, '')
        if intrack and not slot.startswith('fn:'):
            im = {t for t in im if TRACKING not in tu.get(t, '')}
        if not im:
            unresolved.add(slot)
        else:
            resolved += 1
        for t in im:
            for k, via in (below_acq if intrack else allacq).get(t, {}).items():
                edges.setdefault((cls, k), f'{ex} calls {slot} holding {".".join(cls)} -> {t} takes {".".join(k)} ({via})')
    rep.stats['calls_made_with_a_lock_held'] = resolved
    rep.stats['unresolved_callees_with_a_lock_held'] = unresolved
    rep.stats['closure_rounds'] = rounds
    return edges, allacq


@check('C03', 'lock-order graph over lock classes, closed over the call graph and operation tables', PATHNOTE)
def c03(rep):
    rep.explanation = (
        'Every ordered pair (lock held, lock taken) along every path of every entry point becomes an edge; a call made through '
        'an operations table or internal interface while a lock is held contributes an edge to every lock any implementation '
        'may take, transitively. Once-guards count as locks. The class graph must have no cycle.')
    rep.rules = ['cycle', 'self-nesting', 'once-recursion', 'double-lock']
    rep.assumptions = ENGINE_ASSUME + ['a provider given by the user does not call back into the library with its own locks held']
    cs = configs(rep)
    res = sweep(rep, OrderChecker, cs, skip=(PRIMS_TU, 'utils_windows'))
    progs = {c: front.load(c) for c in cs}
    edges, allacq = order_graph(rep, res, progs)
    rep.need('lock classes', len({k for o in allacq.values() for k in o if k[0] != 'once'}), 9)
    rep.need('lock-order edges', len(edges), 8)
    rep.obligations = len(edges)
    rep.samples = [f'{".".join(a)} -> {".".join(b)}: {ex}' for (a, b), ex in sorted(edges.items())]
    nodes = {}
    for a, b in edges:
        nodes.setdefault(a, set()).add(b)
    import networkx_free as nf
    for comp in nf.sccs(nodes):
        cyc = len(comp) > 1
        for a in comp:
            if not cyc and a not in nodes.get(a, ()):
                continue
        if cyc:
            inner = [(a, b) for (a, b) in edges if a in comp and b in comp and a != b]
            key = 'cycle|' + '>'.join(sorted('.'.join(a) for a in comp))
            rep.add(common.Violation('cycle', key, 'lock-order', 0, ' '.join(sorted('.'.join(a) for a in comp)),
                                     'these locks are taken in opposite orders: ' + '; '.join(
                                         f'{".".join(a)} before {".".join(b)} at {edges[(a, b)]}' for a, b in sorted(inner)),
                                     [f'{".".join(a)} -> {".".join(b)}: {edges[(a, b)]}' for a, b in sorted(inner)]))
    for (a, b), ex in edges.items():
        if a == b:
            rep.add(common.Violation('self-nesting', 'self-nesting|' + '.'.join(a), 'lock-order', 0, '.'.join(a),
                                     f'two locks of the class {".".join(a)} are held at once with no fixed order: {ex}', [ex]))
