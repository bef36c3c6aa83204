"""Status discipline: failures must surface (C08), statuses must be documented codes (C11)."""
from engine import T, mk, subterms, split, root_of, known_const, nonnull, Inter
from common import BaseChecker


def status_of(fn):
    """how the function reports success: 'enum', 'int', 'ptr' or None"""
    if fn.enumret is not None:
        return 'enum' if fn.enumret[0] and 'umf_result' in fn.enumret[0] else None
    if fn.rty.k == 'ptr':
        return 'ptr'
    if fn.rty.k == 'int' and fn.rty.n == 32:
        return 'int'
    return None


class FailChecker(BaseChecker):
    """remembers which failed steps lie on the path"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.hits = {}
        self.kind = status_of(root)

    def failed(self, eng, st, name, ins, ctx, r=None):
        self.count('failed steps')
        st.ts[('f', name, ins.fn.name)] = ins
        st.ts['lastfail'] = name
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: {name} fails')
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        c = known_const(st, ret) if ret is not None else None
        if self.kind == 'enum':
            ok = c == 0
        elif self.kind == 'int':
            ok = c == 0
        elif self.kind == 'ptr':
            ok = c is None and isinstance(ret, T) and nonnull(st, ret)
        else:
            ok = False
        if not ok:
            return
        self.count('success exits')
        for k, i in st.ts.items():
            if k[0] == 'f':
                h = (fn.uname, k[1])
                o = self.hits.get(h)
                if o is None:
                    self.hits[h] = (i.fn.file, i.line, i.fn.name)
                self.found(eng, fn, k[1], i, st)

    def found(self, eng, fn, name, i, st):
        pass

    def result(self):
        return {'counts': self.counts, 'hits': self.hits}


def errno_is(*vals):
    def f(eng, st):
        for k, v in st.facts.items():
            if k.__class__ is T and k.k == 'sym' and k.a[0] == 'errno:hwloc_set_area_membind' and v.__class__ is Inter \
                    and v.sl is not None and v.sh is not None and min(vals) <= v.sl and v.sh <= max(vals):
                return True
        return False
    return f


def arg_zero(i):
    def f(eng, st):
        a = eng.root_args[i]
        for k, v in st.facts.items():
            if k.__class__ is T and v.__class__ is Inter and v.const() == 0 and a in subterms(k, set()):
                return True
        return False
    return f


# where the code documents that the failure of a step does not fail the operation:
# (entry point, step) -> why
TOLERATED = {
    ('coarse_add_memory_fixed', 'slot:coarse_callbacks_t.merge'): 'neighbouring blocks stay unmerged',
    ('coarse_add_memory_from_provider', 'slot:coarse_callbacks_t.merge'): 'neighbouring blocks stay unmerged',
    ('coarse_free', 'slot:coarse_callbacks_t.merge'): 'neighbouring blocks stay unmerged',
    ('disjoint_pool_free', 'critnib_remove'): 'logged; the chunk itself is free',
    ('disjoint_pool_free', 'umfMemoryProviderFree'): 'a surplus slab could not be given back; the chunk itself is free',
    ('disjoint_pool_initialize', 'umfMemoryProviderGetMinPageSize'): 'documented: falls back to 0',
    ('devdax_close_ipc_handle', 'munmap'): ('mappings of size zero', arg_zero(2)),
    ('file_close_ipc_handle', 'munmap'): ('mappings of size zero', arg_zero(2)),
    ('os_close_ipc_handle', 'munmap'): ('mappings of size zero', arg_zero(2)),
    ('utils_mmap_file', 'utils_mmap'): 'tried again without MAP_SYNC',
    ('umfFree', 'umfMemoryTrackerGetAllocInfo()'): 'not ours: nothing is done',
    ('proxy_free', 'umfMemoryTrackerGetAllocInfo()'): 'size unknown: the provider decides',
    ('trackingFree', 'umfMemoryTrackerRemove()'): 'logged; the tracking provider must not change the upstream behaviour',
    ('coarse_free', 'user_block_merge()'): 'neighbouring blocks stay unmerged',
    ('coarse_add_memory_fixed', 'user_block_merge()'): 'neighbouring blocks stay unmerged',
    ('coarse_add_memory_from_provider', 'user_block_merge()'): 'neighbouring blocks stay unmerged',
    ('ze_memory_provider_initialize', 'ze2umf_result()'): 'probe allocation for the page size',
    ('ze_memory_provider_initialize', 'ze_memory_provider_free()'): 'probe allocation for the page size',
    ('file_initialize', 'utils_mmap'): 'probe whether the file is on FSDAX',
    ('ze_memory_provider_initialize', 'slot:ze_ops_t.zeMemFree'): 'probe allocation for the page size',
    ('ze_memory_provider_initialize', 'slot:ze_ops_t.zeMemFreeExt'): 'probe allocation for the page size',
    ('os_alloc', 'hwloc_set_area_membind'): ('binding not implemented on the system (ENOSYS)', errno_is(0, 38)),
    ('os_alloc', 'hwloc_bitmap_or'): 'binding falls back to fewer nodes',
    ('os_free', 'critnib_remove'): 'absent for memory that is not file backed',
    ('os_initialize', 'umf_ba_global_alloc'): 'the textual nodeset is optional',
    ('pool_ctl', 'umf_ba_global_alloc'): 'the search goes on in the other tree',
    ('os_ctl', 'umf_ba_global_alloc'): 'the search goes on in the other tree',
    ('ctl_load_config_from_string', 'umf_ba_global_alloc'): 'global configuration skips what it cannot apply',
    ('ctl_load_config_from_file', 'umf_ba_global_alloc'): 'global configuration skips what it cannot apply',
    ('trackingFree', 'critnib_remove'): 'absent when no IPC handle was made',
    ('trackingFree', 'umfMemoryProviderPutIPCHandle'): 'logged; the memory itself is given back',
    ('trackingGetIpcHandle', 'critnib_insert'): 'another thread inserted it first; its entry is used',
    ('umf_ba_global_alloc', 'umf_ba_create'): 'falls back to the operating system',
    ('umf_ba_global_aligned_alloc', 'umf_ba_create'): 'falls back to the operating system',
    ('umfInit', 'fopen'): 'logging to the file is switched off',
}


class SurfaceChecker(FailChecker):
    """C08: no success exit with an untolerated failed step behind it"""

    INNER = True

    def gckeep(self, st):
        return (mk('sym', 'errno:hwloc_set_area_membind'),)

    def enter(self, eng, st, fn, args, ctx):
        # failures from here on explain a failing result of this call
        if ctx and status_of(fn) == 'enum':
            st.ts[('outer', fn.uname, len(ctx))] = st.ts.pop('lastfail', None)

    def leave(self, eng, st, fn, ret, ctx):
        cause = st.ts.get('lastfail')
        if ctx and status_of(fn) == 'enum':
            outer = st.ts.pop(('outer', fn.uname, len(ctx)), None)
            if cause is None and outer is not None:
                st.ts['lastfail'] = outer
        if self.INNER and ctx and status_of(fn) == 'enum' and ret is not None:
            c = known_const(st, ret)
            if c not in (None, 0) or c is None and isinstance(ret, T) and nonnull(st, ret):
                k = ('f', fn.name + '()', fn.name)
                st.ts[('cause', fn.name + '()')] = cause
                if k not in st.ts:
                    st.ts[k] = next(iter(fn.blocks[fn.entry].insts))
                self.count('failed inner calls')

    def found(self, eng, fn, name, i, st):
        t = TOLERATED.get((fn.name, name))
        if t is not None and (t.__class__ is str or t[1](eng, st)):
            self.count('tolerated')
            return
        cause = st.ts.get(('cause', name))
        if cause is not None and cause != name:
            # the inner function failed because of that step, which is judged on its own
            self.count('explained by the failed step')
            return
        self.bad('swallowed-failure', f'{fn.name}|{name}', i,
                 f'{fn.name} reports success although {name} failed in {i.fn.name}', st)
