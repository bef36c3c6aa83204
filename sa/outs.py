"""C10: outputs are written on success, nothing uninitialised is read or handed out."""
from engine import T, mk, split, root_of, subterms, known_const, nonnull, Inter
from common import BaseChecker
from fails import status_of
import roles

# public functions: (parameter, creates a handle)
PUBLIC = {
    'umfCUDAMemoryProviderParamsCreate': ((0, True),),
    'umfCtlGet': (),
    'umfDevDaxMemoryProviderParamsCreate': ((0, True),),
    'umfDisjointPoolParamsCreate': ((0, True),),
    'umfFileMemoryProviderParamsCreate': ((0, True),),
    'umfFixedMemoryProviderParamsCreate': ((0, True),),
    'umfGetIPCHandle': ((1, True), (2, False)),
    'umfLevelZeroMemoryProviderParamsCreate': ((0, True),),
    'umfMemoryProviderAlloc': ((3, False),),
    'umfMemoryProviderCreate': ((2, True),),
    'umfMemoryProviderCreateFromMemspace': ((2, True),),
    'umfMemoryProviderGetIPCHandle': ((3, False),),
    'umfMemoryProviderGetIPCHandleSize': ((1, False),),
    'umfMemoryProviderGetLastNativeError': ((1, False), (2, False)),
    'umfMemoryProviderGetMinPageSize': ((2, False),),
    'umfMemoryProviderGetRecommendedPageSize': ((2, False),),
    'umfMemoryProviderOpenIPCHandle': ((2, False),),
    'umfMempolicyCreate': ((1, True),),
    'umfMemspaceClone': ((1, True),),
    'umfMemspaceFilter': ((3, True),),
    'umfMemspaceCreateFromNumaArray': ((2, True),),
    'umfMemspaceNew': ((0, True),),
    'umfMemtargetGetCapacity': ((1, False),),
    'umfMemtargetGetId': ((1, False),),
    'umfMemtargetGetType': ((1, False),),
    'umfMemtargetGetBandwidth': ((2, False),),
    'umfMemtargetGetLatency': ((2, False),),
    'umfMemtargetCreate': ((2, True),),
    'umfMemtargetClone': ((1, True),),
    'umfOpenIPCHandle': ((2, False),),
    'umfOsMemoryProviderParamsCreate': ((0, True),),
    'umfPoolCreate': ((4, True),),
    'umfPoolCreateFromMemspace': ((2, True),),
    'umfPoolGetIPCHandleSize': ((1, False),),
    'umfPoolGetIPCHandler': ((1, True),),
    'umfPoolGetMemoryProvider': ((1, False),),
    'umfPoolGetTag': ((1, False),),
    'umfScalablePoolParamsCreate': ((0, True),),
    # internal interfaces the models promise outputs of
    'umfTrackingMemoryProviderCreate': ((2, True),),
    'umfIpcOpenedCacheGet': ((-1, True),),
    'coarse_new': ((1, True),),
    'coarse_alloc': ((3, False),),
    'utils_get_file_size': ((1, False),),
    'utils_duplicate_fd': ((2, False),),
    'utils_translate_mem_protection_flags': ((1, False),),
    'utils_translate_mem_visibility_flag': ((1, False),),
}
P = 'umf_memory_provider_ops_t'
SLOT = {
    (P, 'initialize'): ((1, True),), (P, 'alloc'): ((3, False),), (P, 'get_last_native_error'): ((1, False), (2, False)),
    (P, 'get_recommended_page_size'): ((2, False),), (P, 'get_min_page_size'): ((2, False),),
    ('umf_memory_provider_ipc_ops_t', 'get_ipc_handle_size'): ((1, False),),
    ('umf_memory_provider_ipc_ops_t', 'get_ipc_handle'): ((3, False),),
    ('umf_memory_provider_ipc_ops_t', 'open_ipc_handle'): ((2, False),),
    ('umf_memory_pool_ops_t', 'initialize'): ((2, True),),
    ('umf_memtarget_ops_t', 'initialize'): ((1, True),), ('umf_memtarget_ops_t', 'clone'): ((1, True),),
    ('umf_memtarget_ops_t', 'get_capacity'): ((1, False),), ('umf_memtarget_ops_t', 'get_bandwidth'): ((2, False),),
    ('umf_memtarget_ops_t', 'get_latency'): ((2, False),), ('umf_memtarget_ops_t', 'get_type'): ((1, False),),
    ('umf_memtarget_ops_t', 'get_id'): ((1, False),), ('umf_memtarget_ops_t', 'compare'): ((2, False),),
    ('umf_memtarget_ops_t', 'pool_create_from_memspace'): ((4, True),),
    ('umf_memtarget_ops_t', 'memory_provider_create_from_memspace'): ((4, True),),
    ('coarse_callbacks_t', 'alloc'): ((3, False),),
}
# outputs that a success may leave alone
OPTIONAL = {
    ('umfMemoryProviderGetLastNativeError', 1): 'providers that never fail provider-specifically',
    ('umfMemoryProviderGetLastNativeError', 2): 'providers that never fail provider-specifically',
    ('fixed_get_last_native_error', 1): 'never reports a native error',
}
# members of surviving objects that may stay unset
UNSET_OK = {
    ('umf_ipc_data_t', 'handle_id'): 'filled by the tracking provider behind the interface',
    ('umf_mempolicy_t', '0'): 'only one member of the union is meaningful',
    ('umf_mempolicy_t', '1'): 'only one member of the union is meaningful',
}


def outs_of(prog, f):
    r = PUBLIC.get(f.name)
    if r is not None:
        return [(k if k >= 0 else len(f.params) + k, h) for k, h in r]
    out = {}
    for t in roles.roles(prog).get(f.uname, ()):
        for k, h in SLOT.get(t, ()):
            out[k] = h
    return sorted(out.items())


class OutChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.outs = outs_of(prog, root)
        self.kind = status_of(root)
        self.shape = {}        # heap object -> struct name
        self.reads = {}
        self.unset = {}

    def load(self, eng, st, addr, val, ins, ctx):
        self.count('loads')
        if ins.tag is not None:
            self.reads[ins.tag] = 1
        if val.__class__ is T and val.k == 'uninit':
            b = val.a[0]
            r = root_of(b)
            if r.__class__ is T and r.k == 'obj':
                what = '.'.join(ins.tag) if ins.tag else ('a local variable' if r.a[0] == 'stack' else r.a[0])
                self.bad('uninit-read', f'{ins.fn.name}:{what}', ins,
                         f'{what} is read before anything was stored there ({"automatic storage" if r.a[0] == "stack" else "fresh " + str(r.a[0])})', st)

    def store(self, eng, st, addr, v, ins, ctx):
        self.count('stores')
        if ins.tag is not None and addr.__class__ is T:
            b, off = split(addr)
            if b.k == 'obj' and b.a[0] != 'stack':
                d = self.shape.setdefault(b, {})
                d[ins.tag] = min(off, d.get(ins.tag, off))

    def gckeep(self, st):
        return ()

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        c = known_const(st, ret) if ret is not None else None
        if self.kind in ('enum', 'int'):
            ok = c == 0
        elif self.kind == 'ptr':
            ok = c is None and ret.__class__ is T and nonnull(st, ret)
        else:
            ok = fn.rty.k == 'void'
        if not ok:
            return
        self.count('success exits')
        for k, handle in self.outs:
            if k >= len(eng.root_args):
                continue
            a = eng.root_args[k]
            if known_const(st, a) == 0:
                continue
            self.count('outputs judged')
            v = eng.mload(st, a)
            if v.__class__ is T and v.k == 'ld' and v.a[2] == 0 and root_of(v.a[0]) is a:
                if any(x[0] is a for x in st.mem):
                    continue          # part of it was filled in
                if (fn.name, k) in OPTIONAL:
                    continue
                self.bad('output-missing', f'{fn.name}:{k}', ins,
                         f'{fn.name} reports success without storing anything through its parameter {k}', st)
            elif v.__class__ is T and v.k in ('uninit', 'undef'):
                self.bad('output-uninit', f'{fn.name}:{k}', ins,
                         f'{fn.name} reports success with an uninitialised value in its parameter {k}', st)
            elif handle and known_const(st, v) == 0:
                self.bad('output-null', f'{fn.name}:{k}', ins,
                         f'{fn.name} reports success with NULL in its parameter {k}', st)
        # objects that outlive the call: members nobody has set
        reach = None
        for o, tags in self.shape.items():
            if reach is None:
                reach = self.live(eng, st, ret)
            if o not in reach:
                continue
            sts = {t[0] for t in tags}
            mod = self.prog.mods[ins.fn.tu] if ins is not None else self.prog.mods[fn.tu]
            for s in sts:
                base = [off for t, off in tags.items() if t[0] == s]
                self.judge(eng, st, o, s, tags, fn, ins)

    def judge(self, eng, st, o, s, tags, fn, ins):
        for mod in self.prog.mods.values():
            fl = mod.fieldnames.get('struct.' + s)
            ty = mod.types.get('struct.' + s)
            if fl and ty is not None:
                break
        else:
            return
        inv = {n: off for off, n in fl.items()}
        for t, off in tags.items():
            if t[0] == s and t[1] in inv:
                start = off - inv[t[1]]
                break
        else:
            return
        for off, lt, _ in roles.leaves(mod, ty.__class__('named', 'struct.' + s) if False else named(s)):
            if lt is None or lt[0] is None or lt[0].startswith('__pthread'):
                continue
            v = eng.mload(st, addoff(o, start + off))
            if v.__class__ is T and v.k == 'uninit':
                self.unset.setdefault((s, lt), (fn.name, fn.file, ins.line if ins is not None else fn.line))

    def live(self, eng, st, ret):
        byroot = {}
        work = []
        if ret.__class__ is T:
            work += list(ret.fl)
        reach = set()
        for (b, off), v in st.mem.items():
            if off == '@r' or v.__class__ is not T or not v.fl or b.__class__ is not T:
                continue
            r = root_of(b)
            if r.__class__ is T and r.k == 'obj':
                byroot.setdefault(r, []).extend(v.fl)
            else:
                work += list(v.fl)
        while work:
            x = work.pop()
            if x not in reach:
                reach.add(x)
                work += byroot.get(x, ())
        return reach

    def result(self):
        return {'counts': self.counts, 'unset': self.unset, 'reads': self.reads}


def named(s):
    from front import Type
    return Type('named', 'struct.' + s)


def addoff(o, k):
    from engine import add
    return add(o, k)
